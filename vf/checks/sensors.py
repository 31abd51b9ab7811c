"""D-Bus passive sensors, host sensors, wrapped sensors, sensor construction."""
from ..spec import *
from ..extract import Broken
from .roles import *

LOGF = {'outputFailsafeLogWithSensor', 'outputFailsafeLogWithZone'}
VALUE_IF = C('xyz.openbmc_project.Sensor.Value')
CRIT_IF = C('xyz.openbmc_project.Sensor.Threshold.Critical')
WARN_IF = C('xyz.openbmc_project.Sensor.Threshold.Warning')
AVAIL_IF = C('xyz.openbmc_project.State.Decorator.Availability')
OPER_IF = C('xyz.openbmc_project.State.Decorator.OperationalStatus')


def setter_field(c, fn, val, cfg=0):
    """fields that become `val` when fn runs"""
    I_, ps = c.run(fn, cfg)
    out = set()
    for s in ps:
        out |= {k for k, v in changed(s).items() if v is val}
    return out


class Passive:
    _c = {}

    def __new__(cls, c, cfg=0):
        k = id(c.P(cfg))
        if k in cls._c:
            return cls._c[k]
        z = object.__new__(cls)
        one = lambda x: next(iter(x)) if len(x) == 1 else None
        z.failed = one(setter_field(c, 'DbusPassive::setFailed', argsym(0), cfg))
        z.functional = one(setter_field(c, 'DbusPassive::setFunctional', argsym(0), cfg))
        z.available = one(setter_field(c, 'DbusPassive::setAvailable', argsym(0), cfg))
        z.overridden = one(setter_field(c, 'DbusPassive::setAvailable', TRUE, cfg))
        z.scale = ret_field(c, 'DbusPassive::getScale', cfg)
        z.max = ret_field(c, 'DbusPassive::getMax', cfg)
        z.min = ret_field(c, 'DbusPassive::getMin', cfg)
        z.id = ret_field(c, 'DbusPassive::getID', cfg)
        m, init, f = ctor_fields(c, 'DbusPassive::DbusPassive', cfg)
        z.init, z.ctor = init, f
        z.missing, z.path, z.redundancy = m.get('objectMissing'), m.get('path'), m.get('redundancy')
        if len(f['params']) == 7:
            inv = {i: next((k for k, v in init.items() if v is argsym(i)), None) for i in range(7)}
            z.missing = z.missing or inv[4]
            z.path = z.path or inv[5]
            z.redundancy = z.redundancy or inv[6]
        ty = argsym(1)
        z.margin = next((k for k, v in init.items() if v is eq(ty, C('margin'))), None)
        z.fan = next((k for k, v in init.items() if v is eq(ty, C('fan'))), None)
        I_, ps = c.run('DbusPassive::initFromSettings', cfg, opaque={'DbusPassive::updateValue'})
        z.uaf = None
        for s in ps:
            for k2, v in changed(s).items():
                if v is getf(argsym(0), 'unavailableAsFailed') or v is getf(T('rd', T('D', argsym(0))), 'unavailableAsFailed'):
                    z.uaf = k2
        z.bad = z.hot = None
        I_, ps = c.run('DbusPassive::updateValue', cfg)
        for s in ps:
            for fx, ch in worlds(s.facts, lambda o: (o(T('isfin', argsym(0))), o(argsym(1)), changed(s))[2]):
                if fx.decide(T('isfin', argsym(0))) is False and fx.decide(argsym(1)) is False and len(ch) == 1:
                    z.bad = next(iter(ch))
        z.value = z.unscaled = z.updated = None
        I_, ps = c.run('DbusPassive::read', cfg)
        s = one_ret(ps)
        if s is not None and s.val.op == 'rec':
            d = dict(s.val.a[1])
            z.value, z.updated, z.unscaled = (field_of(d.get(x)) if d.get(x) is not None else None
                                              for x in ('value', 'updated', 'unscaled'))
        known = {z.bad, z.value, z.unscaled, z.updated}
        I_, ps = c.run('DbusPassive::updateValue', cfg)
        for s in ps:
            for k2 in changed(s):
                if k2 not in known:
                    z.hot = k2
        fb = dict(failed='_failed', functional='_functional', available='_available', overridden='_availableOverridden',
                  scale='_scale', max='_max', min='_min', id='_id', missing='_objectMissing', path='path',
                  redundancy='redundancy', margin='_typeMargin', fan='_typeFan', uaf='_unavailableAsFailed',
                  bad='_badReading', hot='_marginHot', value='_value', unscaled='_unscaled', updated='_updated')
        have = {x['n'] for x in c.P(cfg).rec('DbusPassive')['fields']}
        for a, n in fb.items():
            if getattr(z, a) is None and n in have:
                setattr(z, a, n)
        cls._c[k] = z
        return z

    def need(self, *names):
        for n in names:
            if getattr(self, n) is None:
                raise Broken('DbusPassive: the member behind "%s" is not recognised' % n)

    def v(self, n):
        self.need(n)
        return tf(getattr(self, n))


CAUSES = [('missing', 'missing'), ('bad', 'bad'), ('hot', 'argin'), ('failed', 'threshold'),
          ('available', 'vailable'), ('functional', 'functional')]


def cause(z, o):
    """first cause that holds, in the order of precedence"""
    for n, _ in CAUSES:
        t = z.v(n)
        if o(t) == (n not in ('available', 'functional')):
            return n
    return None


@check('C16')
def c16(c):
    for cfg in CONFIGS:
        z = Passive(c, cfg)
        I_, ps = c.run('DbusPassive::getFailed', cfg, opaque=LOGF)
        red = z.v('redundancy')

        def f(o, s):
            if s.sig != 'ret':
                return 'fails with %s' % show(s.val)
            bad = None
            if not o(isnull(red)):
                cand = [t for t in facts_ops(s, 'has') if t.a[1] is z.v('path')]
                for t in cand:
                    if o(t):
                        bad = 'redundancy'
                if not cand and bad is None:
                    # the decision did not look at the redundancy failures
                    sets = [t for t in walk_state(s) if t.op == 'has']
                    return 'the redundancy group\'s failures are not consulted'
            if bad is None:
                if o(z.v('missing')):
                    bad = 'missing'
                elif not o(z.v('fan')) and not o(z.v('available')) and not o(z.v('uaf')):
                    bad = None
                else:
                    bad = cause(z, o)
            want = C(bad is not None)
            r = c.expect(o, s.val, want, 'the failure verdict (%s)' % (bad or 'no cause'))
            if r:
                return r
            if changed(s):
                return 'asking for the verdict changes %s' % sorted(changed(s))
        c.judge('verdict', I_, ps, f)
        I_, ps = c.run('DbusPassive::getFailReason', cfg)
        texts = {}

        def g(o, s):
            if s.sig != 'ret':
                return 'fails with %s' % show(s.val)
            k = cause(z, o)
            if k is None:
                return None
            v = o.val(s.val)
            if v.op != 'c':
                return ('undecided', 'reason %s' % show(v))
            txt = str(v.a[1])
            low = txt.lower()
            mine = dict(CAUSES)[k] in low
            for n, w in CAUSES:
                if n != k and w in low and not mine:
                    return 'the reason for "%s" is reported as "%s"' % (k, txt)
            old = texts.setdefault(txt, k)
            if old != k:
                return 'the causes "%s" and "%s" are both reported as "%s"' % (old, k, txt)
        c.judge('reason', I_, ps, g)
        # what decides whether a sensor counts as a fan is its type
        if len(z.ctor['params']) > 1:
            for n, w in (('fan', 'fan'), ('margin', 'margin')):
                if not getattr(z, n):
                    continue
                got = z.init.get(getattr(z, n))
                if got is eq(argsym(1), C(w)):
                    c.ok('type', 'DbusPassive constructor')
                elif got is None or opaque(got):
                    c.undec('type', 'the %s mark is %s' % (w, show(got)[:80] if got is not None else 'not set'))
                else:
                    c.viol('type', z.ctor, 'a sensor counts as a %s if %s, not by its type' % (w, show(got)[:120]))


def facts_ops(s, op):
    out = []
    for t in s.facts.lits:
        for x in walk(t):
            if x.op == op and x not in out:
                out.append(x)
    if s.val is not None:
        for x in walk(s.val):
            if x.op == op and x not in out:
                out.append(x)
    return out


def walk_state(s):
    for t in allterms(s):
        yield from walk(t)


@check('C17')
def c17(c):
    for cfg in CONFIGS:
        z = Passive(c, cfg)
        unc = option(cfg, 'unc')
        f = c.P(cfg).fn('handleSensorValue')
        I_, ps = c.run(f, cfg, opaque={'DbusPassive::updateValue'})
        msg = argsym(0)
        owner = T('D', argsym(1))
        # the message body: interface name and changed properties
        iface = T('msgf', msg, 0)
        data = T('msgf', msg, 1)
        seen = [x for s in ps for x in walk_state(s) if x.op == 'msgf']
        for x in seen:
            if x.a[1] == 0:
                iface = x
            else:
                data = x
        key = lambda k: has(data, C(k))
        boolv = lambda k: T('vget', C('bool'), getat(data, C(k)))
        bv = [x for s in ps for x in walk_state(s) if x.op == 'vget']
        if bv:
            boolv = lambda k: T('vget', bv[0].a[0], getat(data, C(k)))

        def h(o, s):
            if s.sig == 'thr':
                return None if 'variant' in show(s.val) else 'fails with %s' % show(s.val)
            upd = [e for e in s.eff if e.op == 'e' and e.a[1] == 'updateValue']
            want = {}
            calls = []
            if o(eq(iface, VALUE_IF)):
                if o(key('Value')):
                    calls = [('val', FALSE)]
            elif o(eq(iface, CRIT_IF)):
                hi, lo = o(key('CriticalAlarmHigh')), o(key('CriticalAlarmLow'))
                if hi or lo:
                    want['failed'] = C((lo and o(boolv('CriticalAlarmLow'))) or (hi and o(boolv('CriticalAlarmHigh'))))
            elif unc and o(eq(iface, WARN_IF)):
                if o(key('WarningAlarmHigh')):
                    want['failed'] = boolv('WarningAlarmHigh')
            elif o(eq(iface, AVAIL_IF)):
                if o(key('Available')):
                    want['available'] = boolv('Available')
                    want['overridden'] = TRUE
                    if not o(boolv('Available')):
                        calls = [('nan', TRUE)]
            elif o(eq(iface, OPER_IF)):
                if o(key('Functional')):
                    want['functional'] = boolv('Functional')
            ch = changed(s, owner)
            base = T('rd', owner)
            for k, w in want.items():
                r = c.expect(o, getf(s.load(owner), getattr(z, k)), w, 'the sensor\'s "%s" state' % k)
                if r:
                    return r
            ok = {getattr(z, k) for k in want}
            for k, v in ch.items():
                if k not in ok and not same(o, v, getf(base, k)):
                    return 'the signal also changes %s to %s' % (k, show(v))
            if len(upd) != len(calls):
                return 'the reading is updated %d times, required %d' % (len(upd), len(calls))
            for e, (k, frc) in zip(upd, calls):
                r = c.expect(o, e.a[3][1], frc, 'the force flag of the reading update', e)
                if r:
                    return r
                a = o.val(e.a[3][0])
                if e.a[2] is not argsym(1) and not same(o, e.a[2], argsym(1)):
                    return ('another sensor is updated: %s' % show(e.a[2]), e)
                if k == 'nan':
                    if a is not NAN:
                        return ('an unavailable sensor\'s reading becomes %s' % show(a), e)
                else:
                    v = getat(data, C('Value'))
                    if not any(x is v for x in walk(a)):
                        return ('the reading is updated with %s' % show(a), e)
                    if a.op not in ('visit', 'vget', 'cast'):
                        return ('undecided', 'the reading is updated with %s' % show(a)) if opaque(a) else \
                            ('the reading is updated with %s' % show(a), e)
        c.judge('signal', I_, ps, h)
        g = c.P(cfg).find('dbusHandleSignal')
        if g:
            I_, ps = c.run(g[0], cfg, opaque={'handleSensorValue'})

            def sig(o, s):
                e = [x for x in s.eff if x.op == 'e' and x.a[1] == 'handleSensorValue']
                if len(e) != 1:
                    return 'a delivered signal is handled %d times' % len(e)
                if not any(x is argsym(1) for x in walk(e[0].a[3][1])):
                    return ('the signal is handled for %s' % show(e[0].a[3][1]), e[0])
            c.judge('dispatch', I_, ps, sig)
        # the callback registered by the sensor
        sg = [v for k, v in z.init.items() if v.op == 'make' and any(
            isinstance(x, T) and x.op == 'fn' and 'dbusHandleSignal' in show(x) for x in walk(v))]
        if sg:
            v = sg[0]
            t = show(v)
            if 'arg5' not in t:
                c.viol('register', z.ctor, 'the sensor listens on %s instead of its own path' % t[:200])
            else:
                c.ok('register', 'signal match on the sensor path')
        else:
            c.undec('register', 'signal registration not recognised')


def scaled(o, z, raw, base=None):
    mn, mx = z.v('min'), z.v('max')
    if o(lt(ZERO, mx)) and o(lt(mn, mx)):
        return div(sub(raw, mn), sub(mx, mn))
    return raw


@check('C18')
def c18(c):
    z = Passive(c)
    I_, ps = c.run('DbusPassive::updateValue')
    v, force = argsym(0), argsym(1)
    raw = mul(v, T('pow', C(10), z.v('scale')))
    fin = T('isfin', v)
    for s in ps:
        for x in walk_state(s):
            if x.op == 'pow':
                raw = mul(v, x) if x.a[0] is C(10) and x.a[1] is z.v('scale') else raw

    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        st = s.load(THIS)
        isf = o(fin)
        r = c.expect(o, getf(st, z.bad), C(not isf), 'the bad-reading mark')
        if r:
            return r
        g = {k: getf(st, getattr(z, k)) for k in ('value', 'unscaled', 'updated', 'hot')}
        if not isf and not o(force):
            for k, x in g.items():
                if not same(o, x, z.v(k)):
                    return 'a rejected reading changes the "%s" state to %s' % (k, show(x))
        elif isf:
            r = c.expect(o, g['unscaled'], raw, 'the raw reading') or \
                c.expect(o, g['value'], scaled(o, z, raw), 'the scaled reading')
            if r:
                return r
            if g['updated'].op != 'now':
                return 'the time stamp becomes %s' % show(g['updated'])
            if o(z.v('margin')):
                r = c.expect(o, g['hot'], lnot(lt(ZERO, raw)), 'the exhausted-margin mark')
            else:
                r = c.expect(o, g['hot'], z.v('hot'), 'the exhausted-margin mark of a non-margin sensor')
            if r:
                return r
        else:
            for k in ('value', 'unscaled'):
                x = o.val(g[k])
                if x is not NAN and not any(y is v for y in walk(x)) and not opaque(x):
                    return 'a forced bad reading stores %s' % show(x)
            if g['updated'].op != 'now':
                return 'the time stamp becomes %s' % show(g['updated'])
        ok = {z.bad, z.value, z.unscaled, z.updated, z.hot}
        for k, x in changed(s).items():
            if k not in ok and not same(o, x, tf(k)):
                return 'a reading changes %s' % k
    c.judge('update', I_, ps, f)
    I_, ps = c.run('scaleSensorReading')
    mn, mx = argsym(0), argsym(1)
    L = ploc(I_, 2)

    def g(o, s):
        raw = argsym(2)
        w = div(sub(raw, mn), sub(mx, mn)) if o(lt(ZERO, mx)) and o(lt(mn, mx)) else raw
        return c.expect(o, s.load(L), w, 'the scaled reading')
    try:
        c.judge('scale', I_, ps, g)
    except Broken:
        pass
    # initial values
    I_, ps = c.run('DbusPassive::initFromSettings', opaque={'DbusPassive::updateValue'})
    S = argsym(0)
    sc = getf(S, 'scale')

    def h(o, s):
        st = s.load(THIS)
        p10 = T('pow', C(10), sc)
        for x in walk_state(s):
            if x.op == 'pow' and x.a[0] is C(10) and x.a[1] is sc:
                p10 = x
        for k, w in (('failed', argsym(1)), ('scale', sc), ('min', mul(getf(S, 'min'), p10)), ('max', mul(getf(S, 'max'), p10)),
                     ('uaf', getf(S, 'unavailableAsFailed')),
                     ('available', z.v('available') if o(z.v('overridden')) else getf(S, 'available'))):
            r = c.expect(o, getf(st, getattr(z, k)), w, 'the initial "%s" state' % k)
            if r:
                return r
        e = [x for x in s.eff if x.op == 'e' and x.a[1] == 'updateValue']
        if len(e) != 1:
            return 'the initial reading is stored %d times' % len(e)
        return c.expect(o, e[0].a[3][0], getf(S, 'value'), 'the initial reading', e[0]) or \
            c.expect(o, e[0].a[3][1], TRUE, 'the force flag of the initial reading', e[0])
    c.judge('initial', I_, ps, h)


def lock_fields(P, cls):
    r = P.rec(cls)
    return [f['n'] for f in r['fields'] if 'mutex' in f['t']] if r else []


def lock_region(c, rule, I_, ps, fields, locks, fn):
    """every access to `fields` happens while one of the object's locks is held"""
    def flat(effs_):
        for e in effs_:
            if e.op == 'foreach' or e.op == 'repeat':
                yield e
            else:
                yield e

    def f(o, s):
        held = shared = 0
        own = {tl(x) for x in locks}
        for e in s.eff:
            if e.op != 'e':
                if any(x.op == 'e' and x.a[0] in ('rd', 'wr') for x in leaf_effs(e)) and not held:
                    return ('a loop accesses a protected member without the lock', e)
                continue
            if e.a[0] in ('lock', 'unlock'):
                # only the object's own lock excludes the other accessors
                if e.a[2] in own:
                    d = 1 if e.a[0] == 'lock' else -1
                    held += d
                    shared += d * (e.a[1] == 'lock_shared' or (d < 0 and shared > 0))
            elif e.a[0] == 'wr' and e.a[1] in fields and held > 0 and held <= shared:
                return ('write of "%s" while the lock is only held for reading' % e.a[1], e)
            elif e.a[0] in ('rd', 'wr') and e.a[1] in fields and held <= 0:
                return ('%s of "%s" while the lock is not held' % ('read' if e.a[0] == 'rd' else 'write', e.a[1]), e)
    c.judge(rule, I_, ps, f)


@check('C19')
def c19(c):
    P = c.P(0)
    z = Passive(c)
    z.need('value', 'unscaled', 'updated')
    fields = {z.value, z.unscaled, z.updated}
    for cls in ('DbusPassive', 'HostSensor'):
        rec = P.rec(cls)
        if rec is None:
            raise Broken('class %s not found' % cls)
        locks = lock_fields(P, cls)
        if cls == 'HostSensor':
            I_, ps = c.run('HostSensor::read')
            s = one_ret(ps)
            d = dict(s.val.a[1]) if s is not None and s.val.op == 'rec' else {}
            fv, fu = (field_of(d[k]) if k in d else None for k in ('value', 'updated'))
            if fv is None or fu is None:
                raise Broken('HostSensor: value and time stamp not recognised')
            # several threads only ever meet in the two accessors that pair value and time stamp
            fields, pairf = {fv, fu}, [(fv, fu)]
        else:
            pairf = [(z.value, z.updated), (z.unscaled, z.updated)]
        if not locks:
            c.viol('lock', (rec.get('file'), rec.get('l'), cls), 'the class has no lock for its reading')
            continue
        n = 0
        for f in [x for x in P.fns.values() if x.get('cls') and x['cls'].split('::')[-1] == cls and x.get('body')]:
            short = f['n'].split('::')[-1]
            if short == cls or short.startswith('~') or f.get('static'):
                continue
            I_, ps = c.run(f, access=fields, opaque={'updateValue'} if short not in ('updateValue',) else frozenset())
            acc = {e.a[1] for s in ps for x in s.eff for e in leaf_effs(x) if e.op == 'e' and e.a[0] in ('rd', 'wr') and e.a[1] in fields}
            if not acc:
                continue
            n += 1
            if cls == 'HostSensor' and acc == {fv} and not any(
                    e.a[0] == 'wr' for s in ps for x in s.eff for e in leaf_effs(x) if e.op == 'e'):
                continue        # a lone look at the value needs no pairing
            lock_region(c, 'lock', I_, ps, fields, locks, f)

            def pairs(o, s):
                ch = changed(s)
                for a, b in pairf:
                    if (a in ch) != (b in ch):
                        return '%s is written without %s' % ((a, b) if a in ch else (b, a))
                for _, b in pairf:
                    if b in ch and ch[b].op != 'now':
                        return 'the time stamp becomes %s, not the current time' % show(ch[b])
            c.judge('pair', I_, ps, pairs)
        if n < 2:
            c.viol('lock', (rec.get('file'), rec.get('l'), cls), 'fewer than two functions access the reading of %s' % cls)


def okatoms(ps):
    """atoms "the guarded call succeeds", in a stable order (call before read)"""
    out = []
    for s in ps:
        for x in walk_state(s):
            if x.op == 'ok' and x not in out:
                out.append(x)
    return sorted(out, key=lambda t: t.id)


def okf(s, name):
    """outcome of the (last) guarded call with this name on the path: True, False or None"""
    r = None
    for a, v in s.facts.lits.items():
        if a.op == 'ok' and a.a[0].a[0] == name:
            if r is None or v is False:
                r = v
    return r


@check('C20')
def c20(c):
    for cfg in CONFIGS:
        P = c.P(cfg)
        z = Passive(c, cfg)
        f = P.fn('DbusPassive::createDbusPassive')
        pn = [p['n'] for p in f['params']]
        if len(pn) != 6:
            raise Broken('createDbusPassive: unexpected parameters')
        ty, idn, helper, info = argsym(1), argsym(2), argsym(3), T('rd', T('D', argsym(4)))
        I_, ps = c.run(f, cfg, opaque={'initFromSettings', 'getSensorPath'}, throws={'getService', 'getProperties', 'thresholdsAsserted'})
        rp = getf(info, 'readPath')
        path = ite(isempty(rp), getter('getSensorPath', NULL, ty, idn), rp)
        valid = lor(*[eq(ty, C(t)) for t in ('fan', 'temp', 'margin', 'power', 'powersum')])

        def g(o, s):
            if s.sig != 'ret':
                return 'fails with %s' % show(s.val)
            made = s.val is not NULL and s.val.op != 'c'
            if o(isnull(helper)):
                return 'a sensor is created without a bus helper' if made else None
            if not o(valid):
                return 'a sensor of an unknown type is created' if made else None
            gs, gp, th = okf(s, 'getService'), okf(s, 'getProperties'), okf(s, 'thresholdsAsserted')
            mk = [e for e in s.eff if e.op == 'e' and e.a[0] == 'make' and suffix_(e.a[1], 'DbusPassive')]
            ini = [e for e in s.eff if e.op == 'e' and e.a[1] == 'initFromSettings']
            if gs is None:
                return 'the service of the sensor is not looked up' if made else None
            if gs is False:
                if not option(cfg, 'missing'):
                    return 'an unreachable service yields a sensor' if made else None
                if not made:
                    return 'a missing object yields no sensor although missing objects are handled'
                v = s.load(T('D', s.val))
                return c.expect(o, getf(v, z.missing), TRUE, 'the missing mark of a sensor without object') or \
                    c.expect(o, getf(v, z.path), path, 'the path of the sensor')
            if gp is not True or th is not True:
                if gp is None or th is None and gp is True:
                    return 'properties or thresholds are not queried' if made else None
                return 'a failed property query yields a sensor' if made else None
            if not made:
                return 'no sensor is created although everything was reachable'
            v = s.load(T('D', s.val))
            r = c.expect(o, getf(v, z.missing), FALSE, 'the missing mark of a present object') or \
                c.expect(o, getf(v, z.path), path, 'the path of the sensor') or \
                c.expect(o, getf(v, z.redundancy), argsym(5), 'the redundancy of the sensor') or \
                c.expect(o, getf(v, z.id), idn, 'the name of the sensor')
            if r:
                return r
            svc = [e for e in s.eff if e.op == 'e' and e.a[1] == 'getProperties']
            tha = [e for e in s.eff if e.op == 'e' and e.a[1] == 'thresholdsAsserted']
            if len(svc) != 1 or len(tha) != 1 or len(ini) != 1:
                return 'queries or initialisation do not happen exactly once (%d, %d, %d)' % (len(svc), len(tha), len(ini))
            sv = getter('getService', helper, VALUE_IF, path)
            for e in (svc[0], tha[0]):
                r = c.expect(o, e.a[3][0], sv, 'the service queried', e) or c.expect(o, e.a[3][1], path, 'the path queried', e)
                if r:
                    return r
            if ini[0].a[2] is not s.val:
                return ('another object is initialised', ini[0])
            props = T('out', 'getProperties', 2, svc[0].a[2], svc[0].a[3], 0)
            st = ini[0].a[3][0]
            base = st.a[0] if st.op == 'rec' else st
            if base.op == 'out':
                props = base
            zap = o(getf(info, 'ignoreDbusMinMax'))
            for k, w in (('min', ZERO if zap else getf(props, 'min')), ('max', ZERO if zap else getf(props, 'max')),
                         ('value', getf(props, 'value')), ('scale', getf(props, 'scale')), ('available', getf(props, 'available')),
                         ('unavailableAsFailed', getf(info, 'unavailableAsFailed'))):
                r = c.expect(o, getf(st, k), w, 'the initial %s' % k, ini[0])
                if r:
                    return r
            return c.expect(o, ini[0].a[3][1], T('res', 'thresholdsAsserted', tha[0].a[2], tha[0].a[3], 0),
                            'the initial threshold state', ini[0])
        c.judge('create', I_, ps, g)
        helper_rules(c, cfg)


def suffix_(n, s):
    return n == s or n.endswith('::' + s)


def helper_rules(c, cfg):
    # thresholds
    I_, ps = c.run('DbusHelper::thresholdsAsserted', cfg)

    def maps(s):
        out = {}
        for x in walk_state(s):
            if x.op == 'msgf':
                t = show(x)
                for k in ('Threshold.Critical', 'Threshold.Warning'):
                    if k in t:
                        out[k] = x
        return out

    atoms = okatoms(ps)
    crit = [a for a in atoms if 'Threshold.Critical' in show(a)]
    warn = [a for a in atoms if 'Threshold.Warning' in show(a)]

    def reach(o, l):
        for a in l:
            if not o(a):
                return False
        return True
    allm = {}
    for s in ps:
        allm.update(maps(s))
    bv = [x for s in ps for x in walk_state(s) if x.op == 'vget']
    bt = bv[0].a[0] if bv else C('bool')

    def f(o, s):
        if s.sig != 'ret':
            if 'variant' in show(s.val):
                return None
            return 'a failing threshold query escapes as %s' % show(s.val)
        if not crit:
            return 'the critical thresholds are not queried'
        got = False

        def alarm(mk, name):
            m = allm.get(mk)
            if m is None:
                raise Undecided('reply of %s' % mk)
            return o(has(m, C(name))) and o(T('vget', bt, getat(m, C(name))))
        if reach(o, crit):
            got = alarm('Threshold.Critical', 'CriticalAlarmLow') or alarm('Threshold.Critical', 'CriticalAlarmHigh')
        elif not option(cfg, 'unc'):
            return c.expect(o, s.val, FALSE, 'the threshold state without thresholds')
        if option(cfg, 'unc') and not got:
            if not warn:
                return 'the warning thresholds are not queried'
            if reach(o, warn):
                got = alarm('Threshold.Warning', 'WarningAlarmHigh')
        return c.expect(o, s.val, C(got), 'the threshold state')
    c.judge('thresholds', I_, ps, f)
    # properties
    I_, ps = c.run('DbusHelper::getProperties', cfg)
    out = T('D', argsym(2))

    def g(o, s):
        val = [a for a in s.facts.lits if a.op == 'ok' and 'Sensor.Value' in show(a)]
        good = all(s.facts.lits[a] for a in val)
        if s.sig == 'thr':
            if good and 'variant' not in show(s.val):
                return 'a failing availability query aborts the sensor'
            return None
        if not good:
            return 'a failed property query is not reported'
        ms = [x for x in walk_state(s) if x.op == 'msgf' and 'Sensor.Value' in show(x)]
        if not ms:
            return 'the properties of the sensor are not read'
        m = ms[0]
        st = s.load(out)

        def val_of(k):
            return [getat(m, C(k))]
        for fld_, key in (('value', 'Value'), ('max', 'MaxValue'), ('min', 'MinValue'), ('scale', 'Scale')):
            v = o.val(getf(st, fld_))
            if fld_ != 'value' and not o(has(m, C(key))):
                if not same(o, v, ZERO):
                    return 'the default of %s is %s' % (fld_, show(v))
                continue
            want = getat(m, C(key))
            if v.op in ('visit', 'vget', 'cast') and any(x is want for x in walk(v)):
                continue
            if any(x is want for x in walk(v)) and opaque(v):
                return ('undecided', fld_)
            if not o(has(m, C(key))):
                continue
            return '%s is set from %s' % (fld_, show(v)[:200])
        av = [a for a in s.facts.lits if a.op == 'ok' and 'Availability' in show(a)]
        if not av:
            return 'availability is not queried'
        a = getf(st, 'available')
        if all(s.facts.lits[x] for x in av):
            t = show(a)
            if 'Availability' not in t or '"Available"' not in t:
                return 'availability is set from %s' % t[:200]
            if a.op in ('not', 'lnot') or has_op(a, 'not'):
                return 'availability is inverted'
        else:
            return c.expect(o, a, TRUE, 'availability of a sensor without that property')
    c.judge('properties', I_, ps, g)
    I_, ps = c.run('DbusHelper::getService', cfg)

    def h(o, s):
        oks = [v for a, v in s.facts.lits.items() if a.op == 'ok']
        if s.sig == 'thr':
            if all(oks) and not any(a.op == 'isempty' and v for a, v in s.facts.lits.items()):
                return 'a known object is reported unreachable'
            return None
        if not all(oks):
            return 'a failed look-up yields the service %s' % show(s.val)[:100]
        m = [x for x in walk_state(s) if x.op == 'msgf']
        if not m:
            return 'the service does not come from the mapper'
        if o(isempty(m[0])):
            return 'an empty look-up yields a service'
        t = show(s.val)
        if not t.endswith('.first') or s.val.op not in ('sel', 'getf') and not t.startswith('front('):
            return ('undecided', 'the service is %s' % t[:200])
        cal = [e for e in s.eff if e.op == 'e' and e.a[1] == 'call']
        tt = show(cal[0]) if cal else ''
        if 'arg0' not in tt or 'arg1' not in tt or 'GetObject' not in tt:
            return 'the look-up does not ask for the interface and path given'
    c.judge('service', I_, ps, h)
