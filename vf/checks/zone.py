"""Zone state: failsafe list, setpoint arbitration, manual mode."""
from ..spec import *
from ..extract import Broken
from .roles import *


def nan_entry(o, v):
    return o.val(getf(v, 'scaled')) is NAN and o.val(getf(v, 'unscaled')) is NAN


def poll_rule(c, rule, cfg, fname, controle):
    """per-iteration rule of a sensor polling loop"""
    z = Zone(c, cfg)
    z.need('FS', 'MA', controle)
    I_, ps = c.run('DbusPidZone::' + fname, cfg)
    cont, FS = z.v(controle), z.l('FS')
    good = [s for s in ps if s.sig == 'ret']
    Ls = loops_over(I_, cont, FS)
    where = I_.f
    if not Ls:
        # maybe the result is there but through an unrecognised loop
        if any(s.load(FS) is not z.v('FS') for s in good):
            c.undec(rule, '%s: failsafe list updated by an unrecognised loop' % fname)
        else:
            c.viol(rule, where, '%s does not update the failsafe list for the polled sensors (%s)' % (fname, show(cont)))
        return

    def whole(o, s):
        v = o.val(s.load(FS))
        if v is z.v('FS'):
            return 'the failsafe list is left as it was although sensors were polled'
        if v.op in ('fold', 'mapl', 'comp', 'mcomp'):
            if v.a[0].op == 'dom' and v.a[0].a[1] is not cont:
                return 'the failsafe list is finally computed over %s' % show(v.a[0].a[1])
            if v.op == 'fold':
                init = [i for l, _, i in v.a[3] if l is FS]
                if init and init[0] is not z.v('FS'):
                    return ('undecided', 'failsafe list starts the loop as %s' % show(init[0])[:200])
                if len(v.a) > 4:
                    return 'polling stops before the last sensor'
            return None
        return ('undecided', show(v)[:200])
    c.judge(rule, I_, good, whole, fname)
    for L in Ls:
        el = T('el', L['dom'])
        for lits, x in L['exits']:
            if x.sig != 'thr':
                c.viol(rule, (L['file'], L['line'], L['fn']), '%s: polling stops before the remaining sensors were polled' % fname,
                       x.facts)
            else:
                at = x.val
                if not (at.op == 'exc' and 'out_of_range' in str(at.a[0])):
                    c.viol(rule, (L['file'], L['line'], L['fn']), '%s: polling is aborted by an exception %s' % (fname, show(at)[:200]),
                           x.facts)

        def it(o, s, L=L, el=el):
            before = L['entry'].load(FS)
            after = s.load(FS)
            rd_ = [e for e in s.eff if e.op == 'e' and e.a[1] == 'read']
            if len(rd_) != 1:
                return 'the sensor is read %d times in one iteration' % len(rd_)
            S = rd_[0].a[2]
            if not (S.op in ('at', 'get') and S.a[-1] in (el, (el,))):
                return ('the sensor that is read is %s, not the one named by the iterated entry' % show(S), rd_[0])
            failed = o(getter('getFailed', S))
            to = sensor_timeout(c, cfg, S)
            upds = [x for x in allread(s) if x.op == 'res' and x.a[0] == 'read' and x.a[1] is S]
            r = T('res', 'read', S, rd_[0].a[3], 0)
            nows = {x for t in list(s.facts.lits) for x in walk(t) if x.op == 'now'} or {T('now', 0)}
            if len(nows) > 1:
                return ('undecided', 'several clock readings are compared')
            now = nows.pop()
            bad = failed
            if not bad:
                if not o(eq(to, ZERO)):
                    bad = not o(lt(sub(now, getf(r, 'updated')), to))
            h0, h1 = has(before, el), has(after, el)
            if bad:
                if o(has(z.v('MA'), el)):
                    if o(h1) and not o(h0):
                        return 'a missing-acceptable sensor is put on the failsafe list'
                elif not o(h1):
                    return 'a %s sensor is not on the failsafe list after being polled' % ('failed' if failed else 'timed out')
            elif o(h1):
                return 'a healthy sensor stays on the failsafe list'
            k = T('sym', 'k*')
            other = lnot(eq(k, el))
            if o(other):
                if o(has(after, k)) != o(has(before, k)):
                    return 'polling one sensor changes the failsafe entry of another'
            # the cache holds exactly what was read
            cb, ca = L['entry'].load(z.l('CACHE')), s.load(z.l('CACHE'))
            for f, g in (('scaled', 'value'), ('unscaled', 'unscaled')):
                if not same(o, getf(getat(ca, el), f), getf(r, g)):
                    return 'the cached %s value of the sensor is %s, not the value just read' % (f, show(o.val(getf(getat(ca, el), f)))[:200])
            return None
        c.judge_loop(rule, I_, L, it, '%s: %s' % (fname, show(cont)))


def allread(s):
    for t in allterms(s):
        yield from walk(t)


_to = {}


def sensor_timeout(c, cfg, S):
    k = (cfg, S)
    if k not in _to:
        I_, ps = c.run('Sensor::getTimeout', cfg, this=mkD(S))
        s = one_ret(ps)
        _to[k] = s.val if s else getter('getTimeout', S)
    return _to[k]


def fs_writers(c, rule, cfg):
    """only start-up and polling change the failsafe list"""
    z = Zone(c, cfg)
    P = c.P(cfg)
    cal = callers(P)
    roots = {'updateSensors', 'updateFanTelemetry', 'initializeCache'}
    mod = {}
    for f in P.fns.values():
        if (f.get('cls') or '').endswith('::DbusPidZone') and f.get('body') and f['kind'] not in ('ctor', 'dtor'):
            I_, ps = c.run(f, cfg)
            if any(s.load(z.l('FS')) is not z.v('FS') for s in ps):
                mod[f['key']] = f

    def okfn(k, seen):
        f = P.fns[k]
        if f['n'].split('::')[-1] in roots:
            return True
        if k in seen:
            return True
        cs = cal.get(k, set())
        return bool(cs) and all((P.fns[x].get('cls') or '').endswith('::DbusPidZone') and okfn(x, seen | {k}) for x in cs)
    for k, f in mod.items():
        c.sites += 1
        if okfn(k, set()):
            c.ok(rule, '%s changes the failsafe list only on behalf of start-up or polling' % f['n'])
        else:
            c.viol(rule, f, '%s changes the failsafe list outside start-up and polling' % f['n'])


@check('C02')
def c02(c):
    for cfg in (0, 1):
        poll_rule(c, 'poll', cfg, 'updateSensors', 'TH')
        poll_rule(c, 'poll', cfg, 'updateFanTelemetry', 'FAN')
    z = Zone(c, 0)
    for fn in ('getFailSafeMode', 'failSafe'):
        I_, ps = c.run('DbusPidZone::' + fn)
        c.judge('mode', I_, ps, lambda o, s: c.expect(o, s.val, lnot(isempty(z.v('FS'))), fn + '()'))
    fs_writers(c, 'writers', 0)
    c.include('C03', 'register')


@check('C03')
def c03(c):
    z = Zone(c, 0)
    z.need('FS', 'MA', 'CACHE', 'FAN', 'TH')
    I_, ps = c.run('DbusPidZone::initializeCache')
    FS, CA = z.l('FS'), z.l('CACHE')
    for s in ps:
        if s.sig != 'ret':
            c.viol('init', I_.f, 'initializeCache can fail with %s' % show(s.val), s.facts)
    for role in ('FAN', 'TH'):
        cont = z.v(role)
        for loc, nm in ((FS, 'failsafe list'), (CA, 'cache')):
            Ls = loops_over(I_, cont, loc)
            if not Ls:
                c.viol('init', I_.f, 'initializeCache leaves the %s untouched for the inputs in %s' % (nm, show(cont)))
            for L in Ls:
                for _, x in L['exits']:
                    c.viol('init', (L['file'], L['line'], L['fn']), 'initialisation stops before the last input', x.facts)
                el = T('el', L['dom'])

                def it(o, s):
                    if loc is FS:
                        b, a = L['entry'].load(FS), s.load(FS)
                        if o(has(z.v('MA'), el)):
                            if o(has(a, el)) and not o(has(b, el)):
                                return 'a missing-acceptable input starts on the failsafe list'
                        elif not o(has(a, el)):
                            return 'an input is not put on the failsafe list at start-up'
                        k = T('sym', 'k*')
                        if not o(eq(k, el)) and o(has(b, k)) and not o(has(a, k)):
                            return 'initialising one input takes another one off the failsafe list'
                    else:
                        a = s.load(CA)
                        if not o(has(a, el)):
                            return 'an input gets no cache entry at start-up'
                        if not nan_entry(o, getat(a, el)):
                            return 'the initial cache entry of an input is %s, not not-a-number' % show(o.val(getat(a, el)))
                c.judge_loop('init', I_, L, it, 'initializeCache %s over %s' % (nm, show(cont)))
    # an input registered with its flag
    for fn, role in (('addFanInput', 'FAN'), ('addThermalInput', 'TH')):
        I_, ps = c.run('DbusPidZone::' + fn)

        def reg(o, s):
            a = s.load(z.l(role))
            if not o(has(a, argsym(0))):
                return 'the input is not recorded'
            h1, h0 = o(has(s.load(z.l('MA')), argsym(0))), o(has(z.v('MA'), argsym(0)))
            if h1 != (h0 or o(argsym(1))):
                return 'the missing-acceptable flag is recorded wrongly'
            for k in changed(s):
                if k not in (getattr(z, role), z.MA):
                    return '%s is changed' % k
            v = o.val(a)
            if v is not z.v(role) and not (v.op == 'push' and v.a[0] is z.v(role)):
                return 'the list of inputs becomes %s' % show(v)
        c.judge('register', I_, ps, reg)
    # builder registers every input of every controller
    from .builder import registered_inputs
    registered_inputs(c, 'register-all')
    # nothing runs before the initialisation
    from .loop import first_init
    first_init(c, 'init-first')


@check('C04')
def c04(c):
    z = Zone(c, 0)
    z.need('FS', 'MA', 'ZFSP', 'SFSP')
    I_, ps = c.run('DbusPidZone::getFailSafePercent')
    fs, zf = z.v('FS'), z.v('ZFSP')
    d = dom(fs, 'map')
    val = getf(getf(T('el', d), 'second'), 'second')

    def mx(t):
        """t denotes the largest recorded duty"""
        if t.op in ('ext', 'red') and t.a[1] == 'max' and t.a[0].a[1] is fs and t.a[2] is TRUE and \
                el_subst(t.a[3], t.a[0], T('sym', 'e*')) is el_subst(val, d, T('sym', 'e*')):
            # counted from 0 or from one of the recorded duties
            return t.op == 'ext' or (len(t.a) > 4 and t.a[5] is FALSE and
                                     (t.a[4] is ZERO or t.a[4] is getf(getf(T('front', fs), 'second'), 'second')))
        if t.op == 'sel' and t.a[1] == 'second' and t.a[0].op == 'sel' and t.a[0].a[1] == 'second' and t.a[0].a[0].op == 'arg':
            a = t.a[0].a[0]
            return a.a[0].a[1] is fs and a.a[1] == 'max' and a.a[2] is TRUE and \
                el_subst(a.a[3], a.a[0], T('sym', 'e*')) is el_subst(val, d, T('sym', 'e*'))
        return False

    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        e = o(isempty(fs))
        v = o.val(s.val)
        if e:
            return c.expect(o, v, zf, 'failsafe duty with no failing sensor')
        if mx(v):
            # the zero case must already be excluded on this path
            if o.facts.decide(eq(v, ZERO)) is False or o.facts.decide(T('gt', v, 0)) is True:
                return None
            return 'a zero maximum duty is returned instead of the zone duty'
        if v is zf:
            for a, b in o.facts.lits.items():
                if b and a.op == 'eqk' and mx(a.a[0]) and a.a[1] == 0:
                    return None
                if not b and a.op == 'gt' and mx(a.a[0]) and a.a[1] == 0:
                    return None
            return 'the zone duty is returned although a failing sensor has a larger recorded duty'
        if opaque(v):
            return ('undecided', show(v)[:200])
        return 'the failsafe duty is %s, required the largest duty of the sensors on the failsafe list' % show(v)[:300]
    c.judge('maximum', I_, ps, f)
    # the duty recorded with a failing sensor
    I_, ps = c.run('DbusPidZone::markSensorMissing')
    nm = argsym(0)

    def g(o, s):
        b, a = z.v('FS'), s.load(z.l('FS'))
        if o(has(z.v('MA'), nm)):
            return None
        if not o(has(a, nm)):
            return 'a missing sensor is not recorded'
        sf = z.v('SFSP')
        own = getat(sf, nm) if o(has(sf, nm)) else ZERO
        want = zf if o(eq(own, ZERO)) else own
        r = c.expect(o, getf(getf(getat(a, nm), 'second'), '') if False else getf(getat(a, nm), 'second'), want,
                     'the duty recorded for a failing sensor')
        if r:
            return r
        return c.expect(o, getf(getat(a, nm), 'first'), argsym(1), 'the reason recorded for a failing sensor')
    c.judge('recorded', I_, ps, g)
    # the same when polling records them
    for cfg, fn, role in ((0, 'updateSensors', 'TH'), (0, 'updateFanTelemetry', 'FAN'), (0, 'initializeCache', 'TH'), (0, 'initializeCache', 'FAN')):
        I_, ps = c.run('DbusPidZone::' + fn, cfg)
        for L in loops_over(I_, z.v(role), z.l('FS')):
            el = T('el', L['dom'])

            def it(o, s):
                b, a = L['entry'].load(z.l('FS')), s.load(z.l('FS'))
                if not o(has(a, el)) or same(o, getat(a, el), getat(b, el)):
                    return None
                sf = L['entry'].load(z.l('SFSP'))
                own = getat(sf, el) if o(has(sf, el)) else ZERO
                want = zf if o(eq(own, ZERO)) else own
                return c.expect(o, getf(getat(a, el), 'second'), want, 'the duty recorded for a failing sensor')
            c.judge_loop('recorded', I_, L, it, '%s %s' % (fn, role))
    # several controllers configure a duty for one sensor: the largest wins
    I_, ps = c.run('DbusPidZone::addPidFailSafePercent')
    SF = z.l('SFSP')
    Ls = loops_over(I_, argsym(0), SF)
    if not Ls:
        if any(s.load(SF) is not z.v('SFSP') for s in ps):
            c.undec('configured', 'addPidFailSafePercent uses an unrecognised loop')
        else:
            c.viol('configured', I_.f, 'the per-sensor failsafe duty is not recorded for the inputs')
    for L in Ls:
        el = T('el', L['dom'])
        for _, x in L['exits']:
            c.viol('configured', I_.f, 'recording stops before the last input', x.facts)

        def it(o, s):
            b, a = L['entry'].load(SF), s.load(SF)
            if o(has(b, el)):
                old = getat(b, el)
                want = argsym(1) if o(lt(old, argsym(1))) else old
            else:
                want = argsym(1)
            if not o(has(a, el)):
                return 'no duty is recorded for the input'
            v = o.val(getat(a, el))
            if not o.facts.decide(eq(v, want)) and not same(o, v, want):
                return c.expect(o, v, want, 'the duty configured for an input')
            k = T('sym', 'k*')
            if not o(eq(k, el)) and (o(has(a, k)) != o(has(b, k)) or not same(o, getat(a, k), getat(b, k))):
                return 'the duty of another sensor changes'
        c.judge_loop('configured', I_, L, it)
    c.include('C25', 'controller-complete')


def acc_profile(name):
    """the text after the first underscore"""
    return name


@check('C05')
def c05(c):
    z = Zone(c, 0)
    z.need('MAX', 'SPS', 'ACC', 'MIN', 'CEIL', 'PROC', 'TH')
    MAX, SPS = z.l('MAX'), z.l('SPS')
    sp, nm = argsym(0), argsym(1)
    I_, ps = c.run('DbusPidZone::addSetPoint')
    prof = substr(nm, add(C(1), T('strfind', nm, C('_'))))

    def addsp(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        en = getter('enabled', getat(z.v('PROC'), nm))
        a, m = s.load(SPS), s.load(MAX)
        if not o(en):
            k = samemap(o, a, lambda k: (has(z.v('SPS'), k), getat(z.v('SPS'), k)))
            if k is not None or not same(o, m, z.v('MAX')):
                return 'a disabled control process changes the setpoint request'
            return None
        acc = o(z.v('ACC'))
        key = prof if acc else nm
        h = o(has(z.v('SPS'), key))
        old = getat(z.v('SPS'), key) if h else ZERO
        if acc:
            want = add(old, sp)
        else:
            want = sp if o(lt(old, sp)) else old
        got = getat(a, key) if o(has(a, key)) else ZERO
        r = c.expect(o, got, want, 'the contribution recorded for the %s' % ('profile' if acc else 'controller'))
        if r:
            if acc and not has_prof(a, nm):
                return r
            return r
        k = T('sym', 'k*')
        if not o(eq(k, key)) and (o(has(a, k)) != o(has(z.v('SPS'), k)) or (o(has(a, k)) and not same(o, getat(a, k), getat(z.v('SPS'), k)))):
            return 'the contribution recorded for another %s changes' % ('profile' if acc else 'controller')
        wm = want if o(lt(z.v('MAX'), want)) else z.v('MAX')
        return c.expect(o, m, wm, 'the running maximum')
    c.judge('contribution', I_, ps, addsp)
    for fn, ch in (('clearSetPoints', {z.SPS: 'empty', z.MAX: ZERO}), ('clearRPMCeilings', {z.CEIL: 'empty'})):
        I_, ps = c.run('DbusPidZone::' + fn)

        def clr(o, s):
            for k, w in ch.items():
                v = o.val(s.load(tl(k)))
                if opaque(v):
                    return ('undecided', show(v)[:80])
                if w == 'empty' and k == z.SPS and v.op == 'mapl' and v.a[0].a[1] is z.v('SPS') and getf(v.a[1], 'second') is ZERO:
                    continue          # a zero stands for no contribution (an entry starts as 0)
                if (w == 'empty' and v.op != 'empty') or (w is ZERO and v is not ZERO):
                    return '%s leaves %s = %s' % (fn, k, show(v))
        c.judge('cleared', I_, ps, clr)
    I_, ps = c.run('DbusPidZone::addRPMCeiling')
    c.judge('ceiling', I_, ps, lambda o, s: c.expect(o, s.load(z.l('CEIL')), T('push', z.v('CEIL'), argsym(0)), 'the ceilings'))
    for fn, role in (('getMaxSetPointRequest', 'MAX'), ('getMinThermalSetPoint', 'MIN'), ('getAccSetPoint', 'ACC')):
        I_, ps = c.run('DbusPidZone::' + fn)
        c.judge('getter', I_, ps, lambda o, s: c.expect(o, s.val, z.v(role), fn + '()'))
    I_, ps = c.run('DbusPidZone::isPidProcessEnabled')
    c.judge('getter', I_, ps, lambda o, s: c.expect(o, s.val, getter('enabled', getat(z.v('PROC'), argsym(0))), 'isPidProcessEnabled()'))
    # arbitration
    I_, ps = c.run('DbusPidZone::determineMaxSetPointRequest')
    G_ = G(c.P(0), 'tuningEnabled')
    tun = rd(G_) if G_ is not None else FALSE
    ce = z.v('CEIL')

    def arb(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        if o(tun):
            return None          # the tuning files may override the request
        m = o.val(s.load(MAX))
        e = o(isempty(ce))
        M0 = z.v('MAX')
        lo = None
        if not e:
            lo = lowest(s, ce)
            if lo is None:
                if opaque(m):
                    return ('undecided', 'ceiling expressed as %s' % show(m)[:200])
                return 'the smallest ceiling is not taken into account'
        v = M0
        if lo is not None and o(lt(lo, M0)):
            v = lo
        mn = z.v('MIN')
        want = v if o(lt(mn, v)) else mn
        return c.expect(o, m, want, 'the setpoint request')
    c.judge('arbitration', I_, ps, arb)
    # what is contributed, and the pass it belongs to
    c.include('C13', 'contribution')
    c.include('C15', 'hysteresis')
    c.include('C06', 'first', 'cycle')


def lowest(s, ce):
    """the least of the ceilings ce, however it is computed in s"""
    def from_first(t):
        # counted from the first
        d, _, g, v, init, until = t.a
        if g is not TRUE or until is not FALSE or init is not T('front', ce) and init is not getat(ce, ZERO):
            return False
        if d.a[1] is ce:
            return v is T('el', d)
        r = d.a[1]
        return d.a[0] == 'range' and r.op == 'rng' and r.a[0] in (ZERO, C(1)) and r.a[1] is size(ce) and \
            v is getat(ce, T('el', d))
    ts = list(allread(s))
    lo = [t for t in ts if t.op == 'ext' and t.a[1] == 'min' and t.a[0].a[1] is ce and t.a[2] is TRUE and t.a[3] is T('el', t.a[0])] or \
         [t for t in ts if t.op == 'arg' and t.a[1] == 'min' and t.a[0].a[1] is ce and t.a[2] is TRUE] or \
         [t for t in ts if t.op == 'red' and t.a[1] == 'min' and from_first(t)]
    return lo[0] if lo else None


def has_prof(a, nm):
    return True


@check('C08')
def c08(c):
    z = Zone(c, 0)
    z.need('MAN', 'RED', 'FS')
    for fn in ('setManualMode', 'manual'):
        I_, ps = c.run('DbusPidZone::' + fn, 0)

        def f(o, s):
            m = o(argsym(0))
            r = c.expect(o, s.load(z.l('MAN')), C(m), 'manual mode')
            if r:
                return r
            if m:
                w = o.val(s.load(z.l('RED')))
                if w is not z.v('RED') and o(w) != o(z.v('RED')):
                    return 'entering manual mode changes the redundant-write request'
                return None
            if not o(z.v('MAN')) and o.val(s.load(z.l('RED'))) is z.v('RED'):
                return None           # there was no manual mode to leave
            r = c.expect(o, s.load(z.l('RED')), TRUE, 'the redundant-write request after leaving manual mode')
            if r:
                return r
        c.judge('mode', I_, ps, f)
        if fn == 'manual':
            def g(o, s):
                es = [e for e in s.eff if e.op == 'e' and e.a[1] == 'manual']
                if len(es) != 1 or not same(o, es[0].a[3][0], argsym(0)):
                    return 'the bus property is not set to the requested mode exactly once'
            c.judge('property', I_, ps, g)
    for fn, v in (('getManualMode', z.v('MAN')), ('getRedundantWrite', z.v('RED')), ('failSafe', lnot(isempty(z.v('FS'))))):
        I_, ps = c.run('DbusPidZone::' + fn)
        c.judge('getter', I_, ps, lambda o, s: c.expect(o, s.val, v, fn + '()'))
    # the force is dropped exactly after all fan controllers ran once
    I_, ps = c.run('DbusPidZone::processFans', 0, opaque={'process'})
    RED = z.l('RED')

    def pf(o, s):
        fe = [e for e in s.eff if e.op == 'foreach']
        if s.sig != 'ret':
            return None
        if not o(isempty(z.v('FANS'))):
            ok = [e for e in fe if e.a[0].a[1] is z.v('FANS') and len(e.a) == 2]
            if not ok:
                return 'the fan controllers are not all run'
        v = o.val(s.load(RED))
        return c.expect(o, v, FALSE, 'the redundant-write request after all fans were processed')
    c.judge('dropped', I_, ps, pf)
    for L in loops_over(I_, z.v('FANS')):
        if touches(L['M'], RED):
            def it(o, s):
                b, a = L['entry'].load(RED), s.load(RED)
                if o(b) and not o(a):
                    return 'the redundant-write request is dropped before all fan controllers have run'
            c.judge_loop('dropped', I_, L, it)
        for _, x in L['exits']:
            if x.sig != 'thr':
                c.viol('dropped', (L['file'], L['line'], L['fn']), 'not all fan controllers run', x.facts)
    # who writes the flags
    P = c.P(0)
    allow = {'RED': {'setManualMode', 'manual', 'processFans'}, 'MAN': {'setManualMode', 'manual'}}
    cal = callers(P)
    for f in P.fns.values():
        if not (f.get('cls') or '').endswith('::DbusPidZone') or not f.get('body') or f['kind'] in ('ctor', 'dtor'):
            continue
        I_, ps = c.run(f)
        for role, ok in allow.items():
            if any(s.load(z.l(role)) is not z.v(role) for s in ps):
                c.sites += 1

                def okfn(k, seen):
                    n = P.fns[k]['n'].split('::')[-1]
                    if n in ok:
                        return True
                    cs = cal.get(k, set())
                    return k in seen or bool(cs) and all(okfn(x, seen | {k}) for x in cs)
                if okfn(f['key'], set()):
                    c.ok('writers', '%s changes %s' % (f['n'], getattr(z, role)))
                else:
                    c.viol('writers', f, '%s changes %s' % (f['n'], getattr(z, role)))
    from .loop import manual_hands_off
    manual_hands_off(c, 'hands-off')
    # the force reaches the hardware
    c.include('C01', 'duty')
    c.include('C33', 'D-Bus writers skip, remember and report truthfully')
    c.include('C35', 'wrapped sensors forward unchanged')
