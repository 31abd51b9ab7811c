"""Reader/writer selection, fan writers, host-off suppression, forwarding wrappers."""
from ..spec import *
from ..extract import Broken
from .roles import *


def objrec(s, p):
    """contents of the object created at p"""
    return s.store.get(T('D', p), T('rd', T('D', p)))


def cls_of(v):
    return v.a[0].split('::')[-1] if v.op == 'new' else None


def nocast(t):
    """t without moves and conversions to a 64-bit integer"""
    while isinstance(t, T) and (t.op == 'move' or t.op == 'icast' and 'long' in t.a[0]) and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def only(o, s, name):
    return [e for e in s.eff if e.op == 'e' and e.a[0] in ('call', 'dbus') and e.a[1].split('::')[-1] == name]


def argfield(v, want):
    """does value v (a reference argument) denote want?"""
    return v is want or v.op == 'addr' and v.a[0].op == 'val' and v.a[0].a[0] is want


class Base:
    """members of Sensor/PluggableSensor/WriteInterface through their interface"""

    def __init__(self, c):
        self.name = ret_field(c, 'Sensor::getName') or '_name'
        self.timeout = ret_field(c, 'Sensor::getTimeout') or '_timeout'
        self.ign = ret_field(c, 'Sensor::getIgnoreFailIfHostOff') or '_ignoreFailIfHostOff'
        self.min = ret_field(c, 'WriteInterface::getMin') or '_min'
        self.max = ret_field(c, 'WriteInterface::getMax') or '_max'
        self.reader, self.writer = '_reader', '_writer'
        for f, op, a in (('PluggableSensor::read', 'read', 'reader'), ('PluggableSensor::write', 'write', 'writer')):
            I_, ps = c.run(f)
            for s in ps:
                for x in s.eff:
                    if x.op == 'e' and x.a[1] == op and field_of(x.a[2]):
                        setattr(self, a, field_of(x.a[2]))
        I_, ps = c.run('SysFsRead::read', keep_log=True)
        self.rpath = '_path'
        for s in ps:
            for x in s.eff:
                if x.op == 'e' and x.a[1] == 'open' and field_of(x.a[3][0]):
                    self.rpath = field_of(x.a[3][0])


def has_(p, lit):
    return T('contains', p, C(lit))


def rkind(o, p):
    if o(isempty(p)) or o(eq(p, C('None'))):
        return 'none'
    if o(has_(p, '/xyz/openbmc_project/extsensors/')):
        return 'external'
    if o(has_(p, '/xyz/openbmc_project/')):
        return 'dbus'
    if o(has_(p, '/sys/')):
        return 'sysfs'
    return 'none'


def wkind(o, p):
    if o(isempty(p)) or o(eq(p, C('None'))):
        return 'none'
    if o(has_(p, '/sys/')):
        return 'sysfs'
    if o(has_(p, '/xyz/openbmc_project/')):
        return 'dbus'
    return 'none'


def fixed(o, got, path):
    """got is path with its wildcard (if any) resolved"""
    if o(has_(path, '**')):
        return any(t is path for t in walk(got))
    return o.val(got) is path


THERM = ('temp', 'margin', 'power', 'powersum')


def host_bus_param(c):
    """index of the parameter of buildSensors on which host sensors are published"""
    I_, ps = c.run('buildSensors', opaque={'createDbusPassive', 'getService', 'addSensor'}, throws={'getService'})
    out = set()
    for L in I_.loops:
        for _, s in L['norm']:
            for x in s.eff:
                for e in leaf_effs(x):
                    if e.op == 'e' and e.a[0] == 'make' and e.a[1].split('::')[-1] == 'HostSensor':
                        out |= {i for i in range(1, len(I_.f['params'])) if argsym(i) in e.a[3]}
    return out


@check('C21')
def c21(c):
    B = Base(c)
    I_, ps = c.run('buildSensors', opaque={'createDbusPassive', 'getService', 'addSensor'}, throws={'getService'})
    Ls = [L for L in I_.loops if L['dom'] is not None and L['dom'].a[1] is argsym(0)]
    if not Ls:
        raise Broken('buildSensors: no loop over the configuration')
    L = Ls[-1]
    el = T('el', L['dom'])
    name, info = getf(el, 'first'), getf(el, 'second')
    ty, rp, wp = (getf(info, k) for k in ('type', 'readPath', 'writePath'))

    def f(o, s):
        fan = o(eq(ty, C('fan')))
        therm = not fan and any([o(eq(ty, C(x))) for x in THERM])
        adds = only(o, s, 'addSensor')
        if not fan and not therm:
            return ('a sensor of unknown type is registered', adds[0]) if adds else None
        if len(adds) != 1:
            return 'the sensor is registered %d times' % len(adds)
        a = [o.val(x) for x in adds[0].a[3]]
        if len(a) != 3:
            raise Undecided('addSensor arguments')
        for got, want, n in ((a[0], ty, 'type'), (a[1], name, 'name')):
            r = c.expect(o, got, want, 'the registered ' + n, adds[0])
            if r:
                return r
        cl = cls_of(a[2])
        if cl is None:
            raise Undecided('registered object %s' % show(a[2])[:120])
        ob = objrec(s, a[2])
        for k, want, n in ((B.name, name, 'name'), (B.timeout, getf(info, 'timeout'), 'timeout'),
                           (B.ign, getf(info, 'ignoreFailIfHostOff'), 'host-off setting')):
            r = c.expect(o, getf(ob, k), want, 'the %s of the %s' % (n, cl), adds[0])
            if r:
                return r
        rk = rkind(o, rp)
        if rk == 'external':
            if fan:
                return ('a fan with an external read path is registered without a usable reader', adds[0])
            mk = [e for e in s.eff if e.a[0] == 'make' and e.a[2] is a[2]]
            if cl != 'HostSensor':
                return ('an external sensor becomes a %s' % cl, adds[0])
            if not mk or not any(x is rp for x in mk[0].a[3]):
                return ('the host sensor is not created at its configured path', adds[0])
            return None
        if cl != 'PluggableSensor':
            return ('a %s sensor becomes a %s' % (rk, cl), adds[0])
        r, w = o.val(getf(ob, B.reader)), o.val(getf(ob, B.writer))
        for x, n in ((r, 'reader'), (w, 'writer')):
            if x is NULL or x.op == 'res' and o(isnull(x)):
                return ('the sensor is registered without a %s' % n, adds[0])
        if rk == 'dbus':
            if r.op != 'res' or r.a[0].split('::')[-1] != 'createDbusPassive':
                return ('a D-Bus read path gets reader %s' % show(r)[:80], adds[0])
            ra = [o.val(x) for x in r.a[2]]
            if len(ra) == 6:
                if ra[1] is not ty or ra[2] is not name:
                    return ('the D-Bus reader is created for %s/%s' % (show(ra[1])[:60], show(ra[2])[:60]), adds[0])
                if not any(x is info for x in walk(ra[4])):
                    return ('the D-Bus reader is given settings of another sensor', adds[0])
                if fan == (ra[5] is NULL):
                    return ('fan redundancy is %s for a %s' % (show(ra[5]), 'fan' if fan else 'non-fan sensor'), adds[0])
        elif rk == 'sysfs':
            if cls_of(r) != 'SysFsRead':
                return ('a sysfs read path gets reader %s' % (cls_of(r) or show(r)[:60]), adds[0])
            if not fixed(o, getf(objrec(s, r), B.rpath), rp):
                return ('the sysfs reader reads %s' % show(getf(objrec(s, r), B.rpath))[:100], adds[0])
        elif cls_of(r) not in ('WriteOnly',):
            return ('an absent or unknown read path gets reader %s' % (cls_of(r) or show(r)[:60]), adds[0])
        wk = wkind(o, wp) if fan else 'none'
        pct = fan and wk != 'none' and o(lt(ZERO, getf(info, 'max')))
        want = {'none': 'ReadOnlyNoExcept', 'sysfs': 'SysFsWritePercent' if pct else 'SysFsWrite',
                'dbus': 'DbusWritePercent' if pct else 'DbusWrite'}[wk]
        if cls_of(w) != want:
            return ('a %s with %s write path%s gets writer %s, required %s' % (
                'fan' if fan else 'sensor', wk, ' and positive maximum' if pct else '', cls_of(w) or show(w)[:60], want),
                adds[0])
        if wk != 'none':
            wr = objrec(s, w)
            for k, x, n in ((B.min, 'min', 'minimum'), (B.max, 'max', 'maximum')):
                r = c.expect(o, getf(wr, k), getf(info, x), 'the writer\'s ' + n, adds[0])
                if r:
                    return r
            fs = [v for k, v in (wr.a[1] if wr.op == 'rec' else ()) if k not in (B.min, B.max)]
            if wk == 'dbus' and not any(o.val(v) is wp for v in fs) or \
                    wk == 'sysfs' and not any(fixed(o, v, wp) for v in fs):
                return ('the writer does not target the configured write path', adds[0])
            if wk == 'dbus' and not any(v.op in ('get', 'res') and v.a[0].split('::')[-1] == 'getService' and
                                        any(x is wp for x in v.a[2]) for v in fs):
                return ('the D-Bus writer does not talk to the service that owns its path', adds[0])
        return None
    c.judge_loop('one complete sensor per configured entry', I_, L, f)

    def early(o, s):
        if s.sig != 'thr':
            return 'the build is abandoned silently'
        return None
    c.judge('an unbuildable sensor fails the build', I_, [s for _, s in L['exits']], early)

    # the connection that carries the published name carries the host sensors
    c.include('C30', 'daemon-names')
    # the pieces: registry and D-Bus writer factories
    I_, ps = c.run('SensorManager::addSensor')

    def reg(o, s):
        if s.sig != 'ret':
            return 'registration fails'
        ch = changed(s)
        for k, v in ch.items():
            if v.op == 'upd' and v.a[2] is argsym(2):
                if v.a[1] is not argsym(1):
                    return 'the sensor is stored under %s' % show(v.a[1])
                return None
        return 'the sensor is not stored'
    c.judge('sensors are stored under their name', I_, ps, reg)
    I_, ps = c.run('SensorManager::getSensor')

    def get(o, s):
        if s.sig == 'ret' and not any(t.op in ('at', 'get') and any(x is argsym(0) for x in walk(t)) for t in walk(s.val)):
            return 'lookup returns %s' % show(s.val)
        return None
    c.judge('sensors are found under their name', I_, ps, get)
    for w in ('DbusWritePercent', 'DbusWrite'):
        I_, ps = c.run(w + '::createDbusWrite', opaque={'getService'}, throws={'getService'})

        def fac(o, s, w=w):
            oks = [t for t in s.facts.lits if t.op == 'ok']
            if s.sig != 'ret':
                return 'a failing service lookup escapes'
            v = o.val(s.val)
            if any(s.facts.lits[t] is False for t in oks):
                return None if v is NULL else 'a writer is built although its service is unknown'
            if cls_of(v) != w:
                return 'builds %s' % show(v)[:80]
            return None
        c.judge('a D-Bus writer exists only if its service does', I_, ps, fac)


# ---------------------------------------------------------------- writers
def ivalue(c, percent, mn, mx, x):
    v = x
    if percent:
        v = add(mn, mul(add(mx, neg(mn)), x))
    return v


def isint(t, v):
    """t is v truncated to an integer"""
    t = nocast(t)
    return t.op in ('int', 'trunc') and t.a[0] is v


@check('C33')
def c33(c):
    B = Base(c)
    P = c.P()
    for cls, pct in (('SysFsWritePercent', True), ('SysFsWrite', False)):
        I_, ps = c.run(cls + '::write', keep_log=True)
        m, init, f = ctor_fields(c, '%s::%s' % (cls, cls))
        want = ivalue(c, pct, tf(B.min), tf(B.max), argsym(0))

        def f(o, s):
            if s.sig != 'ret':
                return 'fails'
            op = [e for e in s.eff if e.a[1] == 'open']
            out = [e for e in s.eff if e.a[0] == 'out']
            ctor = [e for e in s.eff if e.a[0] == 'make' and 'ofstream' in e.a[1]]
            if len(out) != 1 or len(out[0].a[3]) != 1:
                return 'writes %d values' % len(out)
            src = [field_of(e.a[3][0]) for e in op + ctor if e.a[3]]
            if not src or src[0] is None or src[0] in (B.min, B.max):
                raise Undecided('target of the write')
            for e in op + ctor:
                for a in e.a[3][1:]:
                    if a.op == 'c' and a.a[0] == 'i' and int(a.a[1]) & 1:
                        return ('the value is appended to what the target already holds', e)
            v = o.val(out[0].a[3][0])
            if not isint(v, want):
                r = c.expect(o, v, T('int', want), 'the value written', out[0])
                return r
            if s.eff.index(op[0]) > s.eff.index(out[0]):
                return 'written before the file is open'
            return None
        c.judge('sysfs writers scale and write', I_, ps, f, cls)
    # wildcard paths
    I_, ps = c.run('FixupPath')

    def fx(o, s):
        if s.sig != 'ret':
            return None
        if not o(has_(argsym(0), '**')):
            return c.expect(o, s.val, argsym(0), 'a path without wildcard')
        if not any(x is argsym(0) for x in walk(o.val(s.val))):
            return 'a wildcard path is replaced by something unrelated'
        return None
    c.judge('plain paths are used as configured', I_, ps, fx)

    for cls, pct in (('DbusWritePercent', True), ('DbusWrite', False)):
        f3 = P.fn(cls + '::write', n=3)
        m, init, _f = ctor_fields(c, '%s::%s' % (cls, cls))
        mem = [k for k, v in init.items() if v.op == 'c' and k not in (B.min, B.max)]
        if len(mem) != 1:
            raise Broken('%s: remembered value not recognised' % cls)
        OLD = mem[0]
        old = tf(OLD)
        raw = ivalue(c, pct, tf(B.min), tf(B.max), argsym(0))
        want = T('int', raw)
        I_, ps = c.run(f3)
        W = T('D', argsym(2))

        def f(o, s):
            if s.sig != 'ret':
                return 'a failing write escapes'
            sent = [e for e in s.eff if e.a[0] == 'dbus' and e.a[1].startswith('call')]
            tried = sent or [t for t in s.facts.lits if t.op == 'ok' and t.a[0].a[0].startswith('call')]
            good = len(sent) == 1
            samev = o(eq(old, want))
            force = o(argsym(1))
            skip = samev and not force
            nn = not o(isnull(argsym(2)))
            got_old = getf(s.store.get(THIS, T('rd', THIS)), OLD)
            out = s.store.get(W, T('rd', W))
            if skip:
                if tried:
                    return 'an unchanged value is written again without force'
                r = c.expect(o, got_old, old, 'the remembered value after a skipped write')
                return r or (nn and c.expect(o, out, old, 'the value reported after a skipped write')) or None
            if not tried:
                return 'the write is skipped although %s' % ('it is forced' if force else 'the value changed')
            if len(sent) > 1:
                return ('the value is written %d times' % len(sent), sent[1])
            if sent and sent[0].a[1].startswith('call_noreply'):
                return ('the reply is not awaited, so a rejected write counts as written', sent[0])
            call = tried[0].a[3][0] if tried[0].op == 'e' else tried[0].a[0].a[2][0]
            vals = []
            for t in walk(call):
                if t.op == 'newcall':
                    ta = list(t.a)
                    tail = [x.a[0] if x.op == 'c' else None for x in ta if isinstance(x, T)]
                    flat = [x for x in ta if isinstance(x, T)] + [y for x in ta if isinstance(x, tuple) for y in x]
                    if field_of(flat[0]) is None or field_of(flat[1]) is None or C('org.freedesktop.DBus.Properties') not in flat \
                            or C('Set') not in flat:
                        return 'the call is addressed to %s' % show(t)[:200]
            apps = []

            def chain(t):
                if t.op == 'mut' and t.a[0] == 'append':
                    chain(t.a[1])
                    apps.extend(t.a[2])
            chain(call)
            if len(apps) == 3:
                if apps[0] is not C('xyz.openbmc_project.Control.FanPwm') or apps[1] is not C('Target'):
                    return 'the property written is %s.%s' % (show(apps[0]), show(apps[1]))
                v = nocast(o.val(apps[2]))
                if not (isint(v, raw) or v is want or same(o, v, want)):
                    r = c.expect(o, v, want, 'the value sent')
                    if r:
                        return r
            elif not opaque(call):
                return 'the message carries %d values' % len(apps)
            wo, ww = (want, want) if good else (old, old)
            r = c.expect(o, got_old, wo, 'the remembered value after a %s write' % ('successful' if good else 'failed'))
            if r:
                return r
            if nn:
                return c.expect(o, out, ww, 'the value reported after a %s write' % ('successful' if good else 'failed'))
            return None
        c.judge('D-Bus writers skip, remember and report truthfully', I_, ps, f, cls)
        f1 = P.fn(cls + '::write', n=1)
        # the one-argument form is a non-forced write
        I1, p1 = c.run(f1)

        def g(o, s):
            sent = [e for e in s.eff if e.a[0] == 'dbus' and e.a[1].startswith('call')]
            samev = o(eq(old, want))
            got_old = getf(s.store.get(THIS, T('rd', THIS)), OLD)
            if samev:
                return 'an unchanged value is written again' if sent else c.expect(o, got_old, old, 'the remembered value')
            if not sent:
                if not any(t.op == 'ok' for t in s.facts.lits):
                    return 'the write is skipped although the value changed'
                return c.expect(o, got_old, old, 'the remembered value after a failed write')
            return c.expect(o, got_old, want, 'the remembered value')
        c.judge('the plain write is an unforced write', I1, p1, g, cls)
        i0 = init.get(OLD)
        if i0 is not None and i0.op == 'c' and isinstance(i0.a[1], (int, float)) and i0.a[1] >= 0:
            c.viol('nothing counts as written before the first write', _f, '%s starts out remembering %s' % (cls, show(i0)))
        else:
            c.ok('nothing counts as written before the first write', cls)


# ---------------------------------------------------------------- host-off
def power_term(ps):
    for s in ps:
        for t in allterms(s):
            for x in walk(t):
                if x.op == 'sel' and x.a[1] == 'powerStatusOn' or x.op == 'get' and x.a[0] == 'isPowerOn':
                    return x
    return None


@check('C34')
def c34(c):
    B = Base(c)
    on = ret_field(c, 'HostStateMonitor::isPowerOn')
    if on is None:
        raise Broken('HostStateMonitor: power state member not recognised')

    def power(s):
        for t in allterms(s):
            for x in walk(t):
                if x.op == 'sel' and x.a[1] == on:
                    return x
        return None

    def spec(verdict):
        def f(o, s):
            if s.sig != 'ret':
                return 'fails'
            ch = {k: v for k, v in changed(s).items() if not o.val(v) is tf(k)}
            if ch:
                return 'asking for the verdict changes %s' % sorted(ch)
            v = verdict(o, s)
            got = o.val(s.val)
            if not v:
                return None if got.op == 'c' and got is FALSE or not o(got) else 'a healthy sensor is reported failed'
            if not o(tf(B.ign)):
                return None if o(got) else 'a failure is suppressed although the sensor is not configured for it'
            p = power(s) or pw[0]
            if p is None:
                return 'the host state is not consulted for a sensor configured to ignore failures while the host is off'
            if o(p):
                return None if o(got) else 'a failure is suppressed while the host is on'
            return 'a failure is reported while the host is off' if o(got) else None
        return f
    pw = [None]
    I_, ps = c.run('PluggableSensor::getFailed')
    for s in ps:
        pw[0] = pw[0] or power(s)
    fails = [x for s in ps for t in list(allterms(s)) for x in walk(t) if x.op == 'get' and x.a[0] == 'getFailed']
    vt = None
    for x in fails:
        if field_of(x.a[1]) == B.reader:
            vt = x
    if vt is None:
        for s in ps:
            for e in s.eff:
                if e.op == 'e' and e.a[1] == 'getFailed':
                    vt = T('res', 'getFailed', e.a[2], (), 0)
    if vt is None:
        c.viol('wrapped sensors suppress only while the host is off', I_.f, 'the reader is not asked whether it failed')
    else:
        c.judge('wrapped sensors suppress only while the host is off', I_, ps, spec(lambda o, s: o(vt)))
    # a single process-wide monitor answers
    I_, ps = c.run('HostSensor::getFailed', opaque={'outputFailsafeLogWithSensor'})
    I2, p2 = c.run('HostSensor::read')
    val = None
    for s in p2:
        if s.sig == 'ret':
            val = getf(s.val, 'value')
    pw[0] = None
    for s in ps:
        pw[0] = pw[0] or power(s)
    c.judge('host sensors suppress only while the host is off', I_, ps, spec(lambda o, s: not o(T('isfin', val))))

    RUN = C('.Running')

    def ends(v):
        return T('endswith', v, RUN)
    I_, ps = c.run('HostStateMonitor::handleStateChange')

    def h(o, s):
        if s.sig != 'ret':
            return 'an unreadable state change escapes'
        got = getf(s.store.get(THIS, T('rd', THIS)), on)
        cur = tf(on)
        for t in [x for t in allterms(s) for x in walk(t) if x.op == 'ok']:
            if not o(t):
                return c.expect(o, got, cur, 'the host state after an unreadable message')
        hs = [x for t in allterms(s) for x in walk(t) if x.op == 'has' and x.a[1] is C('CurrentHostState')]
        if not hs:
            return ('undecided', 'no lookup of CurrentHostState')
        if not o(hs[0]):
            return c.expect(o, got, cur, 'the host state after an unrelated change')
        v = T('vget', 'std::string', T('at', hs[0].a[0], hs[0].a[1]))
        vs = [x for t in allterms(s) for x in walk(t) if x.op == 'vget'] or [v]
        return c.expect(o, got, ends(vs[0]), 'the host state')
    c.judge('the host state follows the last state seen', I_, ps, h)
    I_, ps = c.run('HostStateMonitor::getInitialState')

    def i(o, s):
        if s.sig != 'ret':
            return 'an unreadable host state escapes'
        got = getf(s.store.get(THIS, T('rd', THIS)), on)
        okt = []
        for t in [x for q in ps for t in allterms(q) for x in walk(t) if x.op == 'ok']:
            if t not in okt:
                okt.append(t)
        okt.sort(key=lambda t: 0 if t.a[0].a[0].startswith('call') else 1)
        for t in okt:
            if not o(t):
                return c.expect(o, got, FALSE, 'the host state when it cannot be read')
        vs = [x for q in ps for t in allterms(q) for x in walk(t) if x.op == 'vget']
        if not vs:
            return ('undecided', 'value of the state property')
        nc = [x for q in ps for t in allterms(q) for x in walk(t) if x.op == 'newcall']
        for x in nc[:1]:
            flat = [y for y in walk(x)]
            if C('xyz.openbmc_project.State.Host0') not in flat or C('/xyz/openbmc_project/state/host0') not in flat:
                return 'the state is read from %s' % show(x)
        return c.expect(o, got, ends(vs[0]), 'the host state at start')
    c.judge('the initial host state is read, or off', I_, ps, i)
    I_, ps = c.run('HostStateMonitor::startMonitoring')

    def m(o, s):
        mk = [e for e in s.eff if e.a[0] == 'make' and 'match' in e.a[1]]
        have = [t for t in s.facts.lits if t.op in ('isnull', 'eqk', 'eqc')]
        if not mk:
            return None if have and any(not s.facts.lits[t] for t in have) else 'no state-change subscription is made'
        fl = list(walk(mk[0]))
        if not any(t is C('/xyz/openbmc_project/state/host0') for t in fl) or not any(t is C('xyz.openbmc_project.State.Host') for t in fl):
            return ('the subscription does not cover the host state', mk[0])
        for t in fl:
            if t.op == 'clo':
                for q in c.run_clo(I_, t, [T('sym', 'msg')], None, opaque={'handleStateChange'}):
                    if not any(e.op == 'e' and e.a[1] == 'handleStateChange' for e in q.eff):
                        return ('state changes are not handled', mk[0])
        return None
    c.judge('state changes are subscribed and handled', I_, ps, m)


# ---------------------------------------------------------------- forwarding
def fwd(c, rule, fn, n, obj, name, args, ret):
    f = c.P().fn(fn, n=n)
    I_, ps = c.run(f)

    def g(o, s):
        es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'call']
        mine = [e for e in es if e.a[1].split('::')[-1] == name and field_of(e.a[2]) == obj]
        if s.sig != 'ret':
            return 'fails'
        if ret and not mine:
            v = o.val(s.val)
            if v.op == 'get' and v.a[0] == name and field_of(v.a[1]) == obj:
                return None
            if len(es) == 0:
                return 'returns %s instead of what the %s says' % (show(v)[:120], obj)
        if len(mine) != 1 or len(es) != 1:
            return 'forwards %d time(s): %s' % (len(mine), [show(e)[:80] for e in es])
        if tuple(o.val(x) for x in mine[0].a[3]) != tuple(args):
            return ('forwards %s' % show(mine[0])[:200], mine[0])
        if ret:
            v = o.val(s.val)
            if not (v.op == 'res' and v.a[0] == name and v.a[1] is mine[0].a[2]):
                return 'returns %s instead of the answer' % show(v)[:120]
        return None
    c.judge(rule, I_, ps, g, '%s/%d' % (fn, n))


@check('C35')
def c35(c):
    B = Base(c)
    R = 'wrapped sensors forward unchanged'
    fwd(c, R, 'PluggableSensor::read', 0, B.reader, 'read', (), True)
    fwd(c, R, 'PluggableSensor::getFailReason', 0, B.reader, 'getFailReason', (), True)
    fwd(c, R, 'PluggableSensor::write', 1, B.writer, 'write', (argsym(0),), False)
    fwd(c, R, 'PluggableSensor::write', 3, B.writer, 'write', (argsym(0), argsym(1), argsym(2)), False)
    # constructor: reader and writer are the ones handed in
    m, init, f = ctor_fields(c, 'PluggableSensor::PluggableSensor')
    for k, i, n in ((B.name, 0, 'name'), (B.timeout, 1, 'timeout'), (B.reader, 2, 'reader'), (B.writer, 3, 'writer'), (B.ign, 4, 'host-off setting')):
        if init.get(k) is not argsym(i):
            c.viol('construction keeps every part', f, 'the %s of a wrapped sensor is %s' % (n, show(init[k]) if k in init else 'not set'))
        else:
            c.ok('construction keeps every part', n)
    # plain overloads that take force/written delegate to the simple write once
    for cls in ('Sensor', 'WriteInterface'):
        f = c.P().fn(cls + '::write', n=3)
        I_, ps = c.run(f)

        def g(o, s):
            es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'call']
            if len(es) != 1 or es[0].a[1].split('::')[-1] != 'write' or es[0].a[2] is not T('sym', 'this') or tuple(es[0].a[3]) != (argsym(0),):
                return 'does %s' % [show(e)[:100] for e in es]
            return None
        c.judge('the default forced write is one plain write', I_, ps, g, cls)
    # host sensors
    I_, ps = c.run('HostSensor::value')
    I2, p2 = c.run('HostSensor::read')
    r = one_ret(p2)
    if r is None:
        raise Broken('HostSensor::read')
    vf, uf = field_of(getf(r.val, 'value')), field_of(getf(r.val, 'updated'))
    if vf is None or uf is None:
        c.viol('a host sensor returns what it was told', I2.f, 'read returns %s' % show(r.val)[:200])
        return

    def h(o, s):
        if s.sig != 'ret':
            return 'fails'
        ch = changed(s)
        if not same(o, ch.get(vf, NULL), argsym(0)):
            return 'the stored value becomes %s' % show(ch.get(vf, tf(vf)))
        if uf not in ch or ch[uf].op != 'now':
            return 'the value is not stamped with the current time'
        pub = [e for e in s.eff if e.op == 'e' and e.a[1].split('::')[-1] == 'value']
        if len(pub) != 1 or tuple(pub[0].a[3]) [:1] != (argsym(0),):
            return 'the value is not published'
        return None
    c.judge('a host sensor stores and stamps what it is told', I_, ps, h)
    I_, ps = c.run(c.P().fn('HostSensor::write', n=1))
    c.judge('host sensors refuse writes', I_, ps, lambda o, s: None if s.sig == 'thr' else 'a write is accepted silently')
    I_, ps = c.run('ReadOnly::write')
    c.judge('read-only sensors reject writes', I_, ps, lambda o, s: None if s.sig == 'thr' else 'a write is accepted silently')
    I_, ps = c.run('ReadOnlyNoExcept::write')
    c.judge('the no-op writer does nothing', I_, ps,
            lambda o, s: None if s.sig == 'ret' and not s.eff else 'not a no-op')
    I_, ps = c.run('WriteOnly::read')
    c.judge('write-only sensors reject reads', I_, ps, lambda o, s: None if s.sig == 'thr' else 'a reading is invented')
    I_, ps = c.run('SysFsRead::read', keep_log=True)

    def sr(o, s):
        if s.sig != 'ret':
            return None
        v = o.val(getf(s.val, 'value'))
        unread = any(not b and a.op == 'has' and a.a[0].op == 'get' and a.a[0].a[0] in ('good', 'is_open') for a, b in o.facts.lits.items())
        if unread and v is ZERO:
            pass        # what a failed extraction yields
        elif not any(t.op in ('fread', 'mut') for t in walk(v)) or nocast(v).op != 'fread':
            return 'returns %s' % show(v)[:120]
        r = c.expect(o, getf(s.val, 'unscaled'), v, 'the unscaled reading')
        if r:
            return r
        if getf(s.val, 'updated').op != 'now':
            return 'the reading is not stamped with the current time'
        return None
    c.judge('a sysfs reading is the file\'s number, stamped now', I_, ps, sr)
