"""PID core, PID / fan / thermal / stepwise controllers."""
from ..spec import *
from ..extract import Broken
from .roles import *


class Deg(Exception):
    pass


def clamp(o, x, lo, hi):
    if o(lt(hi, lo)):
        raise Deg()
    if o(lt(x, lo)):
        return lo
    if o(lt(hi, x)):
        return hi
    return x


def pid_paths(c, cfg=0):
    f = c.P(cfg).fn('ec::pid')
    if len(f['params']) != 4:
        raise Broken('ec::pid no longer has four parameters')
    I_, ps = c.run(f, cfg)
    return I_, ps, T('D', argsym(0)), argsym(1), argsym(2)


def pid_spec(o, info, inp, sp):
    """(output, integral) of one step"""
    g = lambda *p: _g(info, *p)
    err = sub(sp, inp)
    P_ = mul(g('proportionalCoeff'), err)
    I0 = ZERO
    if not o(eq(g('integralCoeff'), ZERO)):
        I0 = clamp(o, add(g('integral'), mul(err, g('integralCoeff'), g('ts'))), g('integralLimit', 'min'),
                   g('integralLimit', 'max'))
    D = mul(g('derivativeCoeff'), div(sub(err, g('lastError')), g('ts')))
    FF = mul(add(sp, g('feedFwdOffset')), g('feedFwdGain'))
    out = clamp(o, add(P_, I0, D, FF), g('outLim', 'min'), g('outLim', 'max'))
    I1 = I0
    if o(g('initialized')):
        n, p = not o(eq(g('slewNeg'), ZERO)), not o(eq(g('slewPos'), ZERO))
        mn = add(g('lastOutput'), mul(g('slewNeg'), g('ts')))
        mx = add(g('lastOutput'), mul(g('slewPos'), g('ts')))
        if n and p and o(lt(mx, mn)):
            raise Deg()
        if n and o(lt(out, mn)):
            out = mn
        if p and o(lt(mx, out)):
            out = mx
        if n or p:
            I1 = sub(out, P_)
    I1 = clamp(o, I1, g('integralLimit', 'min'), g('integralLimit', 'max'))
    return out, I1, err


def _g(v, *p):
    for x in p:
        v = getf(v, x)
    return v


@check('C09')
def c09(c):
    I_, ps, L, inp, sp = pid_paths(c)
    info = T('rd', L)

    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        try:
            out, _, _ = pid_spec(o, info, inp, sp)
        except Deg:
            return None
        return c.expect(o, s.val, out, 'the output of a PID step')
    c.judge('output', I_, ps, f)
    # what the next step computes with is what this one left
    c.include('C10', 'state')


@check('C10')
def c10(c):
    I_, ps, L, inp, sp = pid_paths(c)
    info = T('rd', L)

    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        a = s.load(L)
        try:
            out, i1, err = pid_spec(o, info, inp, sp)
        except Deg:
            return None
        for k, w in (('integral', i1), ('lastOutput', s.val), ('lastError', err), ('initialized', TRUE)):
            r = c.expect(o, getf(a, k), w, 'the stored %s' % k)
            if r:
                return r
        if a.op == 'rec':
            for k, v in a.a[1]:
                if k not in ('integral', 'lastOutput', 'lastError', 'initialized') and not same(o, v, getf(info, k)):
                    return 'the step changes the tuning parameter %s' % k
        return None
    c.judge('state', I_, ps, f)


PIDI = '_pid_info'


@check('C11')
def c11(c):
    P = c.P(0)
    f = P.fn('PIDController::calPIDOutput')
    I_, ps = c.run(f, opaque={'ec::pid'})
    sp, inp = argsym(0), argsym(1)
    L = T('D', argsym(2))
    info = T('rd', L)
    # the member that remembers the input used last
    lasts = set()
    for s in ps:
        lasts |= set(changed(s))
    lf = ret_field(c, 'PIDController::getLastInput') or 'lastInput'
    last = tf(lf)

    def cal(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        calls = [e for e in s.eff if e.op == 'e' and e.a[1] == 'pid']
        a = s.load(L)

        def step(u):
            if len(calls) != 1:
                return 'the PID step runs %d times' % len(calls)
            ar = calls[0].a[3]
            if ar[0] is not argsym(2) and not same(o, ar[0], argsym(2)):
                return ('the PID step gets another state block: %s' % show(ar[0]), calls[0])
            r = c.expect(o, ar[1], u, 'the input of the PID step', calls[0]) or \
                c.expect(o, ar[2], sp, 'the setpoint of the PID step', calls[0])
            if r:
                return r
            res = T('res', calls[0].a[1], calls[0].a[2], ar, 0)
            return c.expect(o, s.val, res, 'the result')
        if o(getf(info, 'checkHysterWithSetpt')):
            hi, lo = add(sp, getf(info, 'positiveHysteresis')), sub(sp, getf(info, 'negativeHysteresis'))
            if o(lt(hi, inp)):
                return step(inp)
            if calls:
                return ('the PID step runs although the input is not above the band', calls[0])
            if o(lt(inp, lo)):
                return c.expect(o, s.val, ZERO, 'the output below the band') or \
                    c.expect(o, getf(a, 'integral'), ZERO, 'the integral below the band')
            return c.expect(o, s.val, getf(info, 'lastOutput'), 'the output inside the band') or \
                c.expect(o, getf(a, 'integral'), getf(info, 'integral'), 'the integral inside the band')
        z = o(eq(getf(info, 'positiveHysteresis'), ZERO)) and o(eq(getf(info, 'negativeHysteresis'), ZERO))
        if z:
            u = inp
        elif not o(T('isfin', last)):
            u = inp
        elif o(lt(getf(info, 'positiveHysteresis'), sub(inp, last))):
            u = inp
        elif o(lt(getf(info, 'negativeHysteresis'), sub(last, inp))):
            u = inp
        else:
            u = last
        return step(u) or c.expect(o, s.load(tl(lf)), u, 'the remembered input')
    c.judge('hysteresis', I_, ps, cal)
    # one pass
    I_, ps = c.run('PIDController::process', opaque={'calPIDOutput'})

    def proc(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        ns = [e.a[1] for e in s.eff if e.op == 'e']
        for n in ('setptProc', 'inputProc', 'calPIDOutput', 'outputProc'):
            if ns.count(n) != 1:
                return '%s runs %d times in a pass' % (n, ns.count(n))
        e = {n: [x for x in s.eff if x.op == 'e' and x.a[1] == n][0] for n in set(ns)}
        if ns.index('outputProc') < ns.index('calPIDOutput'):
            return 'the output is emitted before it is computed'
        R = lambda n: T('res', n, e[n].a[2], e[n].a[3], 0)
        a = e['calPIDOutput'].a[3]
        r = c.expect(o, a[0], R('setptProc'), 'the setpoint used', e['calPIDOutput']) or \
            c.expect(o, a[1], R('inputProc'), 'the input used', e['calPIDOutput']) or \
            c.expect(o, e['outputProc'].a[3][0], R('calPIDOutput'), 'the output emitted', e['outputProc'])
        if r:
            return r
        # the block handed to the computation is the one that remembers the output
        blk = mkD(a[2])
        return c.expect(o, getf(s.load(blk), 'lastOutput'), R('calPIDOutput'), 'the last output remembered')
    c.judge('pass', I_, ps, proc)


def fan_fields(c, cfg=0):
    m, init, f = ctor_fields(c, 'FanController::FanController', cfg)
    ps = [p['n'] for p in f['params']]
    if len(ps) != 3 or any(p not in m for p in ps):
        raise Broken('the constructor of FanController does not store its arguments')
    return m[ps[0]], m[ps[1]], m[ps[2]]


def fan_write(c, rule, I_, ps, owner, inputs, duty, cfg):
    """on every path: one loop over all fans, writing duty(o)/100 to each"""
    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        want = duty(o)
        ws = [e for e in effs(s, named('write'))]
        if not ws:
            if o(isempty(inputs)):
                return None
            return 'no fan is written'
        if len(ws) != 1 or ws[0].op != 'foreach':
            return ('undecided', 'fans are written outside one loop over the inputs')
        e = ws[0]
        if len(e.a) > 2:
            return ('not every fan is written', e)
        if e.a[0].a[1] is not inputs:
            if opaque(e.a[0]):
                return ('undecided', 'domain %s' % show(e.a[0])[:100])
            return ('the fans written are %s, not all fans of the controller' % show(e.a[0].a[1]), e)
        el = T('el', e.a[0])
        t = o.val(e.a[1])
        for cs, leaf in cases(t):
            ff = [o.facts]
            for a, b in cs:
                ff = [y for z in ff for y in z.assume(a, b)]
            for fx in ff:
                q = Oracle(fx)
                w = [x for x in leaf.a[0] if x.op == 'e' and x.a[1] == 'write']
                if len(w) != 1:
                    return ('a fan is written %d times in a pass' % len(w), e)
                w = w[0]
                if w.a[2] is not getter('getSensor', owner, el):
                    return ('the sensor written is %s' % show(w.a[2]), e)
                r = c.expect(o, w.a[3][0], mul(C(Fraction(1, 100)), want), 'the value written', e) or \
                    c.expect(o, w.a[3][1], getter('getRedundantWrite', owner), 'the force flag of the write', e)
                if r:
                    return r
    c.judge(rule, I_, ps, f)


@check('C01')
def c01(c):
    for cfg in CONFIGS:
        strict = option(cfg, 'strict')
        idf, inf, owf = fan_fields(c, cfg)
        owner, inputs = tf(owf), tf(inf)
        P = c.P(cfg)
        tun = G(P, 'tuningEnabled')
        I_, ps = c.run('FanController::outputProc', cfg)
        v = argsym(0)

        def duty(o):
            if o(rd(tun)) or not o(getter('getFailSafeMode', owner)):
                return v
            fs = getter('getFailSafePercent', owner)
            if strict:
                return fs
            return fs if o(lt(v, fs)) else v
        fan_write(c, 'duty', I_, ps, owner, inputs, duty, cfg)
        # what gets commanded in a pass is the computed output
    I_, ps = c.run('DbusPidZone::getFailSafeMode')
    z = Zone(c, 0)
    c.judge('mode', I_, ps, lambda o, s: c.expect(o, s.val, lnot(isempty(z.v('FS'))), 'getFailSafeMode()'))
    # the failsafe duty is the zone's, the output is the computed one
    c.include('C04', 'maximum')
    c.include('C11', 'pass')


@check('C44')
def c44(c):
    for cfg in CONFIGS:
        on = option(cfg, 'offline')
        idf, inf, owf = fan_fields(c, cfg)
        owner, inputs = tf(owf), tf(inf)
        fs = [f for f in c.P(cfg).find('FanController::~FanController') if f.get('body')]
        if not fs:
            if on:
                c.viol('offline', ('pid/fancontroller.cpp', 0, 'FanController'), 'destroying a fan controller writes nothing')
            continue
        I_, ps = c.run(fs[0], cfg)
        if not on:
            for s in ps:
                if effs(s, named('write')):
                    c.viol('online', fs[0], 'destroying a fan controller writes fans although the option is off', s.facts)
                else:
                    c.ok('online', 'no write without the option')
        else:
            fan_write(c, 'offline', I_, ps, owner, inputs, lambda o: getter('getFailSafePercent', owner), cfg)
    # everything the write needs outlives the controllers: members of the zone
    # used through the owner interface are declared before the fan controllers
    z = Zone(c, 1)
    P = c.P(1)
    r = P.rec('DbusPidZone')
    order = [f['n'] for f in r['fields']]
    used = set()
    for m in ('getFailSafePercent', 'getSensor', 'getRedundantWrite', 'setOutputCache', 'getZoneID'):
        I_, ps = c.run('DbusPidZone::' + m, 1)
        for s in ps:
            for t in allterms(s):
                for x in walk(t):
                    f = field_of(x)
                    if f:
                        used.add(f)
            used |= set(changed(s))
    z.need('FANS')
    for f in sorted(used):
        c.sites += 1
        if f in order and order.index(f) > order.index(z.FANS):
            c.viol('alive', (r.get('file', 'pid/zone.hpp'), r.get('l'), 'DbusPidZone'),
                   'member %s is destroyed before the fan controllers that still use it' % f)
        else:
            c.ok('alive', '%s outlives %s' % (f, z.FANS))
    # the sensors must outlive the zones: globals in main are destroyed in reverse order of definition
    from .mainf import sensors_outlive
    sensors_outlive(c, 'alive')
    c.include('C04', 'maximum')


def cached(c, rule):
    """controllers see exactly the value the last poll cached for the sensor"""
    z = Zone(c, 0)
    z.need('CACHE')
    at = getat(z.v('CACHE'), argsym(0))
    for fn, want in (('getCachedValue', getf(at, 'scaled')), ('getCachedValues', at)):
        I_, ps = c.run('DbusPidZone::' + fn)

        def f(o, s):
            if s.sig != 'ret':
                return 'fails although a value is cached' if o(has(z.v('CACHE'), argsym(0))) else None
            return c.expect(o, s.val, want, fn + '()')
        c.judge(rule, I_, ps, f)


@check('C12')
def c12(c):
    idf, inf, owf = fan_fields(c)
    owner, inputs = tf(owf), tf(inf)
    I_, ps = c.run('FanController::inputProc')

    def f(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        d = dom(inputs)
        v = getf(getter('getCachedValues', owner, T('el', d)), 'unscaled')
        g = land(T('isfin', v), lt(ZERO, v))
        want = ext(d, 'min', bdd(g), v) if o(mkany(d, bdd(g))) else ZERO
        return c.expect(o, s.val, want, 'the fan input')
    c.judge('input', I_, ps, f)
    I_, ps = c.run('FanController::setptProc')
    mx = getter('getMaxSetPointRequest', owner)
    P = c.P(0)
    sf = ret_field(c, 'PIDController::getSetpoint') or '_setpoint'
    df = ret_field(c, 'FanController::getFanDirection') or '_direction'
    en = next((e for n, e in P.enums.items() if n.endswith('FanSpeedDirection')), None)
    ev = enum_vals(en)

    def g(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        r = c.expect(o, s.val, mx, 'the fan target') or c.expect(o, s.load(tl(sf)), mx, 'the stored target')
        if r:
            return r
        old = tf(sf)
        w = 'UP' if o(lt(old, mx)) else 'DOWN' if o(lt(mx, old)) else 'NEUTRAL'
        return c.expect(o, s.load(tl(df)), C(ev[w]), 'the recorded direction')
    c.judge('target', I_, ps, g)
    cached(c, 'cached-values')


def enum_vals(e):
    if e is None:
        raise Broken('enumeration not found')
    return {x['n'].split('::')[-1]: int(x['v']) for x in e['e']}


@check('C13')
def c13(c):
    P = c.P(0)
    m, init, f = ctor_fields(c, 'ThermalController::ThermalController')
    pn = [p['n'] for p in f['params']]
    try:
        idf, inf, tyf, owf = (m[p] for p in pn)
    except (KeyError, ValueError):
        raise Broken('the constructor of ThermalController does not store its arguments')
    owner, inputs, ty = tf(owf), tf(inf), tf(tyf)
    ev = enum_vals(next((e for n, e in P.enums.items() if n.endswith('ThermalType')), None))
    I_, ps = c.run('ThermalController::inputProc')
    sp = tf(ret_field(c, 'PIDController::getSetpoint') or '_setpoint')
    d = dom(inputs)
    el = T('el', d)
    v = getter('getCachedValue', owner, getf(el, 'name'))
    fin = T('isfin', v)

    def h(o, s):
        kind = next((k for k in ('margin', 'absolute', 'summation') if o(eq(ty, C(ev[k])))), None)
        if s.sig != 'ret':
            return None      # an unusable configuration is rejected
        if kind is None:
            return 'an unknown type yields an input'
        if not o(mkany(d, fin)):
            return c.expect(o, s.val, sp, 'the input without a usable sensor')
        if kind == 'margin':
            want = ext(d, 'min', fin, ite(getf(el, 'convertTempToMargin'), sub(getf(el, 'convertMarginZero'), v), v))
        elif kind == 'absolute':
            want = ext(d, 'max', fin, v)
        else:
            want = red(d, 'sum', fin, v, ZERO, FALSE)
        return c.expect(o, s.val, want, 'the input of a %s controller' % kind)
    c.judge('input', I_, ps, h)
    for s in ps:
        if s.sig == 'thr':
            c.sites += 1

            def thr(o, s):
                k = [o(eq(ty, C(ev[k]))) for k in ('margin', 'absolute', 'summation')]
                bad = land(fin, getf(el, 'convertTempToMargin'), lnot(T('isfin', getf(el, 'convertMarginZero'))))
                if not any(k):
                    return None
                if k[0] and o(mkany(d, bdd(bad))):
                    return None
                if o(isempty(inputs)):
                    return None
                return 'a usable configuration is rejected with %s' % show(s.val)
            c.judge('reject', I_, [s], thr)
    I_, ps = c.run('ThermalController::setptProc')
    c.judge('setpoint', I_, ps, lambda o, s: c.expect(o, s.val, sp, 'the setpoint'))
    I_, ps = c.run('ThermalController::outputProc')

    def out(o, s):
        e = [x for x in s.eff if x.op == 'e' and x.a[1] in ('addSetPoint', 'addRPMCeiling')]
        if len(e) != 1 or e[0].a[1] != 'addSetPoint' or e[0].a[2] is not owner:
            return 'the output is not contributed exactly once'
        return c.expect(o, e[0].a[3][0], argsym(0), 'the contribution', e[0]) or \
            c.expect(o, e[0].a[3][1], tf(idf), 'the name of the contribution', e[0])
    c.judge('contribution', I_, ps, out)
    cached(c, 'cached-values')


@check('C14')
def c14(c):
    f = c.P(0).fn('ec::stepwise')
    I_, ps = c.run(f)
    info, x = argsym(0), argsym(1)
    rdg, out = getf(info, 'reading'), getf(info, 'output')
    n = None
    P = c.P(0)
    r = P.rec('ec::StepwiseInfo') or P.rec('StepwiseInfo')
    for fl in r['fields']:
        if fl['n'] == 'reading':
            n = fl.get('arr')
            if not n:
                import re
                mm = re.search(r'(?:\[|, )(\d+)[\]>]', fl['t'])
                n = int(mm.group(1)) if mm else None
    if n is None:
        raise Broken('size of the stepwise table not found')
    n = int(n)
    # every subscript of the table is inside it
    c.bounds('bounds', I_)
    Ls = [L for L in I_.loops if L['dom'] is not None and L['dom'].a[0] == 'range']
    if len(Ls) != 1:
        c.undec('lookup', 'the lookup is not a single counted loop (%d loops)' % len(Ls))
        return
    L = Ls[0]
    lo, hi = L['dom'].a[1].a
    el = T('el', L['dom'])
    if not (is_num(lo) and is_num(hi)):
        c.undec('lookup', 'loop bounds %s..%s' % (show(lo), show(hi)))
        return
    val = next((m for m in L['M']), None)
    if len(L['M']) != 1:
        c.undec('lookup', 'the loop carries %d values' % len(L['M']))
        return
    # which point an iteration looks at
    at = {x.a[1] for ls, w in list(L['norm']) + list(L['exits']) for y in list(w.facts.lits) + list(w.store.values())
          for x in walk(y) if x.op == 'at' and x.a[0] in (rdg, out) and any(k is el for k in walk(x.a[1]))}
    if len(at) == 1:
        pt = at.pop()
        off = sub(pt, el)
        if is_num(off):
            el, lo, hi = pt, add(lo, off), add(hi, off)
    if cval(lo) not in (0, 1) or cval(hi) < n:
        c.viol('lookup', f, 'the lookup visits points %s..%s of 0..%d' % (cval(lo), cval(hi) - 1, n - 1))
    if L['st'].load(val) is not getat(out, ZERO):
        r_ = L['st'].load(val)
        c.viol('lookup', f, 'the lookup starts from %s, required the first output' % show(r_))
    stop = lambda o: o(T('isnan', getat(rdg, el))) or o(lt(x, getat(rdg, el)))

    def it(o, s):
        if stop(o):
            return 'the lookup passes a point that is absent or above the input'
        return c.expect(o, s.load(val), getat(out, el), 'the output after a reached point')
    c.judge_loop('lookup', I_, L, it)

    def ex(o, s):
        if not stop(o):
            return 'the lookup stops at a point that is reached'
        v = s.val if s.sig == 'ret' else s.load(val)
        return c.expect(o, v, L['entry'].load(val), 'the output when the lookup stops')
    c.judge('lookup', I_, [s for _, s in L['exits']], ex, 'exit of the lookup loop')
    if not L['exits']:
        c.viol('lookup', f, 'the lookup never stops before the end of the table')

    def ret(o, s):
        if any(y is T('phi', val, L['dom'].a[2]) for y in walk(s.val)):
            return None
        ok = [y for y in walk(s.val) if y.op in ('lastel', 'at')]
        v = o.val(s.val)
        if v.op == 'at' and v.a[0] is out:
            return None
        return ('undecided', 'result %s' % show(v)[:200])
    c.judge('result', I_, ps, ret)


@check('C15')
def c15(c):
    m, init, f = ctor_fields(c, 'StepwiseController::StepwiseController')
    pn = [p['n'] for p in f['params']]
    idf, inf, owf = (m[p] for p in pn)
    owner, inputs = tf(owf), tf(inf)
    d = dom(inputs)
    I_, ps = c.run('StepwiseController::inputProc')
    v = getter('getCachedValue', owner, T('el', d))

    def inp(o, s):
        if o(isempty(inputs)):
            return None
        return c.expect(o, s.val, ext(d, 'max', TRUE, v), 'the stepwise input')
    c.judge('input', I_, ps, inp)
    # a sensor without a value (NaN) must not displace the largest one: comparisons with NaN are all
    # false, so which operand std::max keeps matters
    I_, ps = c.run('StepwiseController::inputProc', nan={'getCachedValue'})

    def unav(o, s):
        if o(isempty(inputs)):
            return None
        x = o.val(s.val)
        if x is NAN or any(y is NAN for y in walk(x)):
            return 'the input takes the value of a sensor that has none (NaN)'
    c.judge('input-unavailable', I_, ps, unav)
    I2, gs = c.run('StepwiseController::getStepwiseInfo')
    info = one_ret(gs).val if one_ret(gs) else tf('_stepwise_info')
    I_, ps = c.run('StepwiseController::process', opaque={'ec::stepwise', 'StepwiseController::inputProc'})
    # the fields that remember the last lookup
    fields = set()
    for s in ps:
        fields |= set(changed(s))
    IN = None
    for s in ps:
        for e in s.eff:
            if e.op == 'e' and e.a[1] == 'inputProc':
                IN = T('res', e.a[1], e.a[2], e.a[3], 0)
    if IN is None:
        g = [t for s in ps for t in allread_(s) if t.op == 'get' and t.a[0] == 'inputProc']
        IN = g[0] if g else None
    if IN is None:
        c.viol('hysteresis', I_.f, 'a pass does not compute its input')
        return
    lo = li = None
    nanf = [field_of(t.a[0]) for s in ps for t in allread_(s) if t.op == 'isnan' and field_of(t.a[0])]
    lo = nanf[0] if nanf else ('lastOutput' if 'lastOutput' in fields else None)
    rest = [k for k in fields if k != lo]
    li = rest[0] if len(rest) == 1 else 'lastInput'
    if lo is None:
        raise Broken('stepwise controller: last output not recognised')

    def proc(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        look = [e for e in s.eff if e.op == 'e' and e.a[1] == 'stepwise']
        out = [e for e in s.eff if e.op == 'e' and e.a[1] in ('addSetPoint', 'addRPMCeiling')]
        if o(T('isnan', tf(lo))):
            do = True
        else:
            do = o(lt(getf(info, 'positiveHysteresis'), sub(IN, tf(li)))) or \
                o(lt(getf(info, 'negativeHysteresis'), sub(tf(li), IN)))
        if len(out) != 1 or out[0].a[2] is not owner:
            return 'a pass emits its output %d times' % len(out)
        e = out[0]
        if do:
            if len(look) != 1:
                return 'no new output is looked up although the input moved beyond the band'
            r = c.expect(o, look[0].a[3][0], info, 'the table used', look[0]) or \
                c.expect(o, look[0].a[3][1], IN, 'the input looked up', look[0])
            if r:
                return r
            cur = T('res', 'stepwise', look[0].a[2], look[0].a[3], 0)
            nin = IN
        else:
            if look:
                return ('a new output is looked up although the input stayed within the band', look[0])
            cur, nin = tf(lo), tf(li)
        r = c.expect(o, s.load(tl(lo)), cur, 'the remembered output') or c.expect(o, s.load(tl(li)), nin, 'the remembered input') or \
            c.expect(o, e.a[3][0], cur, 'the output emitted', e)
        if r:
            return r
        if o(getf(info, 'isCeiling')):
            if e.a[1] != 'addRPMCeiling':
                return ('a ceiling controller contributes a setpoint', e)
        elif e.a[1] != 'addSetPoint':
            return ('a setpoint controller adds a ceiling', e)
        else:
            return c.expect(o, e.a[3][1], tf(idf), 'the name of the contribution', e)
    c.judge('hysteresis', I_, ps, proc)
    ini = init.get(lo)
    if ini is not NAN:
        c.viol('first', f, 'a new stepwise controller starts with last output %s instead of none' % (show(ini) if ini is not None else '?'))
    else:
        c.ok('first', 'the last output starts absent')
    cached(c, 'cached-values')


def allread_(s):
    for t in allterms(s):
        yield from walk(t)
