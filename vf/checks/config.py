"""JSON configuration: every key lands in the setting of its name."""
from ..spec import *
from ..extract import Broken
from .roles import *


def K_(j, *ks):
    for k in ks:
        j = getat(j, C(k) if isinstance(k, str) else k)
    return j


def opt(j, k, d):
    return ite(T('has', j, C(k)), K_(j, k), d)


def asint(t):
    return T('as', 'int', t)


def pointat(c, k):
    """element k of a container updated in loops"""
    if c.op == 'upd':
        return ite(eq(c.a[1], k), c.a[2], pointat(c.a[0], k))
    if c.op == 'ite':
        return ite(c.a[0], pointat(c.a[1], k), pointat(c.a[2], k))
    if c.op == 'mcomp':
        d, g, key, val, base = c.a
        el, ix = T('el', d), T('ix', d)
        pos = el if d.a[0] == 'range' else ix
        if key is pos:
            if d.a[0] == 'range':
                lo, hi = d.a[1].a
                inr = land(le(lo, k), lt(k, hi))
                f = lambda t: subst(t, lambda y: k if y is el else (y if y.op in BIND and y.a and y.a[0] is d else None))
            else:
                inr = land(le(ZERO, k), lt(k, size(d.a[1])))
                x = getat(d.a[1], k)
                f = lambda t: subst(t, lambda y: k if y is ix else (x if y is el else (
                    y if y.op in BIND and y.a and y.a[0] is d else None)))
            b = pointat(base, k)
            v = subst(f(val), lambda y: b if y is T('oldat', d) else None)
            return ite(land(inr, f(g)), v, b)
    if c.op == 'comp' and len(c.a) == 4 and c.a[1] is TRUE and c.a[3].op == 'empty' and c.a[0].a[0] == 'seq':
        d = c.a[0]
        x = getat(d.a[1], k)
        return subst(c.a[2], lambda y: k if y is T('ix', d) else (x if y is T('el', d) else (
            y if y.op in BIND and y.a and y.a[0] is d else None)))
    return getat(c, k)


def int_ok(o, got, want):
    """integral settings may go through an integer conversion"""
    f = lambda t: subst(t, lambda y: y.a[1] if y.op == 'as' and y.a[0] == 'int' else None)
    return f(got), f(want)


def one_map(c, rule, o, v, d, key, name):
    """v is the map holding one entry for every element of d under key; its value"""
    if v.op == 'mcomp' and v.a[0] is d and v.a[4].op == 'empty':
        if v.a[1] is not TRUE:
            return None, '%s is not stored for every entry, only when %s' % (name, show(v.a[1])[:150])
        a, b = int_ok(o, v.a[2], key)
        if a is not b:
            return None, '%s is stored under %s, required %s' % (name, show(v.a[2])[:120], show(key)[:120])
        return v.a[3], None
    if v.op == 'fold' and v.a[0] is d:
        # other state is carried from entry to entry: judge the entry stored by one iteration
        step = next((x[1] for x in v.a[3] if x[0] is v.a[1]), None)
        y = o.val(step) if step is not None else v
        if y.op == 'upd' and y.a[0] is T('phi', v.a[1], v.a[2]) and len(v.a) == 4 and \
                all(x[2].op == 'empty' for x in v.a[3] if x[0] is v.a[1]):
            a, b = int_ok(o, o.val(y.a[1]), key)
            if a is b:
                return y.a[2], None
            if not any(x.op in ('opq', 'part', 'loop', 'while', 'fold', 'ambig') for x in walk(a)):
                return None, '%s is stored under %s, required %s' % (name, show(y.a[1])[:120], show(key)[:120])
    if opaque(v):
        return None, ('undecided', show(v)[:200])
    if v.op in ('mcomp', 'upd', 'empty'):
        return None, '%s map is %s' % (name, show(v)[:200])
    return None, ('undecided', show(v)[:200])


def rets(o, s):
    return s.sig == 'ret'


def missing_rules(c, rule, I_, ps, mandatory, checked, what):
    """a throw happens only for an absent mandatory key"""
    seen = []
    for L in I_.loops:
        for _, s in L['exits']:
            seen.append(s)
    seen += ps

    def f(o, s):
        if s.sig != 'thr':
            return None
        v = s.val
        if v.op == 'exc' and v.a[0] in ('#missing-key', 'std::out_of_range'):
            k = v.a[1]
            if k.op != 'c':
                return ('undecided', show(k)[:100])
            if v.a[0] == '#missing-key':
                if k.a[1] not in checked:
                    return 'key %s is read with operator[] without checking that it is there (undefined behaviour)' % show(k)
            elif k.a[1] not in mandatory and k.a[1] not in checked:
                return 'an absent %s, which is optional, is an error' % show(k)
        return None
    c.judge(rule, I_, seen, f, what)


@check('C22')
def c22(c):
    """sensor entries"""
    I_, ps = c.run('buildSensorsFromJson')
    d = dom(K_(argsym(0), 'sensors'), 'seq', 1)
    el = T('el', d)
    isfan = eq(K_(el, 'type'), C('fan'))
    want = {'type': K_(el, 'type'), 'readPath': K_(el, 'readPath'), 'writePath': opt(el, 'writePath', C('')),
            'ignoreDbusMinMax': opt(el, 'ignoreDbusMinMax', FALSE),
            'unavailableAsFailed': opt(el, 'unavailableAsFailed', TRUE),
            'ignoreFailIfHostOff': opt(el, 'ignoreFailIfHostOff', FALSE),
            'min': ite(isfan, opt(el, 'min', ZERO), ZERO), 'max': ite(isfan, opt(el, 'max', ZERO), ZERO),
            'timeout': ite(T('has', el, C('timeout')), K_(el, 'timeout'), ite(isfan, ZERO, C(2)))}
    rec = c.P().rec('SensorConfig')
    if not rec:
        raise Broken('SensorConfig not found')
    fields = {f['n'] for f in rec['fields']}

    def f(o, s):
        if s.sig != 'ret':
            return None
        v, r = one_map(c, 'x', o, s.val, d, K_(el, 'name'), 'a sensor')
        if r:
            return r
        for n in sorted(want):
            if n not in fields:
                continue
            g, w = int_ok(o, o.val(getf(v, n)), o.val(want[n]))
            r = c.expect(o, g, w, 'setting %s of a sensor' % n)
            if r:
                return r
        return None
    c.judge('sensor-keys', I_, ps, f)
    missing_rules(c, 'mandatory-keys', I_, ps, {'type', 'readPath', 'name'}, {'sensors'}, 'reading a sensor entry')
    mandatory(c, I_, d, el, ('type', 'readPath', 'name'), 'sensor')


def mandatory(c, I_, d, el, keys, what, when=None):
    for L in [L for L in I_.loops if L['dom'] is d]:
        def it(o, s):
            if when is not None and not when(o):
                return None
            for k in keys:
                j = el
                for x in k.split('.')[:-1]:
                    j = K_(j, x)
                if not o(T('has', j, C(k.split('.')[-1]))):
                    return 'a %s entry without "%s" is accepted' % (what, k)
            return None
        c.judge_loop('mandatory-keys', I_, L, it)


PID_KEYS = {'ts': 'samplePeriod', 'proportionalCoeff': 'proportionalCoeff', 'integralCoeff': 'integralCoeff',
            'feedFwdOffset': 'feedFwdOffsetCoeff', 'feedFwdGain': 'feedFwdGainCoeff', 'integralLimit.min': 'integralLimit_min',
            'integralLimit.max': 'integralLimit_max', 'outLim.min': 'outLim_min', 'outLim.max': 'outLim_max',
            'slewNeg': 'slewNeg', 'slewPos': 'slewPos'}


@check('C23')
def c23(c):
    """controller and zone entries"""
    I_, ps = c.run('buildPIDsFromJson', opaque={'spliceInputs'})
    zd = dom(K_(argsym(0), 'zones'), 'seq', 1)
    z = T('el', zd)
    pd = dom(K_(z, 'pids'), 'seq', 2)
    p = T('el', pd)
    pid = K_(p, 'pid')
    step = eq(K_(p, 'type'), C('stepwise'))
    n = None
    for f in (c.P().rec('StepwiseInfo') or {'fields': ()})['fields']:
        if f['n'] == 'reading' and f.get('arr'):
            n = int(f['arr'])
    if n is None:
        raise Broken('stepwise table size not found')
    k = T('sym', 'point')

    def ctrl(o, rec):
        r = c.expect(o, getf(rec, 'type'), K_(p, 'type'), 'the controller type')
        r = r or c.expect(o, getf(rec, 'setpoint'), K_(p, 'setpoint'), 'the setpoint')
        r = r or c.expect(o, getf(rec, 'failSafePercent'), opt(p, 'FailSafePercent', ZERO), 'the failsafe percent')
        if r:
            return r
        v = o.val(getf(rec, 'inputs'))
        w = (K_(p, 'inputs'), opt(p, 'tempToMargin', T('empty')), opt(p, 'missingIsAcceptable', T('empty')))
        if v.op != 'res':
            return ('undecided', 'inputs are %s' % show(v)[:200])
        for got, want, nm in zip(v.a[2], w, ('names', 'tempToMargin list', 'missingIsAcceptable list')):
            r = c.expect(o, got, want, 'the input %s' % nm)
            if r:
                return r
        hyst = (('positiveHysteresis', 'positiveHysteresis'), ('negativeHysteresis', 'negativeHysteresis'))
        if o(step):
            sw = getf(rec, 'stepwiseInfo')
            for fl, w in [('ts', K_(pid, 'samplePeriod')), ('isCeiling', K_(pid, 'isCeiling'))] + \
                    [(a, opt(pid, b, ZERO)) for a, b in hyst]:
                r = c.expect(o, getf(sw, fl), w, 'stepwise setting %s' % fl)
                if r:
                    return r
            if o(lt(k, ZERO)) or not o(lt(k, C(n))):
                return None
            for fl in ('reading', 'output'):
                t = K_(pid, fl)
                w = ite(land(T('has', pid, C(fl)), T('has', t, T('tostr', k))), K_(t, T('tostr', k)), NAN)
                r = c.expect(o, o.val(pointat(getf(sw, fl), k)), w, 'point k of the stepwise %s' % fl)
                if r:
                    return r
            return None
        pi = getf(rec, 'pidInfo')
        for fl, key in PID_KEYS.items():
            g = pi
            for x in fl.split('.'):
                g = getf(g, x)
            r = c.expect(o, g, K_(pid, key), 'PID setting %s' % fl)
            if r:
                return r
        for fl, w in [(a, opt(pid, b, ZERO)) for a, b in hyst + (('derivativeCoeff', 'derivativeCoeff'),)] + \
                [('checkHysterWithSetpt', opt(pid, 'checkHysteresisWithSetpoint', FALSE))]:
            r = c.expect(o, getf(pi, fl), w, 'PID setting %s' % fl)
            if r:
                return r
        return None

    def f(o, s):
        if s.sig != 'ret':
            return None
        v, r = one_map(c, 'x', o, o.val(getf(s.val, 'first')), zd, K_(z, 'id'), 'the controllers of a zone')
        if r:
            return r
        rec, r = one_map(c, 'x', o, v, pd, K_(p, 'name'), 'a controller')
        return r or ctrl(o, rec)
    c.judge('controller-keys', I_, ps, f)

    def g(o, s):
        if s.sig != 'ret':
            return None
        v, r = one_map(c, 'x', o, o.val(getf(s.val, 'second')), zd, K_(z, 'id'), 'the configuration of a zone')
        if r:
            return r
        for fl, key in (('minThermalOutput', 'minThermalOutput'), ('failsafePercent', 'failsafePercent')):
            r = c.expect(o, getf(v, fl), K_(z, key), 'zone setting %s' % fl)
            if r:
                return r
        r = c.expect(o, getf(v, 'accumulateSetPoint'), opt(z, 'accumulateSetPoint', FALSE), 'zone setting accumulateSetPoint')
        if r:
            return r
        for fl, dv in (('cycleIntervalTimeMS', 100), ('updateThermalsTimeMS', 1000)):
            got = o.val(getf(getf(v, 'cycleTime'), fl))
            h = o(T('has', z, C(fl)))
            w = C(dv)
            if h and not o(lt(asint(K_(z, fl)), C(1))):
                w = asint(K_(z, fl))
            got, w = int_ok(o, o.val(got), w)
            r = c.expect(o, got, w, 'zone setting %s' % fl)
            if r:
                return r
        return None
    c.judge('zone-keys', I_, ps, g)
    zk = ('id', 'minThermalOutput', 'failsafePercent')
    pk = ('name', 'type', 'inputs', 'setpoint', 'pid', 'pid.samplePeriod')
    missing_rules(c, 'mandatory-keys', I_, ps, set(zk) | set(pk) | {'samplePeriod', 'isCeiling'} | set(PID_KEYS.values()),
                  {'zones', 'pids'}, 'reading zones and controllers')
    mandatory(c, I_, zd, z, zk, 'zone')
    mandatory(c, I_, pd, p, pk, 'controller')
    mandatory(c, I_, pd, p, ('pid.isCeiling',), 'stepwise controller', lambda o: o(step))
    mandatory(c, I_, pd, p, ['pid.' + x for x in PID_KEYS.values()], 'PID controller', lambda o: not o(step))


@check('C42')
def c42(c):
    """structural validation"""
    j = argsym(0)
    I_, ps = c.run('validateJson')
    S, Z = K_(j, 'sensors'), K_(j, 'zones')

    def okdoc(o):
        return o(T('has', j, C('sensors'))) and not o(isempty(S)) and o(T('has', j, C('zones')))

    def f(o, s):
        if s.sig == 'ret':
            if not okdoc(o):
                return 'a document without sensor list, without sensors or without zone list is accepted'
            return None
        v = s.val
        if v.op == 'exc' and v.a[0] == '#missing-key':
            return 'key %s is used before it is known to be there' % show(v.a[1])
        if v.op == 'exc' and not v.a[0].endswith('ConfigurationException'):
            return 'a bad document raises %s instead of a configuration error' % v.a[0]
        return None
    c.judge('document', I_, ps, f)
    d = dom(Z, 'seq', 1)
    z = T('el', d)
    ls = [L for L in I_.loops if L['dom'] is d]

    def it(o, s):
        if not o(T('has', z, C('pids'))) or o(isempty(K_(z, 'pids'))):
            return 'a zone without controllers is accepted'
        return None
    for L in ls:
        c.judge_loop('zones', I_, L, it)

    def rej(o, s):
        if s.sig != 'thr':
            return None
        if okdoc(o):
            if ls:
                a = mkany(d, lnot(land(T('has', z, C('pids')), lnot(isempty(K_(z, 'pids'))))))
                if not o(a):
                    return 'a valid document is rejected'
        return None
    c.judge('valid-accepted', I_, ps, rej)
    if not ls:
        def q(o, s):
            if s.sig == 'ret' and o(mkany(d, lnot(land(T('has', z, C('pids')), lnot(isempty(K_(z, 'pids'))))))):
                return 'a document with a zone without controllers is accepted'
            return None
        c.judge('zones', I_, ps, q)

    I2, p2 = c.run('parseValidateJson', opaque={'validateJson'}, throws={'validateJson'})

    def g(o, s):
        vs = only_(s, 'validateJson')
        if s.sig == 'thr':
            return None
        if not vs:
            return 'the document is returned without having been validated'
        arg = vs[-1].a[3][0]
        while arg.op == 'addr' and arg.a[0].op == 'val':
            arg = arg.a[0].a[0]
        if opaque(s.val):
            return ('undecided', show(s.val)[:100])
        r = c.expect(o, arg, s.val, 'the document validated', vs[-1])
        if r:
            return r
        for a, b in s.facts.lits.items():
            if a.op == 'ok' and 'validateJson' in show(a) and not b:
                return 'a document is returned although its validation failed'
        return None
    c.judge('parsed-and-validated', I2, p2, g)
    open_rule(c, I2, p2)


def only_(s, name):
    return [e for e in s.eff if e.op == 'e' and e.a[1].split('::')[-1] == name]


def open_rule(c, I2, p2):
    """what is validated is the named file's contents; a file that cannot be
    opened or parsed raises a configuration error like any other bad document"""
    def g(o, s):
        if s.sig == 'thr':
            v = s.val
            if v.op == 'exc' and v.a[0] in ('nlohmann::json::parse_error', '#missing-key'):
                return 'an unreadable document raises %s instead of a configuration error' % v.a[0]
            if v.op == 'exc' and not v.a[0].endswith('ConfigurationException') and v.a[0] != '?':
                return ('undecided', 'throws %s' % v.a[0])
            return None
        v = o.val(s.val)
        if v.op != 'json':
            return ('undecided', 'the document is %s' % show(v)[:100])
        if v.a[0].op == 'mut' and v.a[0].a[0] == 'comments':
            return 'a file with comments, which is no JSON document, is accepted'
        if argsym(0) not in set(walk(v)) and ploc(I2, 0) not in set(walk(v)):
            if opaque(v):
                return ('undecided', 'the document is %s' % show(v)[:100])
            return 'the document is not read from the path asked for but is %s' % show(v)[:100]
        for a, b in s.facts.lits.items():
            if not b and a.op == 'has' and a.a[1] is C('#ok') and a.a[0].op == 'get' and a.a[0].a[0] in ('is_open', 'good'):
                return 'a document is accepted although its file could not be opened'
            if b and a.op == 'has' and a.a[1] is C('#is_discarded'):
                return 'a document is accepted although it did not parse'
        return None
    c.judge('file-opened-and-parsed', I2, p2, g)
