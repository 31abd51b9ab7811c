"""The tables classifying sensor and controller types."""
from ..spec import *
from ..extract import Broken

THERMAL = ('temp', 'margin', 'power', 'powersum')
KNOWN = ('fan',) + THERMAL
U = 'xyz.openbmc_project.Sensor.Value.Unit.'
UNIT = {'fan': U + 'RPMS', 'temp': U + 'DegreesC', 'margin': U + 'DegreesC', 'power': U + 'Watts', 'powersum': U + 'Watts'}
LAYER = {'fan': 'fan_tach', 'temp': 'temperature', 'margin': 'temperature', 'power': 'power', 'powersum': 'power'}
RULE = {'margin': 'margin', 'temp': 'absolute', 'power': 'absolute', 'powersum': 'summation'}
CLASS = {'temp': 'Temperature', 'margin': 'Margin', 'power': 'Power', 'powersum': 'PowerSum'}


def which(o, t):
    """the documented type the string t is on this path, None for any other"""
    for k in KNOWN:
        if o(eq(t, C(k))):
            return k
    return None


def table(c, rule, fn, i, want, cfg=0):
    """judge every outcome of fn by the type its i-th parameter is"""
    fs = [f for f in c.P(cfg).find(fn) if f.get('body')]
    if not fs:
        c.undec(rule, fn + ' is not defined')
        return
    for f in fs:
        I_, ps = c.run(f, cfg)

        def r(o, s):
            t = s.load(ploc(I_, i))
            if t is not argsym(i) and opaque(t):
                return ('undecided', show(t)[:80])
            return want(o, s, which(o, argsym(i)), I_)
        c.judge(rule, I_, ps, r)


def name(k):
    return 'type "%s"' % k if k else 'an unknown type'


@check('C46')
def c46(c):
    P = c.P()

    def valid(o, s, k, I_):
        if s.sig != 'ret':
            return '%s ends in an exception' % name(k)
        v = o.val(s.val)
        if opaque(v):
            return ('undecided', show(v)[:80])
        if bool(o(v if v.op != 'c' or v.a[0] == 'b' else lnot(eq(v, ZERO)))) != (k is not None):
            return '%s is %s as a sensor type' % (name(k), 'rejected' if k else 'accepted')
        return None
    table(c, 'valid', 'validType', 0, valid)

    def thermal(o, s, k, I_):
        if s.sig != 'ret':
            return '%s ends in an exception' % name(k)
        v = o.val(s.val)
        if opaque(v):
            return ('undecided', show(v)[:80])
        w = k in THERMAL
        if v.op in ('count', 'fold', 'red'):
            g = o(lnot(eq(v, ZERO)))
        else:
            g = o(v if v.op != 'c' or v.a[0] == 'b' else lnot(eq(v, ZERO)))
        if bool(g) != w:
            return '%s is %s a thermal type' % (name(k), 'not' if w else 'taken for')
        return None
    table(c, 'thermal', 'isThermalType', 0, thermal)

    en = next((e for e in P.enums.values() if 'ThermalType' in str(e.get('n'))), None) if isinstance(P.enums, dict) else None
    from .pid import enum_vals
    ev = {}
    for k, e in P.enums.items():
        if k.endswith('ThermalType') or str(e if not isinstance(e, dict) else e.get('n')).endswith('ThermalType'):
            ev = enum_vals(e)

    def comp(o, s, k, I_):
        if k not in RULE:
            if s.sig == 'thr':
                return None if s.val.op == 'exc' and 'ControllerBuildException' in str(s.val.a[0]) else \
                    ('undecided', show(s.val)[:80])
            return '%s gets computation rule %s' % (name(k), show(s.val))
        if s.sig != 'ret':
            return '%s is refused a computation rule' % name(k)
        w = ev.get(RULE[k])
        if w is None:
            return ('undecided', 'enumerator ' + RULE[k])
        return c.expect(o, s.val, C(w), 'the computation rule of %s (%s)' % (name(k), RULE[k]))
    table(c, 'computation', 'getThermalType', 0, comp)

    def unit(o, s, k, I_):
        if s.sig != 'ret':
            return '%s ends in an exception' % name(k)
        return c.expect(o, s.val, C(UNIT.get(k, 'unknown')), 'the unit of %s' % name(k))
    table(c, 'unit', 'getSensorUnit', 0, unit)

    def path(o, s, k, I_):
        if s.sig != 'ret':
            return '%s ends in an exception' % name(k)
        w = cat(C('/xyz/openbmc_project/sensors/%s/' % LAYER.get(k, 'unknown')), s.load(ploc(I_, 1)))
        return c.expect(o, s.val, w, 'the object path of %s' % name(k))
    table(c, 'path', 'getSensorPath', 0, path)

    # the class a thermal process is published with
    fs = [f for f in P.find('DbusPidZone::addPidControlProcess') if f.get('body')]
    for f in fs:
        I_, ps = c.run(f)

        def cls(o, s):
            t = next((i for i, p in enumerate(f['params']) if p['n'] == 'type'), 1)
            k = which(o, argsym(t))
            es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'call' and e.a[1].split('::')[-1] == 'classType' and e.a[3]]
            got = [o.val(e.a[3][0]) for e in es]
            if any(opaque(g) for g in got):
                return ('undecided', show(got[0])[:80])
            w = [C(CLASS[k])] if k in CLASS else []
            if got[-1:] != w:
                return '%s is published as %s, required %s' % (
                    name(k), show(got[-1]) if got else 'nothing', show(w[0]) if w else 'nothing')
            return None
        c.judge('class', I_, ps, cls)

    # an unknown type gets no sensor, before anything is asked of the bus
    for cfg in (0, 1):
        I_, ps = c.run('DbusPassive::createDbusPassive', cfg, opaque={'validType'})
        i = next((j for j, p in enumerate(I_.f['params']) if 'string' in p['t']), 1)

        def rej(o, s):
            va = [a for a in s.facts.lits if a.op in ('get', 'res') and a.a[0].split('::')[-1] == 'validType']
            if not va:
                if s.sig == 'ret' and s.val is NULL:
                    return None
                return 'a sensor is built without looking at its type'
            if argsym(i) not in set(walk(va[0])):
                return ('undecided', show(va[0])[:80])
            if o(va[0]):
                return None
            if s.sig != 'ret' or not o(isnull(s.val)):
                return 'a sensor of an unknown type is built'
            if [e for e in s.eff if e.op == 'e' and e.a[1].split('::')[-1] != 'validType']:
                return 'the bus is asked for a sensor of an unknown type'
            return None
        c.judge('rejected', I_, ps, rej)
