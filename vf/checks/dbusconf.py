"""D-Bus configuration: attributes, stepwise tables, zone numbers, profiles, fan pairing."""
from ..spec import *
from ..extract import Broken
from ..interp import is_arith
from .roles import *
from .config import K_

PIDI = 'xyz.openbmc_project.Configuration.Pid'
ZONEI = 'xyz.openbmc_project.Configuration.Pid.Zone'
STEPI = 'xyz.openbmc_project.Configuration.Stepwise'
VALI = 'xyz.openbmc_project.Sensor.Value'
PWMI = 'xyz.openbmc_project.Control.FanPwm'


def num_(b, k):
    return T('visit', 'VariantToDoubleVisitor', K_(b, k))


def get_(ty, b, k):
    return T('vget', ty, K_(b, k))


def odef(b, k, v, d):
    return ite(T('has', b, C(k)), v, d)


def numnorm(t):
    """a number read through any arithmetic visitor"""
    return subst(t, lambda y: T('visit', 'num', numnorm(y.a[1])) if y.op == 'visit' and y.a[0] != 'num' else None)


def cmpf(c, o, got, want, name):
    return c.expect(o, numnorm(o.val(got)), numnorm(o.val(want)), name)


def by_type(f, *subs):
    """index of the parameter whose type mentions all of subs"""
    r = [i for i, p in enumerate(f['params']) if all(s in p['t'] for s in subs)]
    if len(r) != 1:
        raise Broken('%s: no single parameter of type %s' % (f['n'], subs))
    return r[0]


PID_NUM = {('pidInfo', 'proportionalCoeff'): 'PCoefficient', ('pidInfo', 'integralCoeff'): 'ICoefficient',
           ('pidInfo', 'feedFwdOffset'): 'FFOffCoefficient', ('pidInfo', 'feedFwdGain'): 'FFGainCoefficient',
           ('pidInfo', 'integralLimit', 'max'): 'ILimitMax', ('pidInfo', 'integralLimit', 'min'): 'ILimitMin',
           ('pidInfo', 'outLim', 'max'): 'OutLimitMax', ('pidInfo', 'outLim', 'min'): 'OutLimitMin',
           ('pidInfo', 'slewNeg'): 'SlewNeg', ('pidInfo', 'slewPos'): 'SlewPos'}
PID_OPT = {('failSafePercent',): 'FailSafePercent', ('pidInfo', 'negativeHysteresis'): 'NegativeHysteresis',
           ('pidInfo', 'positiveHysteresis'): 'PositiveHysteresis', ('pidInfo', 'derivativeCoeff'): 'DCoefficient'}
MAND = set(PID_NUM.values()) | {'Class'}


def fpath(v, p):
    for f in p:
        v = getf(v, f)
    return v


def pid_attributes(c, cfg=0):
    P = c.P(cfg)
    f = P.fn('dbus_configuration::populatePidInfo')
    if not f:
        raise Broken('populatePidInfo not found')
    ii = by_type(f, 'ControllerInfo')
    bi = by_type(f, 'std::variant')
    ti = by_type(f, 'string *')
    si = by_type(f, 'SensorConfig')
    I_, ps = c.run(f, cfg, opaque={'getService', 'getProperty'}, throws={'getService', 'getProperty'}, impure={'getProperty'})
    b, thr, sc = argsym(bi), argsym(ti), argsym(si)
    cls = get_('std::string', b, 'Class')
    fan = eq(cls, C('fan'))
    info0 = argsym(ii)
    tname = T('rd', T('D', thr))

    def ok(o, s):
        if s.sig != 'ret':
            return None
        for k in sorted(MAND):
            if not o(T('has', b, C(k))):
                return 'a controller without %s is accepted' % k
        if not o(fan) and not o(T('has', b, C('SetPoint'))):
            return 'a controller without SetPoint is accepted'
        v = s.load(ploc(I_, ii))
        r = c.expect(o, getf(v, 'type'), cls, 'the controller type')
        if r:
            return r
        for p, k in sorted(PID_NUM.items()):
            r = cmpf(c, o, fpath(v, p), num_(b, k), '.'.join(p))
            if r:
                return r
        for p, k in sorted(PID_OPT.items()):
            r = cmpf(c, o, fpath(v, p), odef(b, k, num_(b, k), ZERO), '.'.join(p))
            if r:
                return r
        k = 'CheckHysteresisWithSetpoint'
        r = c.expect(o, fpath(v, ('pidInfo', 'checkHysterWithSetpt')), odef(b, k, get_('bool', b, k), FALSE), k)
        if r:
            return r
        r = c.expect(o, getf(v, 'inputs'), getf(info0, 'inputs'), 'the input list')
        if r:
            return r
        # setpoint and threshold
        base = ite(fan, ZERO, num_(b, 'SetPoint'))
        sp = getf(v, 'setpoint')
        reads = [e for e in s.eff if e.op == 'e' and e.a[1] == 'getProperty']
        if o(isnull(thr)):
            if reads:
                return ('a controller without offset reads a threshold', reads[0])
            return cmpf(c, o, sp, base, 'the setpoint')
        path = getf(K_(sc, getf(T('at', getf(info0, 'inputs'), ZERO), 'name')), 'readPath')
        front = getf(K_(sc, getf(T('front', getf(info0, 'inputs')), 'name')), 'readPath')
        warn = lor(eq(tname, C('WarningHigh')), eq(tname, C('WarningLow')))
        iface = ite(warn, C('xyz.openbmc_project.Sensor.Threshold.Warning'),
                    C('xyz.openbmc_project.Sensor.Threshold.Critical'))
        tried = [a for a in s.facts.lits if a.op == 'ok' and a.a[0].a[0] == 'getProperty']
        if not tried:
            return ('undecided', 'no threshold read') if any(x.op in ('opq', 'part') for x in walk(sp)) else \
                'the threshold of an offset controller is not read'
        for a in tried:
            args = a.a[0].a[2]
            if len(args) != 5:
                return ('undecided', 'getProperty arguments')
            sv, pa, ifc, prop, _ = args
            if o.val(pa) not in (o.val(path), o.val(front)):
                return ('undecided', show(pa)[:90]) if opaque(pa) else \
                    'the threshold is read from %s, not from the first input' % show(pa)[:120]
            r = c.expect(o, ifc, iface, 'the threshold interface') or c.expect(o, prop, tname, 'the threshold property')
            if r:
                return r
            sv = o.val(sv)
            if sv.op == 'get' and sv.a[0] == 'getService':
                r = c.expect(o, sv.a[2][0], iface, 'the interface of the service lookup')
                if r:
                    return r
                if o.val(sv.a[2][1]) is not o.val(pa):
                    return 'the service is looked up for %s' % show(sv.a[2][1])[:100]
        if not reads:
            return cmpf(c, o, sp, base, 'the setpoint when the threshold cannot be read')
        if len(reads) > 1:
            return ('undecided', 'several threshold reads')
        d = sub(numnorm(o.val(sp)), numnorm(o.val(base)))
        if d.op == 'out' and d.a[0] == 'getProperty':
            return None
        if opaque(d):
            return ('undecided', show(d)[:150])
        return 'the setpoint is %s, required the configured one plus the threshold' % show(o.val(sp))[:200]
    c.judge('pid-attributes', I_, ps, ok)

    def rej(o, s):
        if s.sig != 'thr':
            return None
        if not all(o(T('has', b, C(k))) for k in sorted(MAND)) or not o(fan) and not o(T('has', b, C('SetPoint'))):
            return None
        v = s.val
        if v.op == 'exc' and v.a[0] in ('?',):
            return None
        if v.op == 'exc' and v.a[0] == 'std::out_of_range' and v.a[1].op != 'c':
            return None
        if any(x.op == 'ok' and not bb for x, bb in s.facts.lits.items()):
            return None
        if opaque(v):
            return ('undecided', show(v)[:100])
        return 'the load is aborted (%s) although every required attribute is there' % show(v)[:150]
    c.judge('optional-attributes', I_, ps, rej)


def visitor(c, cfg=0):
    """numbers of any width are taken as they are, everything else is an error"""
    P = c.P(cfg)
    fs = [f for f in P.find('VariantToDoubleVisitor::operator()') if f.get('body')]
    if not fs:
        return
    for f in fs:
        t = base_t(f['params'][0]['t'])
        I_, ps = c.run(f, cfg)
        ar = t in ('double', 'float') or is_arith(t)

        def r(o, s, ar=ar, I_=I_):
            if not ar:
                return None if s.sig == 'thr' else 'a non-numeric attribute is accepted as a number'
            if s.sig != 'ret':
                return 'a numeric attribute is rejected'
            v = o.val(s.val)
            a = argsym(0)
            while v.op in ('icast', 'int', 'fcast') and v is not a:
                v = v.a[-1]
            return c.expect(o, v, a, 'the number read from an attribute')
        c.judge('number-visitor', I_, ps, r, 'VariantToDoubleVisitor(%s)' % t)


class Init:
    def __init__(self, c, cfg):
        self.c, self.cfg = c, cfg
        P = c.P(cfg)
        f = P.fn('dbus_configuration::init')
        if not f:
            raise Broken('dbus_configuration::init not found')
        self.f = f
        self.I, self.ps = c.run(f, cfg, opaque={'populatePidInfo', 'spliceInputs', 'getZoneIndex', 'setZoneIndex',
                                                'createMatches', 'getSelectedProfiles', 'debugPrint', 'getSensorPath',
                                                'getPIDAttribute_'},
                                throws={'populatePidInfo'}, thr_forget=True)
        self.sens = ploc(self.I, by_type(f, 'SensorConfig'))
        self.zone = ploc(self.I, by_type(f, 'map', 'ControllerInfo') if any('ControllerInfo' in p['t'] for p in f['params'])
                         else by_type(f, 'PIDConf'))
        self.det = ploc(self.I, by_type(f, 'ZoneConfig'))
        # judge the last analysis of each loop body in each context
        self.loops = self.I.loops

    def el_cfg(self, L):
        """interfaces of the configuration object of the iteration"""
        d = L['dom']
        if d is None:
            return None
        return getf(T('el', d), 'second') if d.a[0] == 'map' else None


def unwide(t):
    """strip conversions that keep every value of 64 bits"""
    while t.op == 'int' or t.op == 'icast' and wide(t.a[0]):
        t = t.a[-1]
    return t


def wide(ty):
    ty = str(ty)
    return any(x in ty for x in ('long', '64', 'size_t'))


def zonekey(k):
    """the name a zone number was asked for"""
    if k.op == 'res' and k.a[0] in ('getZoneIndex', 'setZoneIndex') and k.a[2]:
        return k.a[2][0]
    return None


def iface_of(t, i):
    """is t the attributes of interface i of a configuration object"""
    return t.op == 'at' and t.a[1] is C(i)


def zone_rules(c, N):
    I_ = N.I
    rec = c.P(N.cfg).rec('ZoneConfig')
    if not rec:
        raise Broken('ZoneConfig not found')
    n = 0
    for L in N.loops:
        ph = None
        if L['dom'] is None or L['dom'].a[0] != 'map' or not touches(L['M'], N.det):
            continue
        cfgm = N.el_cfg(L)
        Z = K_(cfgm, ZONEI)
        n += 1

        def f(o, s):
            if s.sig:
                return None
            v = head(o, s.load(N.det))
            isz = o(T('has', cfgm, C(ZONEI)))
            while v.op == 'upd' and v.a[0].op == 'upd' and v.a[0].a[1] is v.a[1]:
                v = T('upd', v.a[0].a[0], v.a[1], v.a[2])
            if v.op == 'phi':
                return 'a zone object leaves no zone' if isz else None
            if v.op != 'upd':
                return ('undecided', show(v)[:150])
            if not isz:
                return 'zone details are changed by an object that is no zone'
            nm = zonekey(v.a[1])
            if nm is None:
                k = v.a[1]
                if any(y.op in ('res', 'out') and y.a[0] in ('getZoneIndex', 'setZoneIndex') for y in walk(k)) and k.op in (
                        'bits', 'icast', 'lin', 'sum', 'add', 'mul', 'cond'):
                    return 'the details of a zone are kept under %s, not under its number' % show(k)[:80]
                return ('undecided', 'zone number ' + show(v.a[1])[:100])
            if o.val(nm) is not get_('std::string', Z, 'Name'):
                return ('undecided', show(nm)[:100]) if opaque(nm) else 'the zone is numbered by %s, not by its name' % show(nm)[:120]
            r = v.a[2]
            old = r
            while old.op == 'rec':
                old = old.a[0]
            for k in ('MinThermalOutput',):
                if not o(T('has', Z, C(k))):
                    return 'a zone without %s is accepted' % k
            e = cmpf(c, o, getf(r, 'minThermalOutput'), num_(Z, 'MinThermalOutput'), 'minThermalOutput')
            e = e or cmpf(c, o, getf(r, 'failsafePercent'), odef(Z, 'FailSafePercent', num_(Z, 'FailSafePercent'), ZERO),
                          'failsafePercent')
            e = e or c.expect(o, getf(r, 'accumulateSetPoint'),
                              odef(Z, 'AccumulateSetPoint', get_('bool', Z, 'AccumulateSetPoint'), FALSE), 'accumulateSetPoint')
            if e:
                return e
            ct = getf(r, 'cycleTime')
            for fl, k in (('cycleIntervalTimeMS', 'CycleIntervalTimeMS'), ('updateThermalsTimeMS', 'UpdateThermalsTimeMS')):
                g = o.val(getf(ct, fl))
                x = num_(Z, k)
                given = o(T('has', Z, C(k))) and not o(lt(x, C(1)))
                g2 = unwide(g)
                reads = any(y is K_(Z, k) or y.op == 'visit' and y.a[1] is K_(Z, k) for y in walk(g))
                other = [y for y in walk(g) if y.op == 'visit' and y.a[1].op == 'at' and y.a[1].a[0] is Z
                         and y.a[1].a[1] is not C(k)]
                if other:
                    return '%s is taken from %s' % (fl, show(other[0].a[1].a[1]))
                if given:
                    if numnorm(g2) is numnorm(x):
                        continue
                    inner = g2
                    while inner.op in ('icast', 'int'):
                        inner = inner.a[-1]
                    if numnorm(inner) is numnorm(x):
                        return '%s is narrowed to %s' % (fl, show(g2.a[0])[:40])
                    if opaque(g):
                        return ('undecided', show(g)[:120])
                    return '%s is %s although %s is given' % (fl, show(g)[:150], k)
                if reads:
                    return '%s takes the invalid %s instead of the default' % (fl, k)
                olds = o.val(fpath(old, ('cycleTime', fl)))
                if g is not olds and not (g.op == 'c'):
                    return ('undecided', show(g)[:120])
                if g.op == 'c' and g is not C({'cycleIntervalTimeMS': 100, 'updateThermalsTimeMS': 1000}[fl]):
                    return 'the default of %s is %s' % (fl, show(g))
            return None
        c.judge_loop('zone-attributes', I_, L, f)
    if not n:
        c.undec('zone-attributes', 'no loop over the configurations fills the zone details')


REQ = {'Name', 'MinThermalOutput', 'Class', 'Zones', 'Inputs', 'Outputs', 'Reading', 'Output'}


def required_rules(c, N):
    """an attribute that is not there aborts the load only when it is a required one"""
    for L in N.loops:
        for lits, s in L['exits']:
            v = s.val
            if s.sig != 'thr' or v is None or v.op != 'exc':
                continue
            k = None
            if v.a[0] in ('std::out_of_range', '#missing-key') and v.a[1].op == 'c':
                k = v.a[1].a[1]
            elif v.a[1].op == 'make' and len(v.a[1].a) > 1 and v.a[1].a[1].op == 'c' and \
                    str(v.a[1].a[1].a[1]).startswith('missing attribute '):
                k = str(v.a[1].a[1].a[1])[18:]
            if k is None:
                continue
            where = (L['file'], L['line'], L['fn'])
            if k not in REQ:
                c.viol('required-attributes', where, 'an absent %s, which is optional, aborts the load' % k)
            else:
                c.ok('required-attributes', '%s at line %s' % (k, L['line']))


VS = 'std::vector<std::string>'
VD = 'std::vector<double>'
THERMALS = ('temp', 'margin', 'power', 'powersum')


def base_of(s, iface):
    """the attributes of interface `iface` of the object this path is about"""
    r = {a.a[0] for a, b in s.facts.lits.items() if b and a.op == 'has' and iface_of(a.a[0], iface) and
         a.a[1] in (C('Inputs'), C('Zones'), C('Name'))}
    return r.pop() if len(r) == 1 else None


def ctx(s):
    """('stepwise'|'pid', attributes) of the controller this path builds"""
    sb, pb = base_of(s, STEPI), base_of(s, PIDI)
    if sb is not None and s.facts.lits.get(T('has', sb, C('Inputs'))):
        return 'stepwise', sb
    if pb is not None and s.facts.lits.get(T('has', pb, C('Inputs'))):
        return 'pid', pb
    return None, None


def unt(o, v):
    """drop touches (an entry rewritten with itself or created with its default)"""
    v = head(o, v)
    while v.op == 'upd':
        x = head(o, v.a[2])
        if not (x.op == 'at' and x.a[1] is v.a[1] or x.op == 'empty'):
            break
        v = head(o, v.a[0])
    return v


def dbusname(t):
    return T('mut', 'replace', t, (C(32), C(95)))


def zone_el(L, iface):
    """(attributes, element) when L runs over the zones of a controller"""
    d = L['dom']
    if d is None:
        return None
    el = T('el', d)
    c0 = d.a[1]
    if d.a[0] == 'range':
        hi = c0.a[1]
        if hi.op != 'size':
            return None
        c0, el = hi.a[0], getat(hi.a[0], el)
    if c0.op == 'vget' and c0.a[1].op == 'at' and c0.a[1].a[1] is C('Zones') and iface_of(c0.a[1].a[0], iface):
        return c0.a[1].a[0], el
    return None


def about_iface(a):
    """does a quantified fact ask for the Value interface of its elements"""
    t = a.a[1]
    while t.op == 'not' or t.op == 'ite' and t.a[1].op == 'c' and t.a[2].op == 'c':
        t = t.a[0]
    return t.op in ('eq', 'eqc') and any(y is C(VALI) or y == VALI for y in t.a)


def paths_in(t):
    return {y for y in walk(t) if y.op == 'sel' and y.a[1] == 'first'}


def sensor_rules(c, N):
    n = 0
    for L in N.loops:
        if not touches(L['M'], N.sens):
            continue
        n += 1
        d = L['dom']
        overifs = d is not None and d.a[0] == 'seq' and d.a[1].op in ('fold', 'comp', 'catl', 'union') and \
            not (d.a[1].op == 'vget')

        def f(o, s, L=L, overifs=overifs):
            if s.sig not in (None, 'cont'):
                return None
            kind, B = ctx(s)
            if kind is None:
                return None
            cls = get_('std::string', B, 'Class')
            v = unt(o, s.load(N.sens))
            fan = kind == 'pid' and o(eq(cls, C('fan')))
            if v.op == 'phi':
                if overifs and kind == 'pid' and not fan and any(o(eq(cls, C(t))) for t in THERMALS) and \
                        any(y is K_(B, 'Inputs') for y in walk(L['dom'].a[1])):
                    return 'an input of a thermal controller is not registered as a sensor'
                return None
            ents = []
            while v.op == 'upd':
                ents.append((v.a[1], v.a[2]))
                v = o.val(v.a[0])
            if v.op != 'phi':
                return None
            uaf = odef(B, 'InputUnavailableAsFailed', get_('bool', B, 'InputUnavailableAsFailed'), TRUE)
            ifh = odef(B, 'IgnoreFailIfHostOff', get_('bool', B, 'IgnoreFailIfHostOff'), FALSE)
            for key, r in ents:
                rp = o.val(getf(r, 'readPath'))
                if fan:
                    e = c.expect(o, getf(r, 'type'), cls, 'the type of a fan sensor') or \
                        c.expect(o, getf(r, 'max'), C(255), 'the maximum of a fan sensor') or \
                        c.expect(o, getf(r, 'min'), ZERO, 'the minimum of a fan sensor')
                    if e:
                        return e
                else:
                    e = c.expect(o, getf(r, 'type'), C('temp') if kind == 'stepwise' else cls, 'the sensor type')
                    for fl, w in (('timeout', ZERO), ('ignoreDbusMinMax', TRUE), ('unavailableAsFailed', uaf),
                                  ('ignoreFailIfHostOff', ifh)):
                        e = e or c.expect(o, getf(r, fl), w, 'sensor setting %s' % fl)
                    if e:
                        return e
                    if rp.op in ('get', 'res') and rp.a[0] == 'getSensorPath':
                        e = c.expect(o, rp.a[2][0], getf(r, 'type'), 'the type in the path of an absent sensor') or \
                            c.expect(o, rp.a[2][1], key, 'the name in the path of an absent sensor')
                        if e:
                            return e
                    else:
                        ks = paths_in(key)
                        if not opaque(rp) and not opaque(key) and rp.op == 'sel' and ks and rp not in ks:
                            return 'sensor %s reads from %s' % (show(key)[:120], show(rp)[:120])
                # the same name is handed on as an input of the controller
                if not any(o.val(s.load(l)) is T('push', T('phi', l, p.a[1]), key) for l in L['M']
                           for p in [y for y in s.load(l) and walk(s.load(l)) if y.op == 'phi' and y.a[0] is l][:1]):
                    vs = [o.val(s.load(l)) for l in L['M'] if l is not N.sens]
                    if any(opaque(x) for x in vs):
                        return ('undecided', 'names of the inputs')
                    return 'sensor %s is configured but not handed on as an input' % show(key)[:120]
            return None
        c.judge_loop('sensor-settings', N.I, L, f)
    if not n:
        c.undec('sensor-settings', 'no loop registers sensors')


def splice_rules(c, N):
    """inputs of the controllers"""
    P = c.P(N.cfg)
    sp = P.fn('spliceInputs')
    pp = P.fn('dbus_configuration::populatePidInfo')
    bi, ti, ii = by_type(pp, 'std::variant'), by_type(pp, 'string *'), by_type(pp, 'ControllerInfo')
    found = {PIDI: 0, STEPI: 0}
    for iface in (PIDI, STEPI):
        for L in N.loops:
            ze = zone_el(L, iface)
            if ze is None:
                continue
            found[iface] += 1
            B, el = ze

            def f(o, s, B=B, el=el, L=L, iface=iface):
                if s.sig == 'brk':
                    return 'the controller is not built for the remaining zones'
                if s.sig not in (None, 'cont'):
                    return None
                es = effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] in ('spliceInputs', 'getZoneIndex'))
                zi = [e for e in es if e.a[1] == 'getZoneIndex']
                spl = [e for e in es if e.a[1] == 'spliceInputs']
                for e in zi:
                    if o.val(e.a[3][0]) is not o.val(el) and not opaque(e.a[3][0]):
                        return ('the zone number is that of %s' % show(e.a[3][0])[:100], e)
                if len(spl) > 1:
                    return ('undecided', 'inputs are spliced several times')
                if not spl:
                    if touches(L['M'], N.zone) and unt(o, s.load(N.zone)).op == 'phi':
                        if any(a.op == 'isempty' and b and any(y is B for y in walk(a)) or a.op in ('any', 'anyu') and not b and any(y is B for y in walk(a)) and not about_iface(a) or
                               a.op == 'phi' and not b for a, b in s.facts.lits.items()):
                            return None
                        return 'a controller with inputs is dropped'
                    return None
                e = spl[0]
                names, mar, mis = e.a[3][:3]
                r = c.expect(o, mar, odef(B, 'TempToMargin', get_(VD, B, 'TempToMargin'), T('empty')), 'the TempToMargin list', e)
                if r:
                    return r
                M = K_(B, 'MissingIsAcceptable')
                if not o(T('has', B, C('MissingIsAcceptable'))):
                    r = c.expect(o, mis, T('empty'), 'the missing-is-acceptable list', e)
                    if r:
                        return r
                else:
                    ms = o.val(mis)
                    if not any(y is M for y in walk(ms)):
                        if opaque(ms) and ms.op not in ('fold', 'while', 'comp'):
                            return ('undecided', show(ms)[:100])
                        return ('the missing-is-acceptable list is %s' % show(ms)[:150], e)
                nm = o.val(names)
                if not any(y is K_(B, 'Inputs') for y in walk(nm)) and not opaque(nm):
                    return ('the inputs are %s' % show(nm)[:150], e)

                def isres(y):
                    return y.op == 'res' and y.a[0] == 'spliceInputs' and (
                        y.a[2] == e.a[3] or all(p is q or o.val(p) is o.val(q) for p, q in zip(y.a[2], e.a[3])))
                v = unt(o, s.load(N.zone))
                if iface == STEPI:
                    if v.op != 'upd':
                        return ('undecided', show(v)[:100])
                    if zonekey(v.a[1]) is None or o.val(zonekey(v.a[1])) is not o.val(el):
                        return 'the controller is added to zone %s' % show(v.a[1])[:100]
                    w = unt(o, v.a[2])
                    if w.op != 'upd':
                        return ('undecided', show(w)[:100])
                    r = c.expect(o, w.a[1], dbusname(get_('std::string', B, 'Name')), 'the controller name')
                    if r:
                        return r
                    inp = head(o, getf(w.a[2], 'inputs'))
                    if not isres(inp):
                        return ('undecided', show(inp)[:100]) if opaque(inp) else \
                            'the inputs of the controller are %s' % show(inp)[:120]
                    return None
                # PID: the settings come from the same object, with a threshold exactly when one is named
                calls = [a.a[0] for a, b in s.facts.lits.items() if a.op == 'ok' and b and a.a[0].a[0] == 'populatePidInfo']
                off = o(T('has', B, C('SetPointOffset')))
                if not off:
                    if len(calls) != 1:
                        return ('undecided', 'calls of populatePidInfo')
                    a = calls[0].a[2]
                    if o.val(a[bi]) is not B:
                        return 'the settings are those of %s' % show(a[bi])[:100]
                    if o.val(a[ti]) is not NULL:
                        return 'a threshold is applied to a controller without SetPointOffset'
                    inp = head(o, getf(a[ii], 'inputs'))
                    if not isres(inp) and not opaque(inp):
                        return 'the inputs of the controller are %s' % show(inp)[:120]
                    if v.op != 'upd':
                        return ('undecided', show(v)[:100])
                    if zonekey(v.a[1]) is None or o.val(zonekey(v.a[1])) is not o.val(el):
                        return 'the controller is added to zone %s' % show(v.a[1])[:100]
                    w = unt(o, v.a[2])
                    if w.op != 'upd':
                        return ('undecided', show(w)[:100])
                    return c.expect(o, w.a[1], dbusname(get_('std::string', B, 'Name')), 'the controller name')
                so = get_('std::string', B, 'SetPointOffset')
                if not any(o(eq(so, C(t))) for t in ('CriticalLow', 'CriticalHigh', 'WarningLow', 'WarningHigh')):
                    return 'an unsupported threshold name is accepted'
                if calls and any(o.val(x.a[2][ti]) is NULL for x in calls):
                    return 'the threshold of an offset controller is ignored'
                return None
            c.judge_loop('controller-inputs', N.I, L, f, exits=True)
    for iface, k in found.items():
        if not k:
            c.undec('controller-inputs', 'no loop over the zones of %s' % iface)
    # one controller per input when a threshold is named
    for L in N.loops:
        d = L['dom']
        if d is None or d.a[0] != 'seq' or d.a[1].op not in ('res', 'get') or d.a[1].a[0] != 'spliceInputs':
            continue
        el = T('el', d)

        def g(o, s):
            if s.sig not in (None, 'cont'):
                return None
            kind, B = ctx(s)
            if kind != 'pid':
                return None
            calls = [a.a[0] for a, b in s.facts.lits.items() if a.op == 'ok' and b and a.a[0].a[0] == 'populatePidInfo']
            if not calls:
                return 'no settings are read for one of the inputs'
            if len(calls) > 1:
                return ('undecided', 'calls of populatePidInfo')
            a = calls[0].a[2]
            if o.val(a[bi]) is not B:
                return 'the settings are those of %s' % show(a[bi])[:100]
            if o.val(a[ti]) is NULL:
                return 'the threshold of an offset controller is ignored'
            inp = o.val(getf(a[ii], 'inputs'))
            last = inp.a[1] if inp.op == 'push' else inp.a[0][-1] if inp.op == 'arrv' else None
            if inp is o.val(d.a[1]):
                return 'every split controller gets all the inputs'
            if last is None or o.val(last) is not o.val(el):
                return ('undecided', show(inp)[:100]) if opaque(inp) else \
                    'the inputs of a split controller are %s' % show(inp)[:120]
            v = unt(o, s.load(N.zone))
            w = unt(o, v.a[2]) if v.op == 'upd' else v
            if w.op != 'upd':
                return ('undecided', show(v)[:100])
            return c.expect(o, w.a[1], getf(el, 'name'), 'the name of a split controller')
        c.judge_loop('split-controllers', N.I, L, g)


def step_rec(o, N, s):
    """controller record a stepwise path ends with"""
    v = unt(o, s.load(N.zone))
    if v.op != 'upd':
        return None
    w = unt(o, v.a[2])
    return w.a[2] if w.op == 'upd' else None


def stepwise_rules(c, N):
    for L in N.loops:
        ze = zone_el(L, STEPI)
        if ze is None:
            continue
        B, el = ze

        def f(o, s, k, B=B):
            if s.sig not in (None, 'cont'):
                return None
            if not effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'spliceInputs'):
                return None
            r = step_rec(o, N, s)
            if r is None:
                return ('undecided', show(s.load(N.zone))[:100])
            sw = getf(r, 'stepwiseInfo')
            if k == 'type':
                return c.expect(o, getf(r, 'type'), C('stepwise'), 'the controller type')
            if k == 'Class':
                return c.expect(o, getf(sw, 'isCeiling'), eq(get_('std::string', B, 'Class'), C('Ceiling')), 'isCeiling')
            return cmpf(c, o, getf(sw, k[0].lower() + k[1:]), odef(B, k, num_(B, k), ZERO), k)
        c.judge_loop('stepwise-attributes', N.I, L, [lambda o, s, k=k, f=f: f(o, s, k=k) for k in
                                                     ('type', 'Class', 'PositiveHysteresis', 'NegativeHysteresis')])


def table_size(c):
    for f in (c.P().rec('StepwiseInfo') or {'fields': ()})['fields']:
        if f['n'] == 'reading' and f.get('arr'):
            return int(f['arr'])
    raise Broken('stepwise table size not found')


def table_rules(c, N):
    from .config import pointat
    n = table_size(c)
    k = T('sym', 'point')
    got = 0
    for L in N.loops:
        ze = zone_el(L, STEPI)
        if ze is None:
            continue
        got += 1
        B, el = ze
        rd, out = get_(VD, B, 'Reading'), get_(VD, B, 'Output')

        def norm(o, s, B=B, rd=rd, out=out):
            if s.sig not in (None, 'cont'):
                return None
            if not effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'spliceInputs'):
                return None
            r = step_rec(o, N, s)
            if r is None:
                return ('undecided', show(s.load(N.zone))[:100])
            if not o(eq(size(rd), size(out))):
                return 'Reading and Output of different size are accepted'
            if o(isempty(rd)) and o(isempty(out)):
                return 'a stepwise table without points is accepted'
            if o(lt(C(n), size(rd))) and o(lt(C(n), size(out))):
                return 'more than %d points are accepted' % n
            if o(lt(k, ZERO)) or not o(lt(k, C(n))):
                return None
            sw = getf(r, 'stepwiseInfo')
            for fl, t in (('reading', rd), ('output', out)):
                x = o.val(pointat(getf(sw, fl), k))
                if o(lt(k, size(t))):
                    e = c.expect(o, x, getat(t, k), 'point k of the %s table' % fl)
                elif o(eq(k, size(t))):
                    e = c.expect(o, x, NAN, 'the entry after the last point of the %s table' % fl)
                else:
                    e = None
                if e:
                    return e
            return None
        c.judge_loop('points', N.I, L, norm)

    if not got:
        c.undec('points', 'no loop over the zones of a stepwise controller')
    # no access outside the tables
    c.bounds('bounds', N.I)


def erases(v, l):
    """one iteration removes an entry of l depending on the profiles of something"""
    if v is None:
        return False
    cs = cases(v)
    return any(y.op in ('del', 'erased') and y.a[0].op == 'phi' and y.a[0].a[0] is l for _, y in cs) and \
        any(a.op == 'has' and a.a[1] is C('Profiles') for k, _ in cs for a, _ in k)


def profile_rules(c, N):
    n = 0
    for L in N.loops:
        hits = False
        for _, s in L['norm']:
            for l in L['M']:
                v = s.load(l)
                hits = hits or erases(v, l)
        if not hits:
            continue
        n += 1

        def f(o, s, L=L):
            if s.sig not in (None, 'cont'):
                return None
            for l in sorted(L['M'], key=lambda t: t.id):
                raw = s.load(l)
                if not erases(raw, l):
                    continue
                X = {y.a[0] for y in walk(raw) if y.op == 'at' and y.a[1] is C('Profiles')}
                if len(X) != 1:
                    return ('undecided', 'profiles of several objects')
                X = X.pop()
                Pv = get_(VS, X, 'Profiles')
                anys = {y for y in walk(raw) if y.op in ('any', 'has') and
                        (y.a[0].a[1] is Pv if y.op == 'any' else y.a[0] is Pv)}
                sel = {y for y in walk(raw) if y.op in ('get', 'res') and y.a[0] == 'getSelectedProfiles'}
                if len(sel) != 1:
                    return ('undecided', 'selected profiles')
                sel = sel.pop()
                if o(isempty(sel)):
                    return 'configurations are dropped although no profile is selected' if \
                        o.val(raw).op in ('del', 'erased') else None
                d = dom(Pv, 'seq', 7)
                m1 = mkany(d, T('has', sel, T('el', d)))
                d2 = dom(sel, 'seq', 7)
                m2 = mkany(d2, T('has', Pv, T('el', d2)))
                # the traversal may be nested at any depth
                m = None
                for a in anys | {y for y in walk(raw) if y.op == 'any' and y.a[0].a[1] is sel}:
                    dd = a.a[0] if a.op == 'any' else d
                    w = mkany(dd, T('has', sel if dd.a[1] is Pv else Pv, T('el', dd)))
                    if w is a:
                        m = a
                got = o.val(raw)
                if m is None:
                    if o(T('has', X, C('Profiles'))) and not o(isempty(Pv)):
                        for a in anys:
                            b = subst(a, lambda y: T('sym', 'S', y.id) if y is sel or y is X or y is Pv else None)
                            if not opaque(b):
                                return 'a profile counts as selected when %s' % show(a)[:160]
                        return ('undecided', 'match of the profiles')
                    matched = False
                else:
                    matched = None
                if not o(T('has', X, C('Profiles'))) or o(isempty(Pv)):
                    drop = False
                else:
                    drop = not o(m)
                isdel = got.op in ('del', 'erased')
                if not isdel and got.op != 'phi':
                    return ('undecided', show(got)[:100])
                if drop and not isdel:
                    return 'a configuration none of whose profiles is selected is kept'
                if isdel and not drop:
                    return 'a configuration that has a selected profile, or none, is dropped'
                # an explicit traversal: what follows is looked at next
                its = [x for x in L['M'] if L['dom'] is None and any(
                    y.op in ('del', 'erased') and y.a[1].op == 'phi' and y.a[1].a[0] is x for y in walk(raw))]
                if its and s.sig is None:
                    it = its[0]
                    nx = o.val(s.load(it))
                    ph = next(y.a[1] for y in walk(raw) if y.op in ('del', 'erased') and y.a[1].op == 'phi')
                    one = sub(nx, T('itnext', ph) if isdel else ph)
                    if one.op == 'c' and one.a[0] == 'i':
                        if one is not (ZERO if isdel else C(1)):
                            return 'the configuration after a %s one is not looked at' % ('dropped' if isdel else 'kept')
            return None
        c.judge_loop('profiles', N.I, L, f)
    if not n:
        c.undec('profiles', 'no loop drops configurations by profile')


def selected_rule(c, cfg=0):
    P = c.P(cfg)
    f = P.fn('getSelectedProfiles')
    if not f:
        return
    I_, ps = c.run(f, cfg, thr_forget=True)
    tm, cur = 'xyz.openbmc_project.Control.ThermalMode', 'Current'
    n = 0

    def fresh(o, s):
        if s.sig != 'ret' or s.val is None:
            return None
        v = o.val(s.val)
        old = [y for y in walk(v) if y.op == 'rd' and y.a[0].op == 'G']
        if old:
            return 'the selected profiles still hold those of an earlier load (%s)' % show(old[0])
        return None
    c.judge('selected-profiles', I_, ps, fresh)
    for L in I_.loops:
        def g(o, s, L=L):
            if s.sig == 'brk':
                return 'the remaining thermal mode objects are not asked'
            for l in L['M']:
                v = o.val(s.load(l))
                if v.op != 'push' or v.a[0].op != 'phi':
                    continue
                x = v.a[1]
                if x.op != 'vget' or x.a[0] != 'std::string':
                    return ('undecided', show(x)[:100]) if opaque(x) else 'a selected profile is %s' % show(x)[:120]
                ap = [y for y in walk(x) if y.op == 'mut' and y.a[0] == 'append']
                cs = [z for y in ap for z in y.a[2] if z.op == 'c'] if ap else []
                if cs and (C(tm) not in cs or C(cur) not in cs):
                    return 'the selected profile is read from %s' % ', '.join(show(z) for z in cs)
            return None
        if any(s.load(l).op == 'push' for _, s in L['norm'] for l in L['M'] if s.load(l) is not None):
            n += 1
            c.judge_loop('selected-profiles', I_, L, g, exits=True)
    if not n:
        c.undec('selected-profiles', 'no loop collects the profiles')


def origin(d):
    """the configuration list a loop's elements were derived from, None when unknown"""
    t = d.a[1]
    for _ in range(12):
        if t.op in ('vget', 'at'):
            return t if t.op == 'at' else t.a[1]
        if t.op in ('comp', 'mcomp', 'compn') and t.a[0].op == 'dom':
            t = t.a[0].a[1]
        elif t.op == 'fold' and t.a and isinstance(t.a[0], T) and t.a[0].op == 'dom':
            t = t.a[0].a[1]
        else:
            return None
    return None


def pair_rules(c, N):
    """fan pids: one pwm for all or one each, of the right interface; wrong interfaces are rejected"""
    n = 0
    for L in N.loops:
        if not touches(L['M'], N.sens):
            continue

        def f(o, s, L=L):
            if s.sig not in (None, 'cont'):
                return None
            kind, B = ctx(s)
            if kind != 'pid' or not o(eq(get_('std::string', B, 'Class'), C('fan'))):
                return None
            v = unt(o, s.load(N.sens))
            if v.op != 'upd' or v.a[0].op != 'phi':
                return None
            r = v.a[2]
            rp, wp = o.val(getf(r, 'readPath')), o.val(getf(r, 'writePath'))
            if rp.op != 'sel' or wp.op != 'sel':
                if opaque(rp) or opaque(wp) or wp.op == 'ite':
                    return ('undecided', show(wp)[:100])
                if option(N.cfg, 'missing') and rp.op == 'get':
                    return None
                return 'a fan reads %s and writes %s' % (show(rp)[:80], show(wp)[:80])
            E, F_ = rp.a[0], wp.a[0]

            def split(t):
                if t.op == 'at':
                    return t.a[0], t.a[1]
                if t.op == 'el':
                    return t.a[0].a[1], T('ix', t.a[0])
                if t.op == 'front':
                    return t.a[0], ZERO
                return None, None
            X, i = split(E)
            Y, j = split(F_)
            if X is None or Y is None:
                return ('undecided', 'pairing of %s' % show(wp)[:100])
            of = lambda t, a: any(y is K_(B, a) for y in walk(t))
            if not of(X, 'Inputs') or of(X, 'Outputs') and X.op != 'fold':
                return 'the fan is read from %s' % show(rp)[:120]
            if not of(Y, 'Outputs'):
                return 'the fan is driven through %s' % show(wp)[:120]
            one = o(eq(size(Y), C(1)))
            if not one and not o(eq(size(X), size(Y))):
                return 'a fan controller whose outputs are neither one nor as many as its inputs is accepted'
            want = ZERO if one else i
            if o.val(j) is not o.val(want) and not (one and o.val(j) is o.val(i) and o(eq(size(X), size(Y)))):
                return 'input %s is driven by output %s' % (show(i), show(j))
            ifc = o.val(getf(F_, 'second'))
            if not o(eq(ifc, C(PWMI))):
                return 'an output that is no PWM control is accepted'
            ks = paths_in(v.a[1])
            if ks and not opaque(v.a[1]) and not (rp in ks):
                return 'fan sensor %s reads from %s' % (show(v.a[1])[:100], show(rp)[:80])
            inkey = set(walk(v.a[1]))
            if wp in inkey and rp not in inkey and rp is not wp and not any(y.op in ('opq', 'part') for y in inkey):
                return 'fans driven by the same output share one sensor, %s' % show(v.a[1])[-100:]
            return None
        before = c.sites
        c.judge_loop('fan-pairing', N.I, L, f)
        n += 1
    if not n:
        c.undec('fan-pairing', 'no loop pairs fans')
    # inputs and missing-acceptable sensors must be sensor objects
    for L in N.loops:
        ze = zone_el(L, PIDI)
        if ze is None:
            continue
        B, el = ze

        def g(o, s, B=B):
            if s.sig not in (None, 'cont'):
                return None
            if not effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'spliceInputs'):
                return None
            for a in ('Inputs', 'MissingIsAcceptable'):
                if a != 'Inputs' and not o(T('has', B, C(a))):
                    continue
                ok = und = False
                for at, b in s.facts.lits.items():
                    if at.op in ('any', 'anyu') and any(y is K_(B, a) for y in walk(at.a[0])):
                        own = subst(at.a[1], lambda y: T('sym', 'E') if y in (T('el', at.a[0]), T('ix', at.a[0])) else None)
                        if any(y is C(VALI) for y in walk(own)) and origin(at.a[0]) in (None, K_(B, a)):
                            d = at.a[0]
                            w = mkany(d, lnot(eq(getf(T('el', d), 'second'), C(VALI))))
                            if at is w and not b:
                                ok = True
                            else:
                                und = True
                if not ok:
                    SB = T('sym', 'B')
                    bare = [subst(at, lambda y: SB if y is B else None) for at in s.facts.lits]
                    if und or any(at.op not in ('any', 'anyu') and opaque(at) and any(y is C(VALI) for y in walk(at)) and
                                  any(y is K_(SB, a) for y in walk(at)) for at in bare):
                        return ('undecided', 'interface check of %s' % a)
                    return 'the interface of the sensors in %s is not checked' % a
            return None
        c.judge_loop('interfaces', N.I, L, g)


def known_name(zs, nm):
    return T('has', zs, nm)


def zone_numbers(c, cfg=0):
    P = c.P(cfg)
    f = P.fn('pid_control::setZoneIndex') or P.fn('setZoneIndex')
    g = P.fn('pid_control::getZoneIndex') or P.fn('getZoneIndex')
    if not f or not g:
        raise Broken('setZoneIndex/getZoneIndex not found')

    def roles_(f):
        zi = by_type(f, 'map')
        ni = [i for i, p in enumerate(f['params']) if 'map' not in p['t'] and 'string' in p['t']]
        xi = [i for i, p in enumerate(f['params']) if 'map' not in p['t'] and 'string' not in p['t']]
        return zi, ni[0], (xi[0] if xi else None)

    def run(f, rule, want0):
        zi, ni, xi = roles_(f)
        I_, ps = c.run(f, cfg)
        zs, nm = argsym(zi), argsym(ni)
        start = argsym(xi) if xi is not None else want0

        def r(o, s):
            if s.sig == 'thr':
                return None
            v = s.val
            m = s.load(ploc(I_, zi))
            if o(T('has', zs, nm)):
                e = c.expect(o, v, getat(zs, nm), 'the number of a known zone')
                mm = unt(o, m)
                if e is None and mm is not zs and not (mm.op == 'upd' and mm.a[0] is zs and mm.a[1] is nm and
                                                       o.val(mm.a[2]) is o.val(getat(zs, nm))):
                    return ('undecided', show(mm)[:100]) if opaque(mm) else 'numbers change for a known zone'
                return e
            # new: remembered under its name
            if m.op == 'ite':
                m = o.val(m)
            if m.op != 'upd' or m.a[0] is not zs or m.a[1] is not nm:
                return ('undecided', show(m)[:100]) if opaque(m) and m.op not in ('upd',) else \
                    'the number of a new zone is not remembered'
            if o.val(m.a[2]) is not o.val(v):
                return 'the number remembered is not the one returned'
            v = o.val(v)
            # v is free: no zone has it
            d = dom(zs, 'map', 1)
            free = False
            for a, b in s.facts.lits.items():
                if a.op == 'any' and a.a[0].a[1] is zs and not b:
                    w = mkany(a.a[0], eq(getf(T('el', a.a[0]), 'second'), v))
                    free = free or w is a
            if v.op == 'while':
                # number tried next: one above, as long as the present one is used
                cond, upds = v.a[1], dict(v.a[2]) if not isinstance(v.a[2], T) else {}
                ph = [y for y in walk(cond) if y.op == 'phi']
                if not ph:
                    return ('undecided', show(v)[:120])
                ph = ph[0]
                nxt = [b for a, b in v.a[2] if a is ph.a[0]]
                if not nxt:
                    return ('undecided', show(v)[:120])
                if nxt[0] is not add(ph, C(1)):
                    return ('undecided', show(nxt[0])[:100]) if opaque(nxt[0]) else \
                        'after a used number %s is tried, not the next one' % show(nxt[0])[:80]
                used = None
                for y in walk(cond):
                    if y.op == 'any' and y.a[0].a[1] is zs:
                        used = y
                if used is None:
                    return ('undecided', show(cond)[:120]) if opaque(cond) else \
                        'the search for a free number does not look at the numbers in use'
                w = mkany(used.a[0], eq(getf(T('el', used.a[0]), 'second'), ph))
                if used is not w:
                    return 'a number counts as used when %s' % show(used)[:120]
                init = next((b for a, b in v.a[3] if a is ph.a[0]), None)
                if init is not None and init.op not in ('phi',) and init is not start and not opaque(init):
                    return 'the search starts at %s' % show(init)[:80]
                if not free and cond is not w:
                    return ('undecided', 'exit of the search')
                return None
            if free:
                return c.expect(o, v, start, 'the first number tried')
            return ('undecided', show(v)[:120]) if opaque(v) else 'zone number %s may be in use already' % show(v)[:100]
        c.judge(rule, I_, ps, r)
    run(f, 'requested-number', None)
    run(g, 'next-number', ZERO)


def zone_use(c, N):
    """requested numbers are granted before any other zone is numbered"""
    calls = 0
    for L in N.loops:
        def f(o, s, L=L):
            es = effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'setZoneIndex')
            for e in es:
                a = e.a[3]
                nm = [x for x in a if x.op == 'vget' and x.a[0] == 'std::string']
                if not nm:
                    continue
                Z = nm[0].a[1].a[0] if nm[0].a[1].op == 'at' else None
                if Z is None or nm[0].a[1].a[1] is not C('Name'):
                    return ('a number is requested for %s' % show(nm[0])[:100], e)
                ix = unwide(a[-1])
                if ix.op == 'icast':
                    return ('the requested number is narrowed: %s' % show(ix)[:100], e)
                if ix is not get_('double', Z, 'ZoneIndex') and not any(y is K_(Z, 'ZoneIndex') for y in walk(ix)):
                    return ('undecided', show(ix)[:100]) if opaque(ix) else \
                        ('zone %s requests number %s' % (show(nm[0])[:60], show(ix)[:100]), e)
            return None
        if any(effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'setZoneIndex') for _, s in L['norm']):
            calls += 1

            cfgm = N.el_cfg(L)

            def g(o, s, cfgm=cfgm):
                es = effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'getZoneIndex')
                if es:
                    return ('a zone is given a free number before all requested numbers are granted', es[0])
                if s.sig == 'brk':
                    return 'the numbers requested by the remaining zones are not granted'
                if cfgm is None or s.sig not in (None, 'cont'):
                    return None
                Z = K_(cfgm, ZONEI)
                if o(T('has', cfgm, C(ZONEI))) and o(T('has', Z, C('ZoneIndex'))) and \
                        o(T('has', T('alt', K_(Z, 'ZoneIndex')), C('double'))) and \
                        not effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] == 'setZoneIndex'):
                    return 'a zone that asks for a number does not get it considered'
                return None
            c.judge_loop('requests', N.I, L, g, exits=True)
            c.judge_loop('requests', N.I, L, f)
    if not calls:
        c.undec('requests', 'no loop requests zone numbers')


def find_rules(c):
    """sensor names resolve to the objects whose path ends in /name, no others"""
    rule = 'resolve'
    I_, ps = c.run('findSensors')
    suffix_ = cat(C('/'), argsym(1))
    anchored = cat(C('/'), argsym(1), C('$'))

    def told(o, s):
        if s.sig != 'ret':
            return 'fails'
        fin = s.load(ploc(I_, 2))
        got = o.val(s.val)
        if o(got) != (not o(isempty(fin))):
            return 'answers %s although %s' % (show(got)[:80], 'nothing matched' if o(isempty(fin)) else 'a sensor matched')
    c.judge(rule, I_, ps, told)
    Ls = [L for L in I_.loops if L['dom'] is not None and L['dom'].a[1] is argsym(0)]
    if not Ls:
        c.undec(rule, 'no loop over the sensors')
    for L in Ls:
        path = getf(T('el', L['dom']), 'first')

        def f(o, s, path=path, L=L):
            tests = []
            for t in list(s.facts.lits) + list(s.store.values()):
                for x in walk(t):
                    if x.op == 'res' and x.a[0] in ('regex_search', 'regex_match') and x.a[2] and x.a[2][0] is path and x not in tests:
                        tests.append(x)
                    elif x.op in ('endswith', 'contains', 'eqk', 'eqc', 'eq', 'startswith', 'strrfind', 'strfind') and path in x.a and x not in tests:
                        tests.append(x)
            if not tests:
                return ('undecided', 'test of the sensor path')
            for x in tests:
                if x.op == 'res':
                    mk = [y for y in x.a[2] if isinstance(y, T) and y.op == 'make' and 'regex' in y.a[0]]
                    if len(mk) != 1 or len(mk[0].a) < 2:
                        return ('undecided', 'pattern %s' % show(x)[:120])
                    pat = mk[0].a[1]
                    flags = mk[0].a[2] if len(mk[0].a) > 2 else C(16)
                    if opaque(pat):
                        return ('undecided', 'pattern %s' % show(pat)[:120])
                    if not (isinstance(cval(flags), int) if flags.op == 'c' else False):
                        return ('undecided', 'pattern flags %s' % show(flags)[:120])
                    if cval(flags) & 1:
                        return 'sensor names are compared without regard to case'
                    want = anchored if x.a[0] == 'regex_search' else cat(C('.*/'), argsym(1))
                    if pat is not want and not (x.a[0] == 'regex_match' and pat is cat(C('.*'), anchored)):
                        return 'a sensor matches when its path matches %s, required a path that ends in /name' % show(pat)[:120]
                elif x.op == 'endswith':
                    if x.a[1] is not suffix_:
                        return 'a sensor matches when its path ends in %s, required /name' % show(x.a[1])[:80]
                elif x.op == 'contains':
                    return 'a sensor matches when its path contains %s, required a path that ends in /name' % show(x.a[1])[:80]
                else:
                    return ('undecided', 'test %s' % show(x)[:120])
            return None
        ss = [s for _, s in L['norm']]
        c.sites += 1
        c.judge(rule, I_, ss, f, '%s loop at %s:%s' % (L['fn'], L['file'], L['line']), (L['file'], L['line'], L['fn']))
        ex = [s for _, s in L['exits'] if s.sig not in ('thr',)]
        if ex:
            c.undec(rule, 'the search stops at the first sensor')


@check('C27')
def c27(c):
    pid_attributes(c)
    find_rules(c)
    visitor(c)
    for cfg in (0, 1):
        N = Init(c, cfg)
        zone_rules(c, N)
        required_rules(c, N)
        sensor_rules(c, N)
        splice_rules(c, N)
        stepwise_rules(c, N)


@check('C28')
def c28(c):
    for cfg in (0, 1):
        table_rules(c, Init(c, cfg))


@check('C45')
def c45(c):
    zone_numbers(c)
    zone_use(c, Init(c, 0))


@check('C48')
def c48(c):
    selected_rule(c)
    for cfg in (0, 1):
        N = Init(c, cfg)
        profile_rules(c, N)
        pair_rules(c, N)
