"""Assembly of zones and controllers from their configuration; input options."""
from ..spec import *
from ..extract import Broken
from .roles import *
from .ipmi import ROOT

ZOPS = {'addFanInput', 'addThermalInput', 'addPidControlProcess', 'addPidFailSafePercent', 'addFanPID', 'addThermalPID',
        'emit_object_added'}
ZD = dom(argsym(0), 'map', 1)
ZE = T('el', ZD)
ZID = getf(ZE, 'first')
CD = dom(getf(ZE, 'second'), 'map', 2)
CE = T('el', CD)
NAME = getf(CE, 'first')
INFO = getf(CE, 'second')
THERMAL = ('temp', 'margin', 'power', 'powersum')


def build_run(c, cfg=0):
    k = ('bz', cfg)
    if not hasattr(c, '_bz'):
        c._bz = {}
    if k not in c._bz:
        c._bz[k] = c.run('buildZones', cfg=cfg, opaque=ZOPS)
    return c._bz[k]


def cloops(I_):
    ls = [L for L in loops_over(I_, getf(ZE, 'second')) if L['dom'] is CD]
    if not ls:
        raise Broken('loop over the controllers of a zone not found in buildZones')
    return ls


def kind_of(o):
    t = getf(INFO, 'type')
    if o(eq(t, C('fan'))):
        return 'fan'
    for x in THERMAL:
        if o(eq(t, C(x))):
            return 'thermal'
    if o(eq(t, C('stepwise'))):
        return 'stepwise'
    return None


def calls_of(s, *ns):
    return effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1] in ns)


def zone_obj(s):
    zs = [l.a[0] for l in s.store if l.op == 'D' and l.a[0].op == 'new' and l.a[0].a[0].endswith('DbusPidZone')]
    return zs[0] if len(zs) == 1 else None


def names_of(t):
    """value denotes the names of the configured inputs, in order"""
    d = dom(getf(INFO, 'inputs'), 'seq', 3)
    return T('comp', d, TRUE, getf(T('el', d), 'name'), T('empty'))


def arg_is(v, w):
    return v is w or v.op == 'addr' and v.a[0].op == 'val' and v.a[0].a[0] is w


def argv(v):
    while v.op in ('move',) or v.op == 'addr' and v.a[0].op == 'val':
        v = v.a[0] if v.op == 'move' else v.a[0].a[0]
    return v


def reg_rule(c, rule, I_, L):
    d3 = dom(getf(INFO, 'inputs'), 'seq', 3)
    el = T('el', d3)

    def f(o, s):
        k = kind_of(o)
        z = zone_obj(s)
        for nm, mine in (('addFanInput', k == 'fan'), ('addThermalInput', k in ('thermal', 'stepwise'))):
            es = calls_of(s, nm)
            if not mine:
                if es:
                    return '%s is called for a controller of another type' % nm, es[0]
                continue
            if not es:
                return 'the inputs of a %s controller are not registered through %s' % (k, nm)
            e = es[0]
            want = T('foreach', d3, T('effs', (T('e', 'call', nm, z, (getf(el, 'name'), getf(el, 'missingIsAcceptable'))),)))
            if len(es) != 1 or e is not want:
                if opaque(e):
                    return ('undecided', show(e)[:200])
                return 'inputs registered as %s, required every input with its own missing-acceptable flag' % show(
                    e)[:200], next(iter(leaf_effs(e)), e)
        return None
    c.judge_loop(rule, I_, L, f)


def registered_inputs(c, rule):
    I_, ps = build_run(c)
    for L in cloops(I_):
        reg_rule(c, rule, I_, L)


@check('C25')
def c25(c):
    """zones and controllers are assembled completely"""
    I_, ps = build_run(c)
    ctl = T('rd', T('D', T('sym', 'x')))

    def ret(o, s):
        if s.sig == 'thr':
            return None
        v = s.val
        z = zone_obj(s)
        want = T('mcomp', ZD, TRUE, ZID, z, T('empty')) if z is not None else None
        if v is want:
            return None
        if v.op == 'mcomp' and v.a[0] is ZD and not opaque(v):
            return 'the returned zones are %s, required each zone under its own id' % show(v)[:300]
        if v.op == 'fold' and v.a[0] is ZD and len(v.a[3]) == 1 and z is not None:
            # one iteration: the zone is stored under some other key
            for cs, x in cases(v.a[3][0][1]):
                if x.op == 'upd' and x.a[0] is T('phi', v.a[1], v.a[2]) and x.a[2] is z and x.a[1] is not ZID:
                    return 'a zone is stored under %s, required its own id' % show(x.a[1])[:200]
        if opaque(v) or v.op not in ('empty', 'upd', 'mcomp'):
            return ('undecided', show(v)[:200])
        return 'the returned zones are %s, required one per configured zone under its own id' % show(v)[:300]
    c.judge('zones-returned', I_, ps, ret)

    fs = conf_fields(c)
    for L in [L for L in loops_over(I_, argsym(0)) if L['dom'] is ZD]:
        def zi(o, s):
            cfg = T('at', argsym(1), ZID) if False else getat(argsym(1), ZID)
            if not o(T('has', argsym(1), ZID)):
                return 'a zone without a zone configuration is accepted'
            z = zone_obj(s)
            if z is None:
                return ('undecided', 'zone object not identified')
            rec = o.val(s.store[T('D', z)])
            for role, want in (('id', ZID), ('min', getf(cfg, 'minThermalOutput')), ('fs', getf(cfg, 'failsafePercent')),
                               ('cycle', getf(cfg, 'cycleTime')), ('acc', getf(cfg, 'accumulateSetPoint'))):
                if role not in fs:
                    c.undec('zone-own-settings', 'field for %s not identified' % role)
                    continue
                r = c.expect(o, getf(rec, fs[role]), want, 'the zone\'s %s' % ROLE[role])
                if r:
                    return r
            pub = calls_of(s, 'emit_object_added')
            if not pub:
                return 'the zone is not published on the bus'
            i = s.eff.index(pub[0])
            if any(x.op == 'e' and x.a[1] in ZOPS - {'emit_object_added'} for y in s.eff[i + 1:] for x in leaf_effs(y)):
                return 'the zone is published before it is complete', pub[0]
            return None
        c.judge_loop('zone-own-settings', I_, L, zi)

    def one(o, s):
        k = kind_of(o)
        z = zone_obj(s)
        fans, thr = calls_of(s, 'addFanPID'), calls_of(s, 'addThermalPID')
        proc, fsp = calls_of(s, 'addPidControlProcess'), calls_of(s, 'addPidFailSafePercent')
        for e in fans + thr + proc + fsp:
            if e.op != 'e':
                return ('undecided', show(e)[:120])
            if e.a[2] is not z:
                return '%s is applied to %s, not to the zone being built' % (e.a[1], show(e.a[2])[:80]), e
        for es, nm in ((fans, 'addFanPID'), (thr, 'addThermalPID')):
            for e in es:
                v = o.val(argv(e.a[3][0]))
                if v is NULL:
                    return 'a null controller is installed with %s' % nm, e
                if v.op != 'new':
                    return ('undecided', show(v)[:120])
        if k is None:
            if fans + thr + proc + fsp:
                return 'a controller of an unknown type is installed', (fans + thr + proc + fsp)[0]
            return None
        mine, other = (fans, thr) if k == 'fan' else (thr, fans)
        if len(mine) != 1 or other:
            return 'a %s controller is added %d times to the %s list and %d times to the other one' % (
                k, len(mine), 'fan' if k == 'fan' else 'thermal', len(other))
        cls = argv(o.val(mine[0].a[3][0])).a[0].split('::')[-1]
        wc = {'fan': 'FanController', 'thermal': 'ThermalController', 'stepwise': 'StepwiseController'}[k]
        if cls != wc:
            return 'a %s controller is built as %s' % (k, cls), mine[0]
        if k == 'fan':
            if proc:
                return 'a control process is created for a fan controller', proc[0]
        else:
            if len(proc) != 1:
                return '%d control processes are created for a %s controller' % (len(proc), k)
            a = proc[0].a[3]
            for i, w, n in ((0, NAME, 'name'), (1, getf(INFO, 'type'), 'type'), (2, getf(INFO, 'setpoint'), 'setpoint')):
                r = c.expect(o, argv(a[i]), w, 'the control process %s' % n, proc[0])
                if r:
                    return r
            d = process_path(c)
            pa = o.val(argv(a[d])) if d is not None and d < len(a) else None
            want = cat(C(ROOT), T('tostr', ZID), C('/'), NAME)
            if pa is not None:
                r = c.expect(o, pa, want, 'the object path of the control process', proc[0])
                if r:
                    return r
        if len(fsp) != 1:
            return 'the failsafe duty of a %s controller is registered %d times' % (k, len(fsp))
        a = fsp[0].a[3]
        r = c.expect(o, argv(a[0]), names_of(None), 'the inputs of the failsafe duty', fsp[0])
        return r or c.expect(o, argv(a[1]), getf(INFO, 'failSafePercent'), 'the failsafe duty', fsp[0])
    for L in cloops(I_):
        c.judge_loop('controller-complete', I_, L, one)
        reg_rule(c, 'inputs-registered', I_, L)
    process_rule(c)


ROLE = {'id': 'id', 'min': 'minimum thermal output', 'fs': 'failsafe percent', 'cycle': 'cycle times',
        'acc': 'accumulate-setpoint option'}


def conf_fields(c):
    """fields of the zone object holding its configuration, found through the getters"""
    out = {}
    for role, g in (('id', 'DbusPidZone::getZoneID'), ('min', 'DbusPidZone::getMinThermalSetPoint'),
                    ('cycle', 'DbusPidZone::getCycleIntervalTime'), ('acc', 'DbusPidZone::getAccSetPoint')):
        f = ret_field(c, g)
        if f is None and role == 'cycle':
            f = '_cycleTime'
        if f:
            out[role] = f
    # the failsafe percent: constructor parameter stored under the field the getter falls back to
    f = nth_field(c, 'DbusPidZone::DbusPidZone', 2)
    if f:
        out['fs'] = f
    return out


def nth_field(c, ctor, i, dflt=None):
    """field a constructor stores its i-th parameter in"""
    m, _, f = ctor_fields(c, ctor)
    return m.get(f['params'][i]['n'], dflt) if i < len(f['params']) else dflt


def process_path(c):
    """position of the object path among addPidControlProcess's parameters"""
    l = [i for i, p in enumerate(c.P().fn('DbusPidZone::addPidControlProcess')['params'])
         if i > 2 and ('string' in p['t'] or 'char' in p['t'])]
    return l[0] if len(l) == 1 else None


def process_rule(c):
    """addPidControlProcess keeps the process under the controller's name; the
    controller lists only ever receive the given controller"""
    for nm, lst in (('addFanPID', '_fans'), ('addThermalPID', '_thermals')):
        I_, ps = c.run('DbusPidZone::' + nm)

        def f(o, s):
            ch = changed(s)
            if len(ch) != 1:
                return 'changes %s' % sorted(ch)
            k, v = next(iter(ch.items()))
            want = T('push', tf(k), (argsym(0)))
            if v.op == 'push' and v.a[0] is tf(k) and argsym(0) in set(walk(v.a[1] if isinstance(v.a[1], T) else v)):
                return None
            return ('undecided', show(v)[:100]) if opaque(v) else 'the controller list becomes %s' % show(v)[:200]
        c.judge('list-' + nm, I_, ps, f)


# ---------------------------------------------------------------- C24
@check('C24')
def c24(c):
    """tuning values reach the controllers"""
    I_, ps = build_run(c)
    P = c.P()
    src = P.rec('pidinfo')
    dst = P.rec('pid_info_t')
    if not src or not dst:
        raise Broken('tuning structures not found')
    sf = leaf_fields(P, src)
    df = leaf_fields(P, dst)
    pinfo = ret_ptr(c, 'PIDController::getPIDInfo')
    sp = ret_field(c, 'PIDController::getSetpoint') or '_setpoint'
    swi = ret_field(c, 'StepwiseController::getStepwiseInfo') or '_stepwise_info'
    cid = ret_field(c, 'PIDController::getID') or '_id'
    fin = nth_field(c, 'FanController::FanController', 1, '_inputs')
    sin = nth_field(c, 'StepwiseController::StepwiseController', 1, '_inputs')
    tin = nth_field(c, 'ThermalController::ThermalController', 1, '_inputs')
    tty = nth_field(c, 'ThermalController::ThermalController', 2, 'type')

    def one(o, s):
        k = kind_of(o)
        if k is None:
            return None
        es = calls_of(s, 'addFanPID', 'addThermalPID')
        if len(es) != 1 or es[0].op != 'e':
            return None
        v = o.val(argv(es[0].a[3][0]))
        if v.op != 'new':
            return None
        rec = o.val(s.store.get(T('D', v), T('rd', T('D', v))))
        r = c.expect(o, getf(rec, cid), NAME, 'the %s controller\'s id' % k)
        if r:
            return r
        if k == 'stepwise':
            r = c.expect(o, getf(rec, swi), getf(INFO, 'stepwiseInfo'), 'the stepwise table')
            return r or c.expect(o, getf(rec, sin), names_of(None), 'the stepwise controller\'s inputs')
        pi = getf(rec, pinfo)
        for p in df:
            got = pi
            for x in p:
                got = getf(got, x)
            if p in sf:
                want = getf(INFO, 'pidInfo')
                for x in p:
                    want = getf(want, x)
                r = c.expect(o, got, want, 'the %s controller\'s %s' % (k, '.'.join(p)))
                if r:
                    return r
            elif any(x is CE for x in walk(got)):
                return 'the %s controller\'s %s is taken from the configuration (%s)' % (k, '.'.join(p), show(got)[:120])
        if k == 'fan':
            return c.expect(o, getf(rec, fin), names_of(None), 'the fan controller\'s inputs')
        r = c.expect(o, getf(rec, sp), getf(INFO, 'setpoint'), 'the thermal controller\'s setpoint')
        r = r or c.expect(o, getf(rec, tin), getf(INFO, 'inputs'), 'the thermal controller\'s inputs')
        if r:
            return r
        t = getf(INFO, 'type')
        ev = P.enums.get('pid_control::ThermalType') or next((v for q, v in P.enums.items() if q.endswith('ThermalType')), None)
        from .pid import enum_vals
        ev = enum_vals(ev)
        want = 'margin' if o(eq(t, C('margin'))) else 'summation' if o(eq(t, C('powersum'))) else 'absolute'
        return c.expect(o, getf(rec, tty), C(ev[want]), 'the thermal controller\'s selection mode')
    for L in cloops(I_):
        c.judge_loop('controller-settings', I_, L, one)


def leaf_fields(P, r, pre=()):
    out = []
    for f in r['fields']:
        sub_ = P.rec(f['t'].split('::')[-1].replace('const ', ''))
        if sub_ and sub_.get('fields') and 'std::' not in f['t']:
            out += leaf_fields(P, sub_, pre + (f['n'],))
        else:
            out.append(pre + (f['n'],))
    return out


def ret_ptr(c, fn):
    I_, ps = c.run(fn)
    s = one_ret(ps)
    if s is not None and s.val.op == 'addr' and s.val.a[0].op == 'F':
        return s.val.a[0].a[1]
    raise Broken('%s does not return the address of a field' % fn)


# ---------------------------------------------------------------- C26
@check('C26')
def c26(c):
    """spliceInputs and splitNames"""
    I_, ps = c.run('spliceInputs')
    c.bounds('bounds', I_)
    names, margins, miss = argsym(0), argsym(1), argsym(2)
    d = dom(names, 'seq', 1)
    el, ix = T('el', d), T('ix', d)

    def f(o, s):
        if s.sig != 'ret':
            return 'splicing the inputs does not return'
        v = o.val(s.val)
        if v is names or opaque(v):
            return ('undecided', show(v)[:200])
        if not (v.op == 'comp' and len(v.a) == 4):
            if v.op == 'empty':
                return None if o(isempty(names)) else 'no input at all is returned'
            return ('undecided', show(v)[:200])
        if v.a[3].op != 'empty':
            return ('undecided', show(v)[:200])
        if v.a[0] is not d or v.a[1] is not TRUE:
            return 'the inputs returned are %s, required one for every configured name, in order' % show(v)[:200]
        x = v.a[2]
        here = o(lt(ix, size(margins)))
        for fl, w, n in (('name', el, 'the name of the i-th input'),
                         ('convertTempToMargin', C(here), 'whether the i-th input is converted to a margin'),
                         ('convertMarginZero', getat(margins, ix) if here else NAN, 'the zero point of the i-th input'),
                         ('missingIsAcceptable', T('has', miss, el), 'whether the i-th input may be missing')):
            if fl == 'convertMarginZero' and not here:
                continue
            r = c.expect(o, getf(o.val(x), fl), w, n)
            if r:
                return r
        return None
    c.judge('options-paired', I_, ps, f)
    I2, p2 = c.run('splitNames')
    d2 = dom(argsym(0), 'seq', 1)

    def g(o, s):
        return c.expect(o, s.val, T('comp', d2, TRUE, getf(T('el', d2), 'name'), T('empty')), 'the list of names')
    c.judge('split-names', I2, p2, g)
