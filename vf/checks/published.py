"""What a zone publishes about its controllers on D-Bus (C52)."""
from ..spec import *
from ..extract import Broken
from .roles import Zone, ret_field, ctor_fields
from .builder import process_path
from .zone import lowest

UPD = 'updateThermalPowerDebugInterface'


@check('C52')
def c52(c):
    z = Zone(c, 0)
    z.need('PROC', 'MAX', 'LEAD', 'ACC', 'MIN', 'CEIL')
    created(c, z)
    routed(c, z)
    output(c)
    selected(c)
    leader(c, z)
    c.include('C25', 'controller-complete')


def created(c, z):
    """every controller has a control object: own path, enabled, its setpoint"""
    I_, ps = c.run('DbusPidZone::addPidControlProcess')
    f = c.P().fn('DbusPidZone::addPidControlProcess')
    pp = process_path(c)
    spi = next((i for i, p in enumerate(f['params']) if p['t'] == 'double'), None)
    if pp is None or spi is None:
        raise Broken('addPidControlProcess: parameters not recognised')
    name = argsym(0)
    path = argsym(pp)

    def g(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        m = o.val(s.load(z.l('PROC')))
        if not o(has(m, name)):
            return 'no control object is kept under the controller\'s name'
        obj = o.val(getat(m, name))
        if obj.op != 'make':
            return ('undecided', show(obj)[:120]) if opaque(obj) or obj.op == 'ite' else 'the control object kept is %s' % show(obj)[:160]
        args = obj.a[1:]
        if not any(x is path for a in args for x in walk(a)):
            return 'the control object is not published at the given path (%s)' % show(obj)[:200]
        k = T('sym', 'k*')
        if not o(eq(k, name)) and (o(has(m, k)) != o(has(z.v('PROC'), k)) or (o(has(m, k)) and not same(o, getat(m, k), getat(z.v('PROC'), k)))):
            return 'the control object of another controller changes'
        for what, want in (('enabled', TRUE), ('setpoint', argsym(spi))):
            es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'call' and e.a[1].split('::')[-1] == what and e.a[3] and o.val(e.a[2]) is obj]
            if not es:
                return 'the control object is published without its %s' % what
            r = c.expect(o, es[-1].a[3][0], want, 'the published %s' % what, es[-1])
            if r:
                return r
        return None
    c.judge('created', I_, ps, g)


def routed(c, z):
    """leader and input, or output, go to the object of the named controller"""
    I_, ps = c.run('DbusPidZone::' + UPD)
    name, lead, inp, out = (argsym(i) for i in range(4))
    obj = getat(z.v('PROC'), name)

    def g(o, s):
        if s.sig == 'thr':
            return None if not o(has(z.v('PROC'), name)) else 'fails although the controller is known'
        want = [('output', out)] if o(isempty(lead)) else [('leader', lead), ('input', inp)]
        got = {}
        for e in s.eff:
            if e.op == 'e' and e.a[0] == 'call' and e.a[1].split('::')[-1] in ('output', 'leader', 'input') and e.a[3]:
                if not same(o, e.a[2], obj):
                    return ('undecided', show(e.a[2])[:100]) if opaque(e.a[2]) else ('published on %s, required the controller\'s own object' % show(e.a[2])[:120], e)
                got[e.a[1].split('::')[-1]] = e
            elif e.op not in ('e', 'use'):
                return ('undecided', show(e)[:100])
        for k, v in want:
            if k not in got:
                return 'the %s is not published' % k
            r = c.expect(o, got[k].a[3][0], v, 'the published %s' % k, got[k])
            if r:
                return r
        for k in got:
            if k not in [x for x, _ in want]:
                return ('%s is overwritten although only %s was given' % (k, ' and '.join(x for x, _ in want)), got[k])
        return None
    c.judge('routed', I_, ps, g)


def upds(s):
    return [e for e in s.eff if e.op == 'e' and e.a[0] == 'call' and e.a[1] == UPD]


def fields(c):
    m, init, f = ctor_fields(c, 'ThermalController::ThermalController')
    pn = [p['n'] for p in f['params']]
    try:
        return tuple(tf(m[p]) for p in pn)
    except KeyError:
        raise Broken('the constructor of ThermalController does not store its arguments')


def output(c):
    idf, inputs, ty, owner = fields(c)
    I_, ps = c.run('ThermalController::outputProc')

    def g(o, s):
        es = [e for e in upds(s) if o.val(e.a[3][1]) is C('') or o(isempty(e.a[3][1]))]
        if not es:
            return 'the output of the pass is not published'
        for e in es:
            r = c.expect(o, e.a[3][0], idf, 'the controller whose output is published', e) or \
                c.expect(o, e.a[3][3], argsym(0), 'the published output', e)
            if r:
                return r
        return None
    c.judge('output', I_, ps, g)


def selected(c):
    """whenever the selection moves on to another input, that input and the value are published"""
    idf, inputs, ty, owner = fields(c)
    I_, ps = c.run('ThermalController::inputProc')
    Ls = [L for L in loops_over(I_, inputs) if any(upds(s) for _, s in L['norm'])]
    if not Ls:
        if any(e.a[1] == UPD for s in ps for x in s.eff for e in (leaf_effs(x) if x.op != 'e' else [x]) if e.op == 'e'):
            c.undec('selected', 'the selection is published outside the loop over the inputs')
        else:
            c.viol('selected', I_.f, 'the selected input is never published')
        return
    for L in Ls:
        el = T('el', L['dom'])
        # the running value: what is published after the iteration
        acc = None
        for _, s in L['norm']:
            for e in upds(s):
                ks = {k for k, v in s.store.items() if v is e.a[3][2]}
                acc = ks if acc is None else (acc & ks or acc)
        acc = sorted(acc or (), key=str)

        def g(o, s, acc=acc, L=L):
            if s.sig not in (None, 'cont'):
                return None
            es = upds(s)
            if es:
                e = es[-1]
                r = c.expect(o, e.a[3][0], idf, 'the controller whose input is published', e) or \
                    c.expect(o, e.a[3][1], getf(el, 'name'), 'the published leader', e)
                if r:
                    return r
                vals = [s.store[k] for k in s.store if any(x.op == 'phi' for x in walk(s.store[k]))]
                if acc:
                    return None if any(same(o, e.a[3][2], s.store[k]) for k in acc if k in s.store) else \
                        ('the value published is %s, not the one selected' % show(o.val(e.a[3][2]))[:120], e)
                got = o.val(e.a[3][2])
                if opaque(got):
                    return ('undecided', show(got)[:80])
                if any(same(o, got, v) for v in vals):
                    return None
                return 'the value published is %s, not the one selected' % show(got)[:120], e
            for k in acc:
                if k not in s.store:
                    continue
                v = s.store[k]
                ph = {x for x in walk(v) if x.op == 'phi'}
                if len(ph) == 1:
                    old = ph.pop()
                    if not o(eq(v, old)) and not same(o, v, old):
                        return 'the selection changes to %s without being published' % show(o.val(v))[:120]
                else:
                    got = o.val(v)
                    if got.op != 'phi':
                        return ('undecided', show(got)[:80]) if opaque(got) else 'the selection changes to %s without being published' % show(got)[:120]
            return None
        c.judge_loop('selected', I_, L, g)


def leader(c, z):
    """the zone's leader names the controller (profile) behind the current maximum"""
    sp, nm = argsym(0), argsym(1)
    I_, ps = c.run('DbusPidZone::addSetPoint')
    prof = substr(nm, add(C(1), T('strfind', nm, C('_'))))

    def g(o, s):
        if s.sig != 'ret':
            return None
        m, l = o.val(s.load(z.l('MAX'))), s.load(z.l('LEAD'))
        if m.op == 'ite':
            return ('undecided', show(m)[:80])
        if same(o, m, z.v('MAX')):
            if o(lt(z.v('MAX'), m)) is True:
                return None
            return c.expect(o, l, z.v('LEAD'), 'the leader while the maximum stays')
        return c.expect(o, l, prof if o(z.v('ACC')) else nm, 'the leader of a new maximum')
    c.judge('leader', I_, ps, g)
    I_, ps = c.run('DbusPidZone::clearSetPoints')
    c.judge('leader', I_, ps, lambda o, s: None if o(isempty(s.load(z.l('LEAD')))) else 'the leader survives the start of a new pass')
    I_, ps = c.run('DbusPidZone::determineMaxSetPointRequest')
    ce = z.v('CEIL')

    def h(o, s):
        if s.sig != 'ret':
            return None
        l = s.load(z.l('LEAD'))
        M = z.v('MAX')
        cap = False
        if not o(isempty(ce)):
            low = lowest(s, ce)
            if low is None:
                return 'undecided', 'smallest ceiling not recognised'
            cap = o(lt(low, M))
            M = low if cap else M
        if not o(lt(z.v('MIN'), M)):
            return c.expect(o, l, C('Minimum'), 'the leader of the floor')
        if o(z.v('ACC')):
            return None           # the names of all controllers of the profile
        return c.expect(o, l, C('Ceiling') if cap else z.v('LEAD'), 'the leader')
    c.judge('leader', I_, ps, h)
