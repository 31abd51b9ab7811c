"""Failsafe messages: rate limit and de-duplication of one logger, and the
build-up and routing of all loggers."""
from ..spec import *
from ..extract import Broken
from .roles import ctor_fields
from .io import nocast
from .builder import ret_ptr

LIMIT, OUTP = 'FailsafeLogger::FailsafeLogger', 'FailsafeLogger::outputFailsafeLog'


def logger_fields(c):
    """(limit, state, queue, set) members"""
    P = c.P()
    cf, fs, f = ctor_fields(c, LIMIT)
    ps = [p['n'] for p in f['params']]
    if len(ps) < 2 or cf.get(ps[0]) is None or cf.get(ps[1]) is None:
        raise Broken('FailsafeLogger does not keep its limit and state')
    I_, paths = c.run(OUTP)
    queue = sets = None
    for s in paths:
        for k, v in changed(s).items():
            for x in walk(v):
                if x.op == 'push' and k not in (cf[ps[0]], cf[ps[1]]):
                    queue = k
                if x.op == 'upd' and tf(k) in set(walk(v)) and k not in (cf[ps[0]], cf[ps[1]]) and k != queue:
                    sets = k
    if queue is None or sets is None:
        for x in P.rec('FailsafeLogger')['fields']:
            t = x['t']
            if x['n'] in (cf[ps[0]], cf[ps[1]]):
                continue
            if queue is None and any(y in t for y in ('deque', 'vector', 'list', 'queue')):
                queue = x['n']
            elif sets is None and ('set<' in t or 'map<' in t):
                sets = x['n']
    if queue is None or sets is None:
        raise Broken('FailsafeLogger keeps no queue of times or no set of messages')
    return cf[ps[0]], cf[ps[1]], queue, sets, fs


def scale(t):
    """(seconds per unit, clock value) of a point in time"""
    t = nocast(t)
    if t.op == 'now':
        return Fraction(1), t
    if t.op == 'dcast' and isinstance(t.a[0], Fraction | int) or t.op == 'dcast':
        u = t.a[0] if isinstance(t.a[0], (Fraction, int)) else None
        if u is None and isinstance(t.a[0], T) and is_num(t.a[0]):
            u = Fraction(cval(t.a[0]))
        if u is None and isinstance(t.a[0], str):
            u = Fraction(t.a[0])
        ns = [x for x in walk(t) if x.op == 'now']
        if u and len(ns) == 1 and mul(C(u), t.a[1]) is ns[0]:
            return Fraction(u), t
    return None, t


def prune_ok(x, q0):
    """None when x is the queue q0 without its entries a second old or older"""
    if x.op == 'while' and isinstance(q0.a[1], str) and x.a[0] is tl(q0.a[1]):
        cond = x.a[1]
        ph = next((y for y in walk(cond) if y.op == 'phi' and y.a[0] is x.a[0]), None)
        nxt = dict(x.a[2]).get(x.a[0])
        init = dict(x.a[3]).get(x.a[0])
        if ph is None:
            return ('undecided', 'the loop does not look at the queue')
        if nxt is not T('pop_front', ph):
            return ('undecided', show(nxt)) if nxt.op not in ('pop_back', 'empty') else \
                'an expired entry makes %s the queue' % show(nxt)[:60]
        if init is not q0 and not (init.op == 'phi'):
            return ('undecided', 'start of the loop: ' + show(init)[:80])
        now = [y for y in walk(cond) if y.op == 'now']
        if len(set(now)) != 1:
            return ('undecided', 'expiry does not compare with the time')
        cand = [y for y in walk(cond) if scale(y)[0] is not None]
        cand = [y for y in cand if y.op == 'dcast'] or cand
        u, n = scale(cand[0]) if cand else (None, None)
        if u is None:
            return ('undecided', 'unit of time: ' + show(cond)[:80])
        want = land(lnot(isempty(ph)), lnot(lt(sub(n, T('front', ph)), C(Fraction(1) / u))))
        if bdd(cond) is not bdd(want):
            return 'an entry is dropped while %s, required: when a second old' % show(cond)[:160]
        return n
    return ('undecided', 'pruned queue ' + show(x)[:100])


@check('C36')
def c36(c):
    LIM, ST, Q, S, fs0 = logger_fields(c)
    lim, st0, q0, s0 = tf(LIM), tf(ST), tf(Q), tf(S)
    f = c.P().fn(OUTP)
    ps_ = f['params']
    if len(ps_) != 4:
        raise Broken('outputFailsafeLog no longer takes zone, state, location, reason')
    I_, ps = c.run(f, keep_log='all')
    zid, new = argsym(0), argsym(1)

    def pruned(s):
        xs = []
        for t in list(s.facts.lits) + [s.load(tl(Q))]:
            for y in walk(t):
                if y.op in ('while', 'filter', 'opq', 'loop', 'comp', 'erased') and q0 in set(walk(y)) and \
                        y not in xs:
                    xs.append(y)
        # the queue's value after expiry is the one counted
        cnt = [x for a in s.facts.lits for x in walk(a) if x.op == 'size' and q0 in set(walk(x))]
        for x in xs:
            if any(y.a[0] is x for y in cnt):
                return x
        return xs[0] if xs else None

    keys = set()
    for s in ps:
        for t in list(s.facts.lits) + [s.load(tl(S)), s.load(tl(Q))]:
            keys |= {y.a[1] for y in walk(t) if y.op in ('has', 'upd') and
                     (y.a[0] is s0 or y.a[0].op in ('ite', 'empty') and s0 in set(walk(s.load(tl(S)))))}

    def log(o, s):
        if s.sig != 'ret':
            return 'a message ends in an exception'
        loc, rea = (s.load(ploc(I_, i)) for i in (2, 3))
        x = pruned(s)
        if x is None:
            # nothing was dropped
            return 'expired entries are never dropped'
        n = prune_ok(x, q0)
        if not isinstance(n, T):
            return n
        keep = iff(new, st0)
        s1 = s0 if o(keep) else T('empty')
        fin_s, fin_q, fin_st = (o.val(s.load(tl(y))) for y in (S, Q, ST))
        if opaque(fin_st):
            return ('undecided', show(fin_st)[:80])
        if o(fin_st) != o(new):
            return 'the failsafe state remembered is not the one reported'
        # the key of the message
        prints = [e for y in s.eff for e in leaf_effs(y) if e.op == 'e' and e.a[0] == 'log']
        full = not o(lt(size(x), lim))
        for k in sorted(keys, key=lambda t: t.id):
            ke = o.val(k)
            hs = set(walk(ke))
            if not (loc in hs and rea in hs) and not opaque(ke) and not full:
                return 'messages are told apart by %s, not by location and reason' % show(ke)[:80]
        if len(keys) > 1:
            return ('undecided', 'more than one key: ' + show(sorted(keys, key=lambda t: t.id)[0])[:60])
        if full:
            seen = True
        else:
            if not keys:
                return 'whether the message was recorded before is not looked at'
            k = next(iter(keys))
            hs = set(walk(k))
            if loc not in hs or rea not in hs:
                if opaque(k):
                    return ('undecided', show(k)[:80])
                return 'messages are told apart by %s, not by location and reason' % show(k)[:80]
            seen = o(has(s1, k))
        if full or seen:
            if prints:
                return ('a message is printed although %s' % ('the limit is reached' if full else 'it was recorded before'), prints[0])
            z = samemap(o, fin_s, lambda y: (has(s1, y), None), keys, vals=False)
            if z is not None:
                return ('undecided', show(fin_s)[:80]) if opaque(fin_s) else \
                    'whether %s is recorded changes although the message is not' % show(z)[:80]
            if not same(o, fin_q, x):
                return c.expect(o, fin_q, x, 'the times recorded, none being added')
            return None
        if not o(has(fin_s, k)):
            return 'the message is not recorded'
        z = samemap(o, fin_s, lambda y: (lor(eq(y, k), has(s1, y)), None), [k], vals=False)
        if z is not None:
            return 'recording a message changes whether %s is recorded' % show(z)
        w = [y for y in (T('push', x, n), ) if y is fin_q]
        if not w:
            if fin_q.op == 'push' and fin_q.a[0] is x and scale(fin_q.a[1])[1] is n:
                pass
            else:
                return c.expect(o, fin_q, T('push', x, n), 'the times recorded')
        if lor(new, st0) is TRUE or o(lor(new, st0)):
            if not prints:
                return 'a first message below the limit is not printed for a zone in or leaving failsafe'
            txt = set()
            for e in prints:
                for y in e.a[3]:
                    txt |= set(walk(y))
            for v, w in ((zid, 'zone'), (loc, 'location'), (rea, 'reason')):
                if v not in txt:
                    return ('the message printed does not name the %s' % w, prints[0])
        elif prints:
            return ('a message is printed for a zone outside failsafe', prints[0])
        return None
    c.judge('message', I_, ps, log)
    # a fresh logger has recorded nothing
    for k in (Q, S):
        v = fs0.get(k)
        if v is not None and v.op != 'empty':
            c.undec('fresh', '%s starts as %s' % (k, show(v)[:60])) if opaque(v) else \
                c.viol('fresh', c.P().fn(LIMIT), 'a new logger starts with %s = %s' % (k, show(v)[:60]))
        else:
            c.ok('fresh', k)


# ------------------------------------------------------------------ C37
def log_globals(c):
    """(loggers by zone, zones by sensor) as locations, found by type"""
    P = c.P()
    a = b = None
    for k, g in P.globals.items():
        if 'FailsafeLogger' in g['t'] and 'map<' in g['t']:
            a = T('G', k, g['n'])
        elif 'map<' in g['t'] and 'string' in g['t'] and 'vector<long' in g['t'] and g['file'].startswith('failsafeloggers/'):
            b = T('G', k, g['n'])
    if a is None or b is None:
        raise Broken('the maps of failsafe loggers are not found')
    return a, b


@check('C37')
def c37(c):
    P = c.P()
    LOG, MAP = log_globals(c)
    f = P.fn('buildFailsafeLoggers')
    I_, ps = c.run(f)
    zones, lim = argsym(0), argsym(1)
    LIM, ST, Q, S, fs0 = logger_fields(c)

    outer = loops_over(I_, zones, LOG)
    if not outer:
        c.undec('one-per-zone', 'no loop over the zones fills the loggers')

    def made(s, v):
        for e in s.eff:
            for x in leaf_effs(e):
                if x.op == 'e' and x.a[0] == 'make' and x.a[2] is v:
                    return x
        return None

    for L in outer:
        if L['st'].load(LOG).op != 'empty':
            v = L['st'].load(LOG)
            c.undec('replaced', show(v)[:80]) if opaque(v) or v.op == 'phi' else \
                c.viol('replaced', (L['file'], L['line'], L['fn']), 'loggers of an earlier build are kept')
        else:
            c.ok('replaced', 'loggers')
        if touches(L['M'], MAP):
            v = L['st'].load(MAP)
            if v.op == 'empty':
                c.ok('replaced', 'sensors')
            elif opaque(v) or v.op == 'phi':
                c.undec('replaced', show(v)[:80])
            else:
                c.viol('replaced', (L['file'], L['line'], L['fn']), 'the zones of sensors of an earlier build are kept')
        z = T('el', L['dom'])
        zid, zp = getf(z, 'first'), getf(z, 'second')

        def one(o, s):
            if s.sig not in (None, 'cont'):
                return 'building ends at one zone (%s)' % s.sig
            m, m0 = o.val(s.load(LOG)), T('phi', LOG, L['dom'].a[2])
            if opaque(m):
                return ('undecided', show(m)[:80])
            k = samemap(o, m, lambda y: (lor(eq(y, zid), has(m0, y)), None), [zid], vals=False)
            if k is not None:
                return 'a zone gets no logger' if k is zid else 'the logger of another zone changes'
            v = o.val(getat(m, zid))
            if v.op != 'new':
                return ('undecided', show(v)[:80]) if opaque(v) or v.op in ('res', 'get') else 'the logger of a zone is %s' % show(v)[:80]
            e = made(s, v)
            d = s.load(T('D', v))
            for fld_, w, n in ((LIM, lim, 'limit'), (ST, T('get', 'getFailSafeMode', zp, ()), 'state')):
                g = o.val(getf(d, fld_))
                if g is not o.val(w):
                    if opaque(g) or (g.op == 'f'):
                        return ('undecided', show(g)[:80])
                    return ('a logger starts with %s %s, required %s' % (n, show(g)[:60], show(w)[:60]), e)
            return None
        c.judge_loop('one-per-zone', I_, L, one)

    # each sensor of a zone is mapped to the zone once
    n = 0
    for L in I_.loops:
        d = L['dom']
        if d is None or not touches(L['M'], MAP) or d.a[1].op not in ('get', 'res'):
            continue
        if d.a[1].a[0] != 'getSensorNames':
            continue
        n += 1
        zp = d.a[1].a[1]
        z = next((x for x in walk(zp) if x.op == 'el'), None)
        if z is None:
            c.undec('topology', show(zp)[:60])
            continue
        zid = getf(z, 'first')
        nm = T('el', d)

        def each(o, s, L=L, zid=zid, nm=nm, d=d):
            if s.sig not in (None, 'cont'):
                return 'the sensors after one of a zone are left out (%s)' % s.sig
            m = o.val(s.load(MAP))
            m0 = T('phi', MAP, d.a[2])
            if opaque(m):
                return ('undecided', show(m)[:100])
            ks = {y.a[1] for y in walk(m) if y.op in ('upd', 'del')}
            for k in sorted(ks | {nm}, key=lambda t: t.id):
                if k is not nm and o(eq(k, nm)):
                    continue
                old = o.val(getat(m0, k)) if o(has(m0, k)) else T('empty')
                new = o.val(getat(m, k)) if o(has(m, k)) else T('empty')
                if opaque(new):
                    return ('undecided', show(new)[:100])
                if k is not nm:
                    if not same(o, old, new):
                        return 'mapping sensor %s changes the zones of %s' % (show(nm)[:40], show(k)[:40])
                    continue
                h = has(old, zid) if old.op != 'empty' else FALSE
                if o(h):
                    if not same(o, new, old):
                        return 'a sensor already mapped to the zone gets %s' % show(new)[:80]
                elif new is not T('push', old, zid):
                    if o(has(new, zid)) and new.op in ('push', 'ins') and new.a[0] is old:
                        continue
                    return 'a sensor of the zone gets zones %s, required %s' % (show(new)[:80], show(T('push', old, zid))[:80])
            return None
        c.judge_loop('topology', I_, L, each)
    if not n:
        c.undec('topology', 'no loop maps the sensor names of a zone')
    # the names come from the zone's thermal inputs
    try:
        from .roles import Zone
        Z = Zone(c)
        I3, p3 = c.run('DbusPidZone::addThermalInput')
        fs = {k for s in p3 for k, v in changed(s).items() if any(x.op == 'push' and x.a[0] is tf(k) for x in walk(v))}
        if Z.TH and fs and Z.TH not in fs:
            c.viol('sensors', P.fn('DbusPidZone::getSensorNames'), 'the sensors of a zone are taken from %s, thermal inputs are kept in %s' % (Z.TH, ', '.join(sorted(fs))))
        elif Z.TH and fs:
            c.ok('sensors', 'getSensorNames')
        else:
            c.undec('sensors', 'getSensorNames')
    except Broken as e:
        c.undec('sensors', e)

    # routing
    out = 'outputFailsafeLog'

    def route(o, s, e, zid, I2):
        if e.a[2] is None or len(e.a[3]) != 4:
            return ('undecided', show(e)[:80])
        tgt = o.val(e.a[2])
        if tgt is not o.val(getat(T('rd', LOG), zid)):
            return ('the message of zone %s goes to %s' % (show(zid)[:40], show(tgt)[:60]), e) if not opaque(tgt) else ('undecided', show(tgt)[:60])
        for i, (w, n) in enumerate(((zid, 'zone'), (argsym(1), 'state'), (s.load(ploc(I2, 2)), 'location'), (s.load(ploc(I2, 3)), 'reason'))):
            if o.val(e.a[3][i]) is not o.val(w):
                return ('the %s passed on is %s' % (n, show(e.a[3][i])[:60]), e)
        return None

    I2, p2 = c.run('outputFailsafeLogWithZone', opaque={out})

    def tozone(o, s):
        cs = [x for e in s.eff for x in leaf_effs(e) if x.op == 'e' and x.a[1].split('::')[-1] == out]
        h = o(has(T('rd', LOG), argsym(0)))
        if not h:
            return ('a message goes to a zone without logger', cs[0]) if cs else None
        if len(cs) != 1:
            return 'a message about a zone is given to %d loggers' % len(cs)
        return route(o, s, cs[0], argsym(0), I2)
    c.judge('zone-messages', I2, p2, tozone)

    I4, p4 = c.run('outputFailsafeLogWithSensor', opaque={out})
    ls = []
    for L in I4.loops:
        if L['dom'] is not None and T('rd', MAP) in set(walk(L['dom'].a[1])):
            ls.append(L)
    if not ls:
        c.undec('sensor-messages', 'no loop over the zones of the sensor')
    for L in ls:
        k = L['dom'].a[1]
        if k is not getat(T('rd', MAP), L['entry'].load(ploc(I4, 0)) if L.get('entry') else argsym(0)):
            c.undec('sensor-messages', 'the zones looked at are ' + show(k)[:80])
        z = T('el', L['dom'])

        def tosens(o, s, z=z):
            cs = [x for e in s.eff for x in leaf_effs(e) if x.op == 'e' and x.a[1].split('::')[-1] == out]
            if s.sig not in (None, 'cont'):
                return 'the zones after one without logger or message are left out (%s)' % s.sig
            h = o(has(T('rd', LOG), z))
            if not h:
                return ('a message goes to a zone without logger', cs[0]) if cs else None
            if len(cs) != 1:
                return 'a message about a sensor is given %d times to one of its zones' % len(cs)
            return route(o, s, cs[0], z, I4)
        c.judge_loop('sensor-messages', I4, L, tosens)

    def whole(o, s):
        if s.sig != 'ret':
            return 'a message about a sensor ends in an exception'
        if o(has(T('rd', MAP), s.load(ploc(I4, 0)))) and not o(isempty(getat(T('rd', MAP), s.load(ploc(I4, 0))))):
            if not any(e.op == 'foreach' for e in s.eff) and not effs(s, lambda e: e.op == 'e'):
                return 'a message about a sensor is given to none of its zones'
        return None
    c.judge('sensor-messages', I4, p4, whole)

    # every start of the loops builds them anew, for the zones it starts
    from .mainf import HELPERS, calls, deep
    try:
        I5, p5 = c.run('restartControlLoops', opaque=HELPERS)
    except Broken as e:
        c.undec('rebuilt', e)
        return

    def rebuilt(o, s):
        if s.sig != 'ret' or not deep(s, 'pidControlLoop'):
            return None
        bz, bl = calls(s, 'buildZones'), calls(s, 'buildFailsafeLoggers')
        if not bz:
            return ('undecided', 'no zones built')
        if not bl:
            return 'control loops are started without building the failsafe loggers'
        i, j = s.eff.index(bz[-1]), s.eff.index(bl[-1])
        if j < i:
            return ('the failsafe loggers are built before the zones', bl[-1])
        k = next((n for n, e in enumerate(s.eff) if any(x.op == 'e' and x.a[1].split('::')[-1] == 'pidControlLoop' for x in leaf_effs(e))), None)
        if k is not None and k < j:
            return ('control loops are started before the failsafe loggers are built', bl[-1])
        a = o.val(bl[-1].a[3][0])
        w = T('res', bz[-1].a[1], bz[-1].a[2], bz[-1].a[3], 0)
        if a is not w:
            return ('undecided', show(a)[:60]) if opaque(a) or a.op == 'res' else ('the failsafe loggers are built for %s' % show(a)[:60], bl[-1])
        return None
    c.judge('rebuilt', I5, p5, rebuilt)
