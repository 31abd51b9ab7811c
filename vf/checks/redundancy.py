"""Sensors failed through fan redundancy."""
from ..spec import *
from ..extract import Broken
from .roles import ret_field
from .ipmi import appended, substate

IFC = 'xyz.openbmc_project.Control.FanRedundancy'
PROPS = 'org.freedesktop.DBus.Properties'
FULL = IFC + '.Status.Failed'
NPOS = (1 << 64) - 1


def failure(ts, status):
    """the boolean atom 'status reports failure' among the terms, or None"""
    for t in ts:
        for y in walk(t):
            if len(y.a) < 2 or not isinstance(y.a[0], T) or not isinstance(y.a[1], T):
                continue
            a, b = y.a[0], y.a[1]
            if a is not status or not is_str(b):
                continue
            lit = cval(b)
            good = lit in FULL and lit.endswith('Failed')
            if y.op in ('strrfind', 'strfind'):
                return lnot(eq(y, C(NPOS))), good, lit
            if y.op in ('startswith', 'strfind0'):
                return y if y.op == 'startswith' else eq(y, ZERO), FULL.startswith(lit) and len(lit) > len(FULL) - 6, lit
            if y.op in ('contains', 'endswith'):
                return y, good, lit
            if y.op in ('eqc', 'eqk'):
                return y, lit == FULL, lit
    return None, None, None


def steps(t, base):
    """t as changes made to the set base: [('add'|'del', sequence)], None when not of that kind"""
    out = []
    while t is not base:
        if t.op == 'union':
            out.append(('add', t.a[1]))
            t = t.a[0]
        elif t.op == 'mcomp' and t.a[1] is TRUE and t.a[2] is T('el', t.a[0]):
            out.append(('add', t.a[0].a[1]))
            t = t.a[4]
        elif t.op == 'fold' and len(t.a[3]) == 1:
            d, loc, k, upds = t.a[0], t.a[1], t.a[2], t.a[3]
            v = upds[0][1]
            el = T('el', d)
            if v.op == 'upd' and v.a[0].op == 'phi' and v.a[1] is el:
                out.append(('add', d.a[1]))
            elif v.op == 'del' and v.a[0].op == 'phi' and v.a[1] is el:
                out.append(('del', d.a[1]))
            else:
                return None
            t = upds[0][2]
        elif t.op == 'upd' and t.a[1] is not None:
            out.append(('add1', t.a[1]))
            t = t.a[0]
        elif t.op == 'del':
            out.append(('del1', t.a[1]))
            t = t.a[0]
        else:
            return None
    return out[::-1]


def verdict(o, got, base, fail, coll, what):
    """got is base with the members of coll added (fail) or removed (not fail; fail None: unchanged)"""
    got = o.val(got)
    st = steps(got, base)
    if st is None:
        if base not in set(walk(got)) and not opaque(got):
            return 'the sensors failed so far are forgotten: %s' % show(got)[:100]
        return ('undecided', show(got)[:120])
    if fail is None:
        return None if not st else '%s, yet the failed sensors change by %s' % (what, [x[0] for x in st])
    want = 'add' if fail else 'del'
    if not st:
        return 'the members of a collection that reports %s are not %s' % (
            ('failure', 'added') if fail else ('no failure', 'removed'))
    for k, v in st:
        v = o.val(v)
        if k in ('add1', 'del1'):
            return ('the failed sensors change by %s %s, required all members of the collection' % (k[:3], show(v)[:60]))
        if k != want:
            return 'the members of a collection that reports %s are %s' % (
                ('failure', 'removed') if fail else ('no failure', 'added'))
        if v is not coll:
            return ('undecided', show(v)[:120]) if opaque(v) else 'what changes is %s, not the collection' % show(v)[:100]
    return None


def signal_rule(c, F):
    P = c.P()
    I_, ps = c.run('DbusPassiveRedundancy::DbusPassiveRedundancy', opaque={'populateFailures'})
    f = I_.f
    s = one_ret(ps)
    if s is None:
        raise Broken('the constructor of DbusPassiveRedundancy has no single outcome')
    v = s.store.get(THIS, NULL)
    mk = [x for x in walk(v) if x.op == 'make' and 'match' in str(x.a[0])]
    cl = [x for x in walk(v) if x.op == 'clo'] or [x for x in walk(v) if x.op == 'fn']
    if len(mk) != 1 or len(cl) != 1:
        return c.undec('subscription', '%d matches' % len(mk))
    rl = [x for x in mk[0].a[1:] if isinstance(x, T) and is_str(x)]
    if isinstance(mk[0].a[-1], tuple):
        rl += [x for x in mk[0].a[-1] if isinstance(x, T) and is_str(x)]
    if not rl:
        c.undec('subscription', show(mk[0])[:100])
    else:
        parts = {}
        for p in cval(rl[0]).split(','):
            if '=' in p:
                k, w = p.split('=', 1)
                parts[k.strip()] = w.strip().strip("'")
        bad = None
        if parts.get('type') != 'signal' or parts.get('member') != 'PropertiesChanged':
            bad = 'is for %s' % cval(rl[0])
        n = parts.get('arg0namespace', parts.get('arg0'))
        if n != IFC and not ('arg0namespace' in parts and IFC.startswith(n + '.')):
            bad = 'is for the properties of %s' % n
        if set(parts) - {'type', 'member', 'arg0namespace', 'arg0', 'interface'} or \
                parts.get('interface', PROPS) != PROPS:
            bad = 'is restricted: %s' % cval(rl[0])
        if bad:
            c.viol('subscription', f, 'the subscription to redundancy changes %s' % bad)
        else:
            c.ok('subscription', cval(rl[0]))
    ini = getf(v, F)
    if ini.op != 'empty':
        c.undec('start', show(ini)[:80])
    if not any(e.op == 'e' and e.a[1].split('::')[-1] == 'populateFailures' for e in s.eff):
        c.undec('start', 'populateFailures is not called by the constructor')
    else:
        c.ok('start', 'populateFailures')
    msg = T('sym', 'msg')
    if cl[0].op == 'fn':
        return c.undec('changes', 'handler is a function')
    qs = c.run_clo(I_, cl[0], [msg])
    base = tf(F)

    def r(o, q):
        got = q.load(tl(F))
        if q.sig == 'thr':
            return verdict(o, got, base, None, None, 'the data cannot be read')
        oks = [a for a in q.facts.lits if a.op == 'ok'] + [a for t in [got] for a in walk(t) if a.op == 'ok']
        if any(o(a) is False for a in oks):
            return verdict(o, got, base, None, None, 'the data cannot be read')
        props = [y.a[0] for t in list(q.facts.lits) + [got] for y in walk(t)
                 if y.op in ('has', 'at') and y.a[0].op == 'msgf' and y.a[0].a[0] is msg]
        if not props:
            return ('undecided', 'properties of the signal')
        pm = props[0]
        if not o(has(pm, C('Status'))):
            return verdict(o, got, base, None, None, 'the status did not change')
        status = T('vget', 'std::string', at_(pm, 'Status'))
        es = effs(q, lambda e: e.op == 'e' and e.a[0] == 'dbus')
        if len(es) != 1:
            return ('undecided', '%d requests' % len(es)) if es else 'the collection is never asked for'
        e = es[0]
        m, xs = appended(o.val(e.a[3][0]))
        if m.op != 'newcall' or len(xs) != 2:
            return ('undecided', show(m)[:100])
        snd, pth = m.a[0], m.a[1]
        for t, w in ((snd, 'get_sender'), (pth, 'get_path')):
            if not (t.op == 'get' and t.a[0] == w):
                return ('undecided', show(t)[:80]) if opaque(t) else ('the collection is asked of %s' % show(t)[:60], e)
        for t, w, n in ((m.a[2], PROPS, 'interface'), (m.a[3], 'Get', 'method'), (xs[0], IFC, 'interface'), (xs[1], 'Collection', 'property')):
            if o.val(t) is not C(w):
                return ('undecided', show(t)[:80]) if opaque(t) else ('%s %s is asked for, required %s' % (n, show(t)[:60], w), e)
        rep = T('reply', o.val(e.a[3][0]))
        coll = T('vget', 'std::vector<std::string>', T('msgf', rep, 0))
        fa, good, lit = failure(list(q.facts.lits) + [got], status)
        if fa is None:
            return ('undecided', 'test of the status')
        if not good:
            return 'failure is recognised by "%s", required a status of %s' % (lit, FULL)
        return verdict(o, got, base, o(fa), coll, '')
    at = (f['file'], f['l'], f['n'])
    c.judge('changes', I_, qs, r, 'handler of redundancy changes', at)


def at_(m, k):
    return getat(m, C(k))


def startup_rule(c, F):
    P = c.P()
    I_, ps = c.run('DbusPassiveRedundancy::populateFailures')

    def first(o, s):
        es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'dbus']
        if not es:
            return None if any(a.op == 'ok' and not b for a, b in s.facts.lits.items()) else \
                ('undecided', 'the redundancies are not looked up')
        m, xs = appended(o.val(es[0].a[3][0]))
        if m.op != 'newcall' or len(xs) != 3:
            return ('undecided', show(m)[:80])
        for t, w in ((m.a[0], 'xyz.openbmc_project.ObjectMapper'), (m.a[1], '/xyz/openbmc_project/object_mapper'),
                     (m.a[2], 'xyz.openbmc_project.ObjectMapper'), (m.a[3], 'GetSubTree')):
            if t is not C(w):
                return ('undecided', show(t)[:60]) if opaque(t) else ('redundancies are looked up by %s' % show(t)[:60], es[0])
        ok = xs[0] in (C('/'), C('')) and xs[1] is ZERO and xs[2] is T('arrv', (C(IFC),))
        if not ok:
            return ('undecided', 'arguments') if any(opaque(x) for x in xs) else \
                ('redundancies are looked up as %s' % ', '.join(show(x)[:60] for x in xs), es[0])
        if any(a.op == 'ok' and not b and m in set(walk(a)) and not any(y.op in ('el', 'first') for y in walk(a))
               for a, b in s.facts.lits.items()) or s.sig == 'thr':
            return verdict(o, s.load(tl(F)), tf(F), None, None, 'the redundancies cannot be read')
        if not any(e.op == 'foreach' for e in s.eff) and not any(
                a.op == 'isempty' and b for a, b in s.facts.lits.items()):
            return ('undecided', 'no loop over the redundancies')
        return None
    c.judge('start', I_, ps, first)

    inner, outer = {}, {}
    for L in I_.loops:
        d = L['dom']
        if d is None:
            continue
        calls_ = [e for _, s in L['norm'] + L['exits'] for e in s.eff if e.op == 'e' and e.a[0] == 'dbus']
        if calls_:
            inner[id(L['node'])] = L
        elif any(e.op == 'foreach' for _, s in L['norm'] + L['exits'] for e in s.eff):
            outer[id(L['node'])] = L
    if not inner:
        c.undec('start', 'no loop reads the status of the redundancies')
    for L in outer.values():
        d = L['dom']
        owners = getf(T('el', d), 'second')

        def thru(o, s):
            if s.sig == 'thr' or any(e.op == 'foreach' and e.a[0].a[1] is owners for e in s.eff) or o(isempty(owners)):
                return None
            if any(e.op == 'foreach' for e in s.eff) or any(opaque(a) for a in s.facts.lits):
                return ('undecided', 'what is asked about a redundancy')
            return 'a redundancy is not asked for its status'
        c.judge('all', I_, [s for _, s in L['norm']], thru, '%s loop at %s:%s' % (L['fn'], L['file'], L['line']),
                (L['file'], L['line'], L['fn']))
        if L['exits']:
            ex = [s for _, s in L['exits'] if s.sig not in ('thr',)]
            if ex:
                c.judge('all', I_, ex, lambda o, s: 'one redundancy that cannot be read ends the search for the others',
                        '%s loop at %s:%s' % (L['fn'], L['file'], L['line']), (L['file'], L['line'], L['fn']))
    for L in inner.values():
        d = L['dom']
        el = T('el', d)
        out = next((x for x in walk(d.a[1]) if x.op == 'el'), None)
        base = T('phi', tl(F), d.a[2])

        def r(o, s, d=d, el=el, out=out, base=base):
            es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'dbus']
            got = s.load(tl(F))
            here = [a for a, b in s.facts.lits.items() if a.op == 'ok' and el in set(walk(a))] + \
                   [a for a in walk(got) if a.op == 'ok']
            if any(o(a) is False for a in here):
                return verdict(o, got, base, None, None, 'the data cannot be read')
            if len(es) != 1:
                return ('undecided', '%d requests' % len(es))
            e = es[0]
            m, xs = appended(o.val(e.a[3][0]))
            if m.op != 'newcall' or len(xs) != 1 or out is None:
                return ('undecided', show(m)[:80])
            own, pth = getf(el, 'first'), getf(out, 'first')
            for t, w, n in ((m.a[0], own, 'service'), (m.a[1], pth, 'object'), (m.a[2], C(PROPS), 'interface'),
                            (m.a[3], C('GetAll'), 'method'), (xs[0], C(IFC), 'interface')):
                if o.val(t) is not w:
                    return ('undecided', show(t)[:80]) if opaque(t) else ('%s %s is asked, required %s' % (n, show(t)[:60], show(w)[:60]), e)
            rep = T('msgf', T('reply', o.val(e.a[3][0])), 0)
            if not o(has(rep, C('Status'))):
                return None
            status = T('vget', 'std::string', at_(rep, 'Status'))
            fa, good, lit = failure(list(s.facts.lits) + [got], status)
            if fa is None:
                return ('undecided', 'test of the status')
            if not good:
                return 'failure is recognised by "%s", required a status of %s' % (lit, FULL)
            if not o(fa):
                st = steps(o.val(got), base)
                if st and all(k == 'del' for k, v in st):
                    return None                # nothing was failed yet
                return verdict(o, got, base, None, None, 'the status reports no failure')
            if not o(has(rep, C('Collection'))):
                return None
            coll = T('vget', 'std::vector<std::string>', at_(rep, 'Collection'))
            return verdict(o, got, base, True, coll, '')
        c.sites += 1
        c.judge('start', I_, [q for _, s in L['norm'] for q in substate(s, present)], r,
                '%s loop at %s:%s' % (L['fn'], L['file'], L['line']), (L['file'], L['line'], L['fn']))
        ex = [s for _, s in L['exits'] if s.sig != 'thr']
        if ex:
            c.judge('all', I_, ex, lambda o, s: 'one redundancy that cannot be read ends the search for the others',
                    '%s loop at %s:%s' % (L['fn'], L['file'], L['line']), (L['file'], L['line'], L['fn']))


def present(t):
    """a reply that has the properties asked for"""
    if t.op == 'ite' and t.a[0].op == 'has' and t.a[0].a[1] in (C('Status'), C('Collection')):
        return subst(t.a[1], present)
    return None


@check('C43')
def c43(c):
    F = ret_field(c, 'DbusPassiveRedundancy::getFailed')
    if F is None:
        raise Broken('getFailed does not return a member')
    signal_rule(c, F)
    startup_rule(c, F)
