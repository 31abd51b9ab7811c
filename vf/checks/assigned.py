"""Definite assignment: no path of any function uses a scalar that has no value yet.

Every function is interpreted abstractly with scalars that are declared without
an initialiser, and fields a constructor leaves alone, holding the value
`uninit`; a stream extraction into such a variable leaves it there when the
stream is not good.  The value then must not reach a branch condition, a call,
a result or any object that outlives the function."""
import re
from ..spec import *
from ..interp import Policy, St
from ..spec import Exec
from ..extract import Broken
from ..prog import visit
from .effects import POL40, suffix_

ARITH = {'poly', 'div', 'f', 'int', 'trunc', 'icast', 'dcast', 'gt', 'lt', 'eqk', 'eqc', 'eq', 'not', 'tostr', 'rec', 'make', 'cat', 'neg', 'e', 'c'}


def raws(v):
    """(uninit terms v certainly depends on, those it may depend on)"""
    sure, may = set(), set()
    st = [(v, True)]
    seen = set()
    while st:
        x, d = st.pop()
        if isinstance(x, tuple):
            st += [(y, d) for y in x]
            continue
        if not isinstance(x, T) or (x, d) in seen:
            continue
        seen.add((x, d))
        if x.op == 'uninit':
            (sure if d else may).add(x)
            continue
        if x.op in ('upd', 'push', 'mcomp', 'fold', 'comp', 'mapl'):
            # an element without a value is one whether or not others have theirs
            for y in x.a:
                if isinstance(y, T):
                    st.append((y, d and y.op != 'uninit' and y.op != 'dom'))
                elif x.op == 'fold' and isinstance(y, tuple):
                    for z in y:
                        st += [(w, d and w.op != 'uninit') for w in z] if isinstance(z, tuple) else [(z, d)]
                else:
                    st.append((y, d))
            if x.op == 'upd' and x.a[2].op == 'uninit':
                sure.add(x.a[2])
            continue
        d = d and (x.op in ARITH or x.op == 'ite')
        st += [(y, d) for y in x.a]
    return sure, may - sure


def has_raw(v):
    return any(x.op == 'uninit' for x in walk(v))


@check('C47')
def c47(c):
    for cfg in ((0, 1) if c.tier == 'thorough' else (0,)):
        assigned(c, cfg)


MAKERS = {'make_unique', 'make_shared', 'emplace', 'emplace_back', 'emplace_front', 'try_emplace'}
HEAVY = {'tryRestartControlLoops', 'restartControlLoops', 'pidControlLoop', 'dbus_configuration::init', 'buildPIDsFromJson',
         'buildSensorsFromJson', 'buildSensors', 'buildZones', 'createMatches'}


def unset_fields(P, r, seen=()):
    """scalar fields of r that default initialisation leaves without a value"""
    out = []
    for f in r['fields']:
        if f.get('init') is not None or f.get('ref'):
            continue
        t = f['t'].replace('const ', '')
        b = t[:t.rindex('[')].strip() if t.endswith(']') else t
        q = P.recname.get(b)
        if q is not None:
            if q.get('agg') and q['n'] not in seen:
                out += [f['n'] + '.' + x for x in unset_fields(P, q, seen + (r['n'],))]
        elif scalar(P, b):
            out.append(f['n'])
    for b in r['bases']:
        q = P.recname.get(b)
        if q is not None:
            out += unset_fields(P, q, seen + (r['n'],))
    return out


def scalar(P, t):
    from ..interp import is_arith, base_t, dur_period
    b = base_t(t)
    return is_arith(t) or b.endswith('*') or '(*)' in b or b in P.enums or dur_period(b) is not None and 'time_point' not in b


def sources(P, f, unset):
    """declarations and creations of f that start without a value"""
    out = []

    def v(n):
        k = n.get('k')
        if k == 'decl' and n.get('init') is None and n.get('t'):
            t = n['t']
            if t.endswith(']'):
                t = t[:t.rindex('[')].strip()
            if scalar(P, t):
                out.append((n.get('n') or '?', n.get('l')))
        elif k == 'ctor' and not n.get('args') and not n.get('zi') and n.get('oc') in unset and n.get('fn') not in P.fns:
            out.append((n['oc'], n.get('l')))
    visit(f.get('body') or {}, v)
    visit(f.get('inits') or [], v)
    return out


def creators(P, cls):
    """functions that have the library make an object of the class"""
    pat = re.compile(r'(^|[<, ])%s($|[>, ])' % re.escape(cls))
    out = set()
    for k, f in P.fns.items():
        hit = []

        def v(n):
            if n.get('k') == 'call' and (n.get('name') or '').split('::')[-1].split('<')[0] in MAKERS and \
                    (pat.search(n.get('t') or '') or pat.search(n.get('oc_t') or '')):
                hit.append(n)
        visit(f.get('body') or {}, v)
        visit(f.get('inits') or [], v)
        if hit:
            out.add(k)
    return out


def handed_out(P):
    """functions whose address is given away: whoever calls them is not in the tree"""
    out = set()
    for f in P.fns.values():
        def v(n):
            if n.get('k') not in ('call', 'ctor'):
                out.update(t for t in n.values() if isinstance(t, str) and t in P.fns)
        visit(f.get('body') or {}, v)
        visit(f.get('inits') or [], v)
    return out


def assigned(c, cfg):
    P = c.P(cfg)
    taken = handed_out(P)
    cal = callers(P)
    unset = {n for n, r in P.recname.items() if unset_fields(P, r)}
    todo = []
    for k, f in sorted(P.fns.items(), key=lambda x: (x[1]['file'], x[1]['l'] or 0)):
        if not (f.get('body') or f.get('inits')) or f.get('defaulted'):
            continue
        src = sources(P, f, unset)
        if f.get('kind') == 'ctor' and f['cls'] in unset and not (
                len(f['params']) == 1 and f['params'][0]['t'].replace('const ', '').rstrip('&') == f['cls']):
            src.append((f['cls'], f['l']))
        if src:
            todo.append(k)
        else:
            c.ok('initialised', '%s: everything it declares starts with a value' % f['n'])
    done = set()
    bad = set()
    while todo:
        # callees first; a function already reported is not entered again from its callers
        k = next((x for x in todo if not any(x in cal.get(y, ()) and x not in cal.get(x, ()) for y in todo if y != x)), todo[0])
        todo.remove(k)
        if k in done:
            continue
        done.add(k)
        f = P.fns[k]
        up = {x for x in cal.get(k, ()) if x != k}
        if f.get('kind') == 'ctor':
            up |= creators(P, f['cls']) - {k}
        up = sorted(up)
        n = len(c.vio)
        esc = function(c, cfg, f, bool(up) and k not in taken and not any(suffix_(f['n'], h) for h in HEAVY), bad)
        if len(c.vio) > n:
            bad.add(f['n'])
        if esc:
            # what a helper or a constructor hands back without a value is followed into its callers
            todo += [x for x in up if x not in done]
            c.ok('handed-back', '%s: %s' % (f['n'], ', '.join(sorted(esc))[:200]))


def function(c, cfg, f, called, bad=()):
    pol = dict(next((v for q, v in POL40.items() if suffix_(f['n'], q)), {}))
    pol['opaque'] = set(pol.get('opaque', ())) | {h for h in HEAVY if not suffix_(f['n'], h)} | set(bad) - {f['n']}
    st = None
    if f.get('kind') == 'ctor':
        st = St().setroot(THIS, Exec(c.P(cfg), Policy(uninit=True)).raw(f['cls']))
    try:
        I_, ps = c.run(f, cfg, st=st, uninit=True, keep_log=True, **pol)
    except Limit as e:
        c.undec('assigned', '%s: %s' % (f['n'], e))
        return set()
    esc = examine(c, I_, f, ps, called)
    for L in I_.loops:
        loop(c, I_, f, L)
    seen = set()
    todo = []

    def collect(s):
        for e in s.eff:
            for x in walk(e):
                if x.op == 'clo' and x.a[0] in I_.lams and x.a[0] not in seen:
                    seen.add(x.a[0])
                    todo.append(x)
    for s in ps:
        collect(s)
    while todo:
        cl = todo.pop()
        node, _ = I_.lams[cl.a[0]]
        args = [T('sym', 'carg%d' % i) for i in range(len(node.get('params') or ()))]
        n0 = len(I_.loops)
        try:
            qs = c.run_clo(I_, cl, args, uninit=True, keep_log=True, **pol)
        except Limit as e:
            c.undec('assigned', 'callback of %s: %s' % (f['n'], e))
            continue
        examine(c, I_, f, qs, False, node.get('l'))
        for L in I_.loops[n0:]:
            loop(c, I_, f, L)
        for s in qs:
            collect(s)
    return esc


def report(c, I_, f, s, items, line=None):
    """items: (what, value, effect)"""
    for what, v, ef in items:
        if not has_raw(v):
            continue
        try:
            for fx, x in worlds(s.facts, lambda o: o.val(v)):
                sure, may = raws(x)
                if not sure and not may or not lin.feasible(fx):
                    continue
                names = ', '.join(sorted(str(u.a[0]) for u in sure or may))
                if not sure or LOSSY in fx.lits:
                    c.undec('assigned', '%s: %s may be used unset: %s' % (f['n'], names, what))
                    break
                w = (f['file'], line or f['l'], f['n'])
                ln = I_.ln.get(ef) if ef is not None else None
                if ln:
                    w = (ln[0], ln[1], ln[2])
                c.viol('assigned', w, '%s: %s has no value on this path: %s' % (f['n'], names, what), fx)
                return True
        except (Undecided, Overflow) as e:
            c.undec('assigned', '%s: %s' % (f['n'], e))
    return False


def uses(s):
    out = [('it decides a branch: %s' % show(a)[:100], a, None) for a in s.facts.lits]
    return out + [('it is passed on: %s' % show(e)[:100], e, e) for e in s.eff]


def left(s, f):
    out = []
    if s.val is not None and isinstance(s.val, T):
        out.append(('it is returned', s.val, None))
    live = {x for t in [s.val] + [e for e in s.eff if e.op != 'e' or e.a[0] != 'make'] if isinstance(t, T) for x in walk(t) if x.op == 'new'}
    objs_ = {l: v for l, v in s.store.items() if l.op == 'D' and l.a[0].op == 'new'}
    rest = {l: v for l, v in s.store.items() if l.op != 'V' and l not in objs_}
    for v in rest.values():
        live |= {x for x in walk(v) if x.op == 'new'}
    grown = True
    while grown:
        # an object nobody can reach any more may be in any state
        grown = False
        for l in [l for l in objs_ if l.a[0] in live]:
            v = rest[l] = objs_.pop(l)
            live |= {x for x in walk(v) if x.op == 'new'}
            grown = True
    for l, v in rest.items():
        out.append(('it is left in %s' % show(l)[:80], v, None))
    return out


def examine(c, I_, f, ps, called, line=None):
    bad = False
    esc = set()
    for s in ps:
        bad = report(c, I_, f, s, uses(s), line) or bad
        if called or f.get('kind') == 'ctor':
            for what, v, _ in left(s, f):
                for x in walk(v):
                    if x.op == 'uninit':
                        esc.add(str(x.a[0]))
        else:
            bad = report(c, I_, f, s, left(s, f), line) or bad
    if not bad:
        c.ok('assigned', '%s: %d paths' % (f['n'], len(ps)))
    return esc


def loop(c, I_, f, L):
    """an iteration must not use what no iteration before it has set"""
    n = len(c.vio)
    entry = L.get('entry')
    raw = {l for l, v in entry.store.items() if l.op == 'V' and v.op == 'uninit'} if entry is not None else set()
    for s in [x[1] if isinstance(x, tuple) else x for x in list(L['norm']) + list(L.get('exits') or [])]:
        report(c, I_, f, s, uses(s), L['line'])
        if any(x.op == 'phi' and x.a[0] in raw for w, v, e in uses(s) for x in walk(v)):
            # the first iteration finds what was there before the loop
            def first(t):
                return subst(t, lambda x: entry.load(x.a[0]) if x.op == 'phi' and x.a[0] in entry.store else None)
            fx = Facts()
            for a, v in s.facts.lits.items():
                a = first(a)
                if has_raw(a):
                    continue
                r = fx.decide(a) if a.op != 'c' else a is TRUE
                if r is None:
                    fs = fx.assume(a, v)
                    fx = fs[0] if fs else None
                elif r != v:
                    fx = None
                if fx is None:
                    break
            if fx is not None:
                report(c, I_, f, s.withf(fx), [(w + ' (first iteration)', first(v), e) for w, v, e in uses(s)], L['line'])
    if len(c.vio) == n:
        c.ok('assigned', '%s loop at %s' % (f['n'], L['line']))
