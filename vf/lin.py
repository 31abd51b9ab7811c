"""Emptiness of the polyhedron described by the linear facts of a path
(monomials as dimensions, Fourier-Motzkin elimination over rationals)."""
from fractions import Fraction
from .term import T, _poly
from .heap import size

CAP = 1500


def poly(t):
    return {k: Fraction(v) for k, v in _poly(t).items()}


def rows(facts, extra=()):
    out = list(extra)
    for at, v in facts.lits.items():
        if at.op == 'isempty':
            p = poly(size(at.a[0]))
            if v:
                out += [({m: -c for m, c in p.items()}, False)]
            else:
                p[()] = p.get((), Fraction(0)) - 1
                out.append((p, False))
            continue
        if at.op not in ('gt', 'lt', 'eqk'):
            continue
        q, k = at.a
        if not isinstance(k, (int, Fraction)):
            continue
        p = dict(_poly(q))
        p[()] = p.get((), Fraction(0)) - Fraction(k)       # p relates to 0
        n = {m: -c for m, c in p.items()}
        if at.op == 'gt':
            out.append((p, True) if v else (n, False))
        elif at.op == 'lt':
            out.append((n, True) if v else (p, False))
        elif v:
            out += [(p, False), (n, False)]
    # sizes are non-negative
    ms = {m for r, _ in out for m in r}
    for m in ms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('size', 'count'):
            out.append(({m: Fraction(1)}, False))
        # positions lie inside their list / range
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('ix', 'el') and m[0][0].a[0].op == 'dom':
            t, d = m[0][0], m[0][0].a[0]
            lo = hi = None
            if t.op == 'ix' and d.a[0] == 'seq' and d.a[1].op != 'ite':
                lo, hi = {}, _poly(T('size', d.a[1]))
            elif t.op == 'el' and d.a[0] == 'range':
                lo, hi = _poly(d.a[1].a[0]), _poly(d.a[1].a[1])
            if hi is not None:
                r = {m: Fraction(1)}
                for k, v in lo.items():
                    r[k] = r.get(k, 0) - Fraction(v)
                out.append((r, False))
                r = {m: Fraction(-1)}
                for k, v in hi.items():
                    r[k] = r.get(k, 0) + Fraction(v)
                out.append((r, True))
    return out


def _norm(r, s):
    r = {m: c for m, c in r.items() if c}
    vs = [m for m in r if m != ()]
    if not vs:
        return (), s, r.get((), Fraction(0))
    d = abs(r[min(vs, key=lambda m: [(t.id, e) for t, e in m])])
    return tuple(sorted(((m, c / d) for m, c in r.items() if m != ()),
                        key=lambda x: [(t.id, e) for t, e in x[0]])), s, r.get((), Fraction(0)) / d


def feasible(facts, extra=()):
    rs = rows(facts, extra)
    cur = {}

    def put(r, s):
        """False when trivially contradictory"""
        vs, s, k = _norm(r, s)
        if not vs:
            return k > 0 if s else k >= 0
        o = cur.get(vs)
        if o is None or k < o[0] or (k == o[0] and s and not o[1]):
            cur[vs] = (k, s)
        return True
    for r, s in rs:
        if not put(r, s):
            return False
    while True:
        cnt = {}
        for vs in cur:
            for m, c in vs:
                x = cnt.setdefault(m, [0, 0])
                x[c > 0] += 1
        if not cnt:
            return True
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1], [(t.id, e) for t, e in m]))
        pos, ng, rest = [], [], {}
        for vs, (k, s) in cur.items():
            d = dict(vs)
            if m in d:
                (pos if d[m] > 0 else ng).append((d, k, s))
            else:
                rest[vs] = (k, s)
        cur = rest
        if len(pos) * len(ng) + len(cur) > CAP:
            return True
        for a, ka, sa in pos:
            for b, kb, sb in ng:
                fa, fb = -b[m], a[m]
                r = {}
                for x, c in a.items():
                    r[x] = r.get(x, 0) + c * fa
                for x, c in b.items():
                    r[x] = r.get(x, 0) + c * fb
                r[()] = ka * fa + kb * fb
                r.pop(m, None)
                if not put(r, sa or sb):
                    return False


def implied_equal(facts, a, b):
    p = dict(_poly(a))
    for m, c in _poly(b).items():
        p[m] = p.get(m, Fraction(0)) - c
    n = {m: -c for m, c in p.items()}
    return not feasible(facts, [(p, True)]) and not feasible(facts, [(n, True)])
