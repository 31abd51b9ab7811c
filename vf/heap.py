"""Functional store: locations, records, containers."""
from .term import *
from .term import _spine as spine


def mkD(p):
    if p.op == 'addr':
        return p.a[0]
    return T('D', p)


def addr(l):
    if l.op == 'D':
        return l.a[0]
    return T('addr', l)


def F(l, f):
    if l.op == 'P':
        if f == 'second':
            return T('I', l.a[0], l.a[1])
        if f == 'first':
            return T('val', l.a[1])
    if l.op == 'val':
        return T('val', getf(l.a[0], f))
    return T('F', l, f)


def I(l, k):
    if l.op == 'val':
        return T('val', getat(l.a[0], k))
    return T('I', l, k)


def rec(base, **f):
    r = base
    for k in f:
        r = setf(r, k, f[k])
    return r


def rec0(cls):
    return T('rec0', cls)


def pair(a, b):
    return setf(setf(rec0('pair'), 'first', a), 'second', b)


def optval(o):
    """what a std::optional holds (there is nothing to read when it is empty)"""
    if o.op == 'some':
        return o.a[0]
    if o.op == 'ite':
        if o.a[1] is NULL:
            return optval(o.a[2])
        if o.a[2] is NULL:
            return optval(o.a[1])
        return ite(o.a[0], optval(o.a[1]), optval(o.a[2]))
    return T('sel', o, '#opt')


def getf(r, f):
    if f == '#opt':
        return optval(r)
    if r.op == 'rec':
        for k, v in r.a[1]:
            if k == f:
                return v
        return getf(r.a[0], f)
    if r.op == 'ite':
        return ite(r.a[0], getf(r.a[1], f), getf(r.a[2], f))
    if r.op == 'some':
        return getf(r.a[0], f)
    return T('sel', r, f)


def setf(r, f, v):
    if f == '#opt':
        return r if v.op == 'sel' and v.a[0] is r and v.a[1] == f else T('some', v)
    base, d = (r.a[0], dict(r.a[1])) if r.op == 'rec' else (r, {})
    if v.op == 'sel' and v.a[0] is base and v.a[1] == f:
        d.pop(f, None)
    else:
        d[f] = v
    if not d:
        return base
    return T('rec', base, tuple(sorted(d.items())))


def elof(c):
    return None


def getat(c, k):
    if c.op == 'upd':
        if c.a[1] is k:
            return c.a[2]
        e = eq(c.a[1], k)
        return ite(e, c.a[2], getat(c.a[0], k))
    if c.op == 'del':
        e = eq(c.a[1], k)
        return ite(e, T('absent', k), getat(c.a[0], k))
    if c.op == 'ite':
        return ite(c.a[0], getat(c.a[1], k), getat(c.a[2], k))
    if k.op == 'ite':
        return ite(k.a[0], getat(c, k.a[1]), getat(c, k.a[2]))
    if c.op == 'push':
        n = size(c.a[0])
        if is_num(n) and is_num(k):
            return c.a[1] if n is k else getat(c.a[0], k)
    if k.op == 'ix' and k.a[0].a[0] == 'seq' and k.a[0].a[1] is c:
        return T('el', k.a[0])
    if k.op == 'sel' and k.a[1] == 'first' and k.a[0].op in ('el', 'first') and \
            k.a[0].a[0].a[0] == 'map' and k.a[0].a[0].a[1] is c:
        return T('sel', k.a[0], 'second')
    if c.op == 'arrv' and is_num(k) and 0 <= cval(k) < len(c.a[0]):
        return c.a[0][int(cval(k))]
    if k.op == 'ix' and k.a[0].a[0] == 'seq' and c.op == 'comp' and len(c.a) == 4 and c.a[1] is TRUE and c.a[3].op == 'empty' and \
            c.a[0].a[:2] == k.a[0].a[:2]:
        # k-th element of a list built element by element
        d0, d1 = c.a[0], k.a[0]
        if d0 is d1:
            return c.a[2]
        e0, e1, i0 = T('el', d0), T('el', d1), T('ix', d0)
        return subst(c.a[2], lambda y: e1 if y is e0 else (k if y is i0 else (
            y if y.op in BIND and y.a and y.a[0] is d0 else None)))
    return T('at', c, k)


def has(c, k):
    if c.op == 'empty':
        return FALSE
    if c.op == 'upd':
        if c.a[1] is k:
            return TRUE
        return ite(eq(c.a[1], k), TRUE, has(c.a[0], k))
    if c.op == 'del':
        return ite(eq(c.a[1], k), FALSE, has(c.a[0], k))
    if c.op == 'push':
        return ite(eq(c.a[1], k), TRUE, has(c.a[0], k))
    if c.op == 'ite':
        return ite(c.a[0], has(c.a[1], k), has(c.a[2], k))
    if k.op == 'ite':
        return ite(k.a[0], has(c, k.a[1]), has(c, k.a[2]))
    if k.op in ('el', 'first') and k.a[0].a[0] == 'seq' and k.a[0].a[1] is c:
        return TRUE
    if k.op == 'sel' and k.a[1] == 'first' and k.a[0].op in ('el', 'first') and \
            k.a[0].a[0].a[0] == 'map' and k.a[0].a[0].a[1] is c:
        return TRUE
    if c.op == 'arrv':
        r = FALSE
        for x in reversed(c.a[0]):
            r = ite(eq(x, k), TRUE, r)
        return r
    if c.op == 'comp' and c.a[2].op == 'el' and c.a[2].a[0] is c.a[0] and c.a[1] is TRUE and c.a[3].op == 'empty':
        return has(c.a[0].a[1], k)
    if c.op == 'mcomp':
        d = c.a[0]
        e, i = T('el', d), T('ix', d)
        if not any(x is e or x is i or x.op in ('oldat', 'oldhas') for t in (k, c.a[1]) for x in walk(t)):
            return ite(mkany(d, bdd(ite(c.a[1], eq(c.a[2], k), FALSE))), TRUE, has(c.a[4], k))
    return T('has', c, k)


def upd(c, k, v):
    if k.op == 'ite':
        return ite(k.a[0], upd(c, k.a[1], v), upd(c, k.a[2], v))
    if c.op == 'upd' and c.a[1] is k:
        return upd(c.a[0], k, v)
    if v.op == 'at' and v.a[0] is c and v.a[1] is k:
        # rewriting the present value; keep as a "touch"
        return T('upd', c, k, v)
    return T('upd', c, k, v)


def delk(c, k):
    if c.op == 'empty':
        return c
    if c.op == 'upd' and c.a[1] is k:
        return delk(c.a[0], k)
    if c.op == 'del' and c.a[1].op == 'c' and k.op == 'c' and k.id < c.a[1].id:
        return T('del', delk(c.a[0], k), c.a[1])
    return T('del', c, k)


def size(c):
    if c.op == 'empty':
        return ZERO
    if c.op == 'push':
        return add(size(c.a[0]), C(1))
    if c.op == 'arrv':
        return C(len(c.a[0]))
    if c.op == 'ite':
        return ite(c.a[0], size(c.a[1]), size(c.a[2]))
    if is_str(c):
        return C(len(cval(c)))
    if c.op == 'comp' and c.a[1] is TRUE and c.a[3].op == 'empty':
        d = c.a[0]
        if d.a[0] in ('seq', 'map'):
            return size(d.a[1])
        if d.a[0] == 'range':
            lo, hi = d.a[1].a
            if lo is ZERO:
                return hi
    if c.op in ('mapl',):
        return size(c.a[0].a[1])
    return T('size', c)


def cat(*xs):
    out = []
    for x in xs:
        ys = x.a if x.op == 'cat' else (x,)
        for y in ys:
            if is_str(y):
                if cval(y) == '':
                    continue
                if out and is_str(out[-1]):
                    out[-1] = C(cval(out[-1]) + cval(y))
                    continue
            out.append(y)
    for i, x in enumerate(out):
        if x.op == 'ite':
            return ite(x.a[0], cat(*(out[:i] + [x.a[1]] + out[i + 1:])),
                       cat(*(out[:i] + [x.a[2]] + out[i + 1:])))
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


def tostr(x):
    if is_num(x) and not isinstance(cval(x), Fraction):
        return C(str(cval(x)))
    if is_str(x):
        return x
    if x.op == 'ite':
        return ite(x.a[0], tostr(x.a[1]), tostr(x.a[2]))
    return T('tostr', x)


def substr(c, i=None, n=None):
    i = ZERO if i is None else i
    n = C(2 ** 64 - 1) if n is None else n
    whole = is_num(n) and cval(n) in (2 ** 64 - 1, -1)
    if whole and i is ZERO:
        return c
    r = T('substr', c, i, n)
    # from behind the first x of c: all of c when there is none (npos + 1 is 0)
    f = sub(i, C(1))
    if whole and f.op in ('strfind', 'strrfind') and len(f.a) == 2 and f.a[0] is c and is_str(f.a[1]) and len(cval(f.a[1])) == 1:
        return ite(T('contains', c, f.a[1]), r, c)
    return r


def ext(dom, kind, guard, val):
    """extremum of val over the (non-empty) elements satisfying guard"""
    return T('ext', dom, kind, guard, val)


def red(dom, kind, guard, val, init, until):
    if until is None:
        until = FALSE
    if kind == 'sum':
        z = eq(val, ZERO)
        if z.op not in ('ite', 'not', 'c'):
            guard = spine(guard, z, False)        # leaving out a nothing changes no sum
    xs = small(dom)
    if xs is not None and kind == 'sum' and until is FALSE:
        r = init
        for i, x in enumerate(xs):
            r = add(r, ite(inst(guard, dom, x, C(i)), inst(val, dom, x, C(i)), ZERO))
        return r
    if kind in ('max', 'min') and until is FALSE and init.op == 'inf' and (init.a[0] < 0) == (kind == 'max'):
        return ite(mkany(dom, guard), ext(dom, kind, guard, val), init)
    return T('red', dom, kind, guard, val, init, until)


REB.update({
    'sel': lambda r, f: getf(r, f),
    'rec': lambda b, fs: _rerec(b, fs),
    'at': lambda c, k: getat(c, k),
    'has': lambda c, k: has(c, k),
    'size': lambda c: size(c),
    'cat': lambda *x: cat(*x),
    'tostr': lambda x: tostr(x),
    'D': lambda p: mkD(p),
    'addr': lambda l: addr(l),
    'F': lambda l, f: F(l, f),
    'any': lambda d, g: mkany(d, g),
    'upd': lambda c, k, v: upd(c, k, v),
    'del': lambda c, k: delk(c, k),
})


def _rerec(b, fs):
    for k, v in fs:
        b = setf(b, k, v)
    return b


def el_subst(t, dom, w):
    """replace the bound element (and index) of dom by the witness w, not
    descending into binders that rebind dom"""
    el, ix = T('el', dom), T('ix', dom)
    wi = T('ixof', w)
    memo = {}

    def f(x):
        if x is el:
            return w
        if x is ix:
            return wi
        if x.op in BIND and x.a and x.a[0] is dom:
            return x
        return None
    return subst(t, f, memo)


def conj(lits):
    """boolean term for a conjunction of (atom, bool)"""
    r = TRUE
    for a, v in reversed(list(lits)):
        r = ite(a, r, FALSE) if v else ite(a, FALSE, r)
    return r


class _Big(Exception):
    pass


DTMAX = 6000


def dtree(paths, base=None):
    """paths: [(dict atom->bool, value)] covering -> ite tree"""
    try:
        return _dtree([(frozenset(l.items()), v) for l, v in paths], {}, [DTMAX])
    except _Big:
        vs = []
        for _, v in paths:
            if v not in vs:
                vs.append(v)
        return vs[0] if len(vs) == 1 else T('ambig', *vs)


def _dtree(paths, memo, left):
    if not paths:
        return T('unreach')
    v0 = paths[0][1]
    if all(v is v0 for _, v in paths):
        return v0
    key = frozenset(paths)
    r = memo.get(key)
    if r is not None:
        return r
    left[0] -= 1
    if left[0] < 0:
        raise _Big()
    # choose the atom shared by most paths
    cnt = {}
    for lits, _ in paths:
        for a, _b in lits:
            cnt[a] = cnt.get(a, 0) + 1
    if not cnt:
        return T('ambig', *[v for _, v in paths])
    m = max(cnt.values())
    at = min((a for a in cnt if cnt[a] == m), key=lambda a: a.id)
    ts, fs = [], []
    for lits, v in paths:
        p, n = (at, True) in lits, (at, False) in lits
        r = lits - {(at, True), (at, False)}
        if not n:
            ts.append((r, v))
        if not p:
            fs.append((r, v))
    a, b = _dtree(ts, memo, left), _dtree(fs, memo, left)
    r = b if a.op == 'unreach' else a if b.op == 'unreach' else ite(at, a, b)
    memo[key] = r
    return r


def cases(t, conds=()):
    """[(conds, leaf)] of an ite tree"""
    if t.op == 'ite':
        return cases(t.a[1], conds + ((t.a[0], True),)) + cases(t.a[2], conds + ((t.a[0], False),))
    return [(conds, t)]


_bm = {}


def bdd(t, key=None):
    """canonical (ordered, reduced) form of an ite tree of atoms"""
    if key is None:
        r = _bm.get(t)
        if r is not None:
            return r
    ats = set()

    def coll(x):
        if x.op == 'ite':
            collb(x.a[0])
            coll(x.a[1])
            coll(x.a[2])
        elif x.op == 'not':
            collb(x)

    def collb(x):
        if x.op == 'ite':
            collb(x.a[0]); collb(x.a[1]); collb(x.a[2])
        elif x.op == 'not':
            collb(x.a[0])
        elif x.op != 'c':
            ats.add(x)
    coll(t)
    isb = _isbool(t)
    if isb:
        collb(t)
    if len(ats) > 14:
        if key is None:
            _bm[t] = t
        return t
    # isfin(x) comes right before isnan(x): it excludes it
    order = sorted(ats, key=key or (lambda a: (T('isfin', a.a[0]).id, 1) if a.op == 'isnan' else (a.id, 0)))
    memo = {}

    def cof(x, a, v):
        k = (x, a, v)
        if k in memo:
            return memo[k]
        if x is a:
            r = TRUE if v else FALSE
        elif v and x.op == 'isnan' and a.op == 'isfin' and a.a[0] is x.a[0]:
            r = FALSE
        elif x.op == 'ite':
            r = ite(cof(x.a[0], a, v), cof(x.a[1], a, v), cof(x.a[2], a, v))
        elif x.op == 'not':
            r = lnot(cof(x.a[0], a, v))
        else:
            r = x
        memo[k] = r
        return r

    def build(x, i):
        if i == len(order):
            return x
        a = order[i]
        h, l = build(cof(x, a, True), i + 1), build(cof(x, a, False), i + 1)
        return ite(a, h, l)
    r = build(t, 0)
    if key is None:
        _bm[t] = r
    return r


BOOLOPS = {'gt', 'lt', 'eqk', 'eqc', 'isnull', 'isempty', 'has', 'any', 'isfin', 'isnan', 'not', 'contains', 'endswith', 'startswith', 'ok'}


def _isbool(t):
    if t.op == 'c':
        return t.a[0] == 'b'
    if t.op == 'ite':
        return _isbool(t.a[1]) and _isbool(t.a[2])
    return t.op in BOOLOPS
