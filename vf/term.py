"""Interned symbolic values with a ring normal form, and path facts.

Nothing here executes or solves anything: terms are syntactic normal forms of
the values an expression of the program denotes, and Facts records which
primitive conditions hold on a control-flow path (three-valued lookups with a
transitive closure over orderings)."""
from fractions import Fraction


MARKED = frozenset(('phi', 'el', 'ix', 'oldhas', 'oldat'))


def _tmask(x):
    m = 0
    for y in x:
        if y.__class__ is T:
            m |= y.m
        elif y.__class__ is tuple:
            m |= _tmask(y)
    return m


class T:
    __slots__ = ('op', 'a', 'id', '_at', 'm')
    _tab = {}
    _n = 0

    def __new__(cls, op, *a):
        key = (op,) + a
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a = op, a
            T._n += 1
            t.id = T._n
            t._at = None
            m = 0
            for x in a:
                if x.__class__ is T:
                    m |= x.m
                elif x.__class__ is tuple:
                    m |= _tmask(x)
            if op in MARKED:
                m |= 1 << (T._n % 509)
            t.m = m
            cls._tab[key] = t
        return t

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def num(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return v
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def C(v):
    """constant: bool, int/Fraction, str, None (null)"""
    if isinstance(v, bool):
        return T('c', 'b', v)
    if v is None:
        return T('c', 'n', None)
    if isinstance(v, str):
        return T('c', 's', v)
    if isinstance(v, float) and v != v:
        return NAN
    if v in (float('inf'), float('-inf')):
        return T('inf', 1 if v > 0 else -1)
    return T('c', 'i', num(v))


NAN = T('nan')
TRUE = C(True)
FALSE = C(False)
NULL = C(None)
ZERO = C(0)


def is_c(t):
    return t.op == 'c'


def is_num(t):
    return t.op == 'c' and t.a[0] == 'i'


def is_str(t):
    return t.op == 'c' and t.a[0] == 's'


def cval(t):
    return t.a[1]


# ------------------------------------------------------------------ ring
# poly: T('poly', ((mono, coef), ...)) where mono is a tuple of (term, exp)
# sorted by term id and the constant monomial is ().

def _poly(t):
    if t.op == 'c':
        if t.a[0] == 'i':
            return {(): Fraction(t.a[1])} if t.a[1] != 0 else {}
        if t.a[0] == 'b':
            return {(): Fraction(1)} if t.a[1] else {}
    if t.op == 'poly':
        return {m: Fraction(c) for m, c in t.a[0]}
    return {((t, 1),): Fraction(1)}


def _mk(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = tuple(sorted(((m, num(c)) for m, c in p.items()),
                       key=lambda x: [(t.id, e) for t, e in x[0]]))
    return T('poly', key)


def add(*ts):
    if any(t is NAN for t in ts):
        return NAN
    p = {}
    for t in ts:
        for m, c in _poly(t).items():
            p[m] = p.get(m, 0) + c
    return _mk(p)


def _mmul(a, b):
    d = {}
    for t, e in a + b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: x[0].id))


def mul(*ts):
    if any(t is NAN for t in ts):
        return NAN
    r = {(): Fraction(1)}
    for t in ts:
        q = _poly(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in q.items():
                m = _mmul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = n
    return _mk(r)


def neg(t):
    return mul(C(-1), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if is_num(b) and cval(b) != 0:
        return mul(a, C(Fraction(1) / Fraction(cval(b))))
    if b.op == 'poly' and len(b.a[0]) == 1:
        m, c = b.a[0][0]
        inv = T('poly', ((tuple((t, -e) for t, e in m), num(Fraction(1) / Fraction(c))),))
        return mul(a, inv)
    if b.op != 'poly' and not is_num(b):
        return mul(a, T('poly', ((((b, -1),), 1),)))
    return mul(a, T('poly', ((((b, -1),), 1),))) if not is_num(b) else T('divz', a)


# ------------------------------------------------------------------ booleans
def lnot(t):
    if t.op == 'c':
        if t.a[0] == 'b':
            return C(not t.a[1])
        if t.a[0] == 'i':
            return C(t.a[1] == 0)
        if t.a[0] == 'n':
            return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'ite':
        return ite(t.a[0], lnot(t.a[1]), lnot(t.a[2]))
    return T('not', t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op != 'ite':
        if a.op in _SPINE:
            a = _spine(a, c, True)
        if b.op in _SPINE:
            b = _spine(b, c, False)
        if a is b:
            return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    return T('ite', c, a, b)


_SPINE = ('ite', 'not')
_sp = {}


def _spine(x, c, v):
    """x knowing that condition c is v (conditional skeleton only)"""
    if x is c:
        return TRUE if v else FALSE
    if x.op not in _SPINE:
        return x
    k = (x, c, v)
    r = _sp.get(k)
    if r is None:
        if x.op == 'not':
            r = lnot(_spine(x.a[0], c, v))
        elif x.a[0] is c:
            r = _spine(x.a[1 if v else 2], c, v)
        else:
            r = ite(_spine(x.a[0], c, v), _spine(x.a[1], c, v), _spine(x.a[2], c, v))
        _sp[k] = r
    return r


def canon(p):
    """canonical (poly without constant, leading coef 1), constant k, sign:
    value(p) = sign*scale*(q + k)"""
    d = _poly(p)
    k = d.pop((), Fraction(0))
    if not d:
        return None, k, 1
    lead = min(d, key=lambda m: [(t.id, e) for t, e in m])
    c = d[lead]
    q = _mk({m: v / c for m, v in d.items()})
    return q, k / c, (1 if c > 0 else -1)


def lt(a, b):
    """a < b as a canonical boolean term (NaN ignored)"""
    if a is NAN or b is NAN:
        return FALSE
    if a.op == 'inf' or b.op == 'inf':
        if a is b:
            return FALSE
        if a.op == 'inf':
            return C(a.a[0] < 0)
        return C(b.a[0] > 0)
    if a.op == 'ite':
        return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    if a.op == 'dcast' and _intish(b):      # floor(x) < n  <=>  x < n
        a = a.a[1]
    p = sub(b, a)           # p > 0
    q, k, s = canon(p)
    if q is None:
        return C(k > 0)
    r = split_ites(q, lambda z: lt(C(num(-k)), z) if s > 0 else lt(z, C(num(-k))))
    if r is not None:
        return r
    if p.op == 'poly' and 2 <= len(p.a[0]) <= 3:
        # a position of a list is below its size
        d = dict(p.a[0])
        for mm, cc in p.a[0]:
            if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == 'size':
                pos = [m2 for m2, c2 in p.a[0] if c2 == -1 and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].op == 'ix' and
                       m2[0][0].a[0].a[0] == 'seq' and m2[0][0].a[0].a[1] is mm[0][0].a[0]]
                if pos and len(p.a[0]) - 2 == (1 if () in d else 0) and d.get((), 0) >= 0:
                    return TRUE
    # s*(q+k) > 0  ->  q > -k  or q < -k
    if q.op == 'size' and not isinstance(num(-k), Fraction):
        n = num(-k)
        if s > 0 and n == 0:
            return lnot(isempty(q.a[0]))
        if s > 0 and n < 0:
            return TRUE
        if s < 0 and n == 1:
            return isempty(q.a[0])
        if s < 0 and n <= 0:
            return FALSE
    if s > 0:
        return T('gt', q, num(-k))
    return T('lt', q, num(-k))


def isempty(c):
    if c.op == 'empty':
        return TRUE
    if c.op in ('push', 'upd', 'cat') :
        if c.op == 'cat' and not any(is_str(x) and cval(x) for x in c.a):
            return T('isempty', c)
        return FALSE
    if is_str(c):
        return C(cval(c) == '')
    if c.op == 'ite':
        return ite(c.a[0], isempty(c.a[1]), isempty(c.a[2]))
    if c.op == 'tostr':
        return FALSE
    if c.op == 'comp' and c.a[3].op == 'empty':
        dom, g = c.a[0], c.a[1]
        if g is TRUE and dom.a[0] in ('seq', 'map'):
            return isempty(dom.a[1])
        return lnot(mkany(dom, g))
    return T('isempty', c)


BIND = {'comp', 'any', 'red', 'fold', 'first', 'foreach', 'catl', 'filter', 'mapl', 'while', 'clo', 'anyu', 'lastel', 'ext', 'mcomp', 'arg',
        'repeat', 'compn'}


def small(dom):
    """the elements of a domain that is a short literal list"""
    if dom.a[0] == 'seq' and isinstance(dom.a[1], T) and dom.a[1].op == 'arrv' and len(dom.a[1].a[0]) <= 8:
        return dom.a[1].a[0]
    return None


def inst(t, dom, x, i):
    el, ix = T('el', dom), T('ix', dom)

    def f(y):
        if y is el:
            return x
        if y is ix:
            return i
        if y.op in BIND and y.a and y.a[0] is dom:
            return y
        return None
    return subst(t, f)


def mkany(dom, g):
    """exists an element of dom satisfying g"""
    if g is FALSE:
        return FALSE
    if g is TRUE and dom.a[0] in ('seq', 'map'):
        return lnot(isempty(dom.a[1]))
    el = T('el', dom)
    xs = small(dom)
    if xs is not None:
        r = FALSE
        for i, x in reversed(list(enumerate(xs))):
            r = ite(inst(g, dom, x, C(i)), TRUE, r)
        return r
    if dom.a[0] in ('seq', 'map'):
        key = el if dom.a[0] == 'seq' else T('sel', el, 'first')
        x = None
        if g.op == 'eqc' and g.a[0] is key:
            x = g.a[1]
        elif g.op == 'isempty' and g.a[0] is key:
            x = C('')
        elif g.op == 'eqk':
            d = _poly(g.a[0])
            m = ((key, 1),)
            if m in d:
                c = d.pop(m)
                if not any(key in set(walk(t)) for mm in d for t, _ in mm):
                    # c*key + rest == k  ->  key == (k - rest)/c
                    x = div(sub(C(g.a[1]), _mk(d)), C(c))
        if x is not None and el not in set(walk(x)):
            return T('has', dom.a[1], x)
    return T('any', dom, g)


def _intish(t):
    if is_num(t):
        return not isinstance(cval(t), Fraction)
    return t.op in ('int', 'dcast') or (t.op == 'rd') or True


def le(a, b):
    if a is NAN or b is NAN:
        return FALSE
    return lnot(lt(b, a))


NUMOPS = {'poly', 'int', 'trunc', 'dcast', 'size', 'now'}


def eq(a, b):
    if a is b:
        return TRUE
    if a is NAN or b is NAN:
        return FALSE
    if a.op == 'ite':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'c' and b.op == 'c':
        if a.a[0] in 'ib' and b.a[0] in 'ib':
            return C(int(a.a[1]) == b.a[1])
        return C(a.a == b.a)
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return lnot(y)
        if x is NULL and y.op in ('addr', 'some'):
            return FALSE
        if x.op == 'c' and x.a[0] == 's':
            if x.a[1] == '':
                return isempty(y)
            return T('eqc', y, x)
        if x is NULL:
            return T('isnull', y)
    if a.op == 'addr' and b.op == 'addr':
        x, y = locroot(a.a[0]), locroot(b.a[0])
        if x is not y and ('V' in (x.op, y.op) or x.op == y.op == 'G'):
            return FALSE                           # distinct objects
    if a.op == 'not':
        return lnot(eq(a.a[0], b))
    if b.op == 'not':
        return lnot(eq(a, b.a[0]))
    if is_num(a) or is_num(b) or a.op == 'poly' or b.op == 'poly':
        q, k, s = canon(sub(a, b))
        if q is None:
            return C(k == 0)
        if q.op == 'size' and k == 0:
            return isempty(q.a[0])
        return eqfin(q, k)
    x, y = sorted((a, b))
    q, k, s = canon(sub(x, y))
    if q is None:
        return C(k == 0)
    return eqfin(q, k)


def locroot(l):
    while l.op in ('F', 'I'):
        l = l.a[0]
    return l


def numleaf(t):
    return is_num(t) or t.op == 'ite' and numleaf(t.a[1]) and numleaf(t.a[2])


def split_ites(q, f):
    """f(poly without conditionals) distributed over the numeric conditionals
    added up in q, or None when there are none"""
    if q.op != 'poly':
        return None
    d = _poly(q)
    ms = [m for m in d if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and numleaf(m[0][0])]
    if not ms or len(ms) > 8:
        return None
    rest = _mk({m: v for m, v in d.items() if m not in ms})

    def go(i, acc):
        if i == len(ms):
            return f(acc)

        def leaf(t):
            if t.op == 'ite':
                return ite(t.a[0], leaf(t.a[1]), leaf(t.a[2]))
            return go(i + 1, add(acc, mul(C(d[ms[i]]), t)))
        return leaf(ms[i][0][0])
    return go(0, rest)


def eqfin(q, k):
    if q.op == 'poly' and k == 0:
        d = _poly(q)
        if len(d) == 2 and sum(d.values()) == 0 and all(len(m) == 1 and m[0][1] == 1 for m in d):
            x, y = (m[0][0] for m in d)
            if x.op == 'c' or y.op == 'c':
                return eq(x, y)
    r = split_ites(q, lambda p: eq(p, C(num(-k))))
    return r if r is not None else T('eqk', q, num(-k))


# ------------------------------------------------------------------ traversal
def subst(t, f, memo=None):
    """rebuild t with leaf replacement f(term)->term or None; re-normalises"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, f, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        r = rebuild(t, lambda x: subst(x, f, memo))
    memo[t] = r
    return r


def substd(t, d, memo=None):
    """subst by a dictionary whose keys are MARKED terms"""
    m = 0
    for k in d:
        m |= 1 << (k.id % 509)
    return _substd(t, d, m, {} if memo is None else memo)


def _substd(t, d, m, memo):
    if t.__class__ is tuple:
        return tuple(_substd(x, d, m, memo) for x in t) if _tmask(t) & m else t
    if t.__class__ is not T or not t.m & m:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = d.get(t)
    if r is None:
        r = rebuild(t, lambda x: _substd(x, d, m, memo))
    memo[t] = r
    return r


def occurs(x, t):
    """does the MARKED term x occur in t"""
    b = 1 << (x.id % 509)
    if not t.m & b:
        return False
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.__class__ is tuple:
            st.extend(y)
        elif y.__class__ is T and y.m & b and y not in seen:
            seen.add(y)
            st.extend(y.a)
    return False


REB = {}


def rebuild(t, g):
    op = t.op
    if op in ('c', 'nan', 'inf', 'sym'):
        return t
    if op == 'poly':
        out = []
        for m, c in t.a[0]:
            x = C(c)
            for b, e in m:
                nb = g(b)
                for _ in range(abs(e)):
                    x = mul(x, nb) if e > 0 else div(x, nb)
            out.append(x)
        return add(*out)
    if op in ('gt', 'lt'):
        q, k = g(t.a[0]), C(t.a[1])
        return lt(k, q) if op == 'gt' else lt(q, k)
    if op == 'eqk':
        return eq(g(t.a[0]), C(t.a[1]))
    if op == 'eqc':
        return eq(g(t.a[0]), t.a[1])
    if op == 'isnull':
        return eq(g(t.a[0]), NULL)
    if op == 'isempty':
        return isempty(g(t.a[0]))
    if op == 'not':
        return lnot(g(t.a[0]))
    if op == 'ite':
        return ite(g(t.a[0]), g(t.a[1]), g(t.a[2]))
    na = tuple(g(x) if isinstance(x, T) else
               (_reb_tuple(x, g) if isinstance(x, tuple) else x) for x in t.a)
    h = REB.get(op)
    if h:
        return h(*na)
    return T(op, *na)


def _reb_tuple(x, g):
    return tuple(g(y) if isinstance(y, T) else
                 (_reb_tuple(y, g) if isinstance(y, tuple) else y) for y in x)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def has_op(t, *ops):
    return any(x.op in ops for x in walk(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == 'c':
        if a[0] == 's':
            return '"%s"' % a[1]
        if a[0] == 'n':
            return 'null'
        return str(a[1]).lower() if a[0] == 'b' else str(a[1])
    if op == 'nan':
        return 'NaN'
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = [s(b) + ('^%d' % e if e != 1 else '') for b, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op == 'gt':
        return '%s > %s' % (s(a[0]), a[1])
    if op == 'lt':
        return '%s < %s' % (s(a[0]), a[1])
    if op == 'eqk':
        return '%s == %s' % (s(a[0]), a[1])
    if op in ('eqc',):
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'isnull':
        return '%s == null' % s(a[0])
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'rd':
        return s(a[0])
    if op == 'addr':
        return '&' + s(a[0])
    if op == 'D':
        return s(a[0]) + '->'
    if op == 'sym':
        return str(a[0])
    if op == 'V':
        return str(a[0])
    if op == 'G':
        return str(a[1])
    if op == 'F':
        b = s(a[0])
        return (b + '.' if not b.endswith('->') else b) + str(a[1])
    if op == 'sel':
        b = s(a[0])
        return b + ('' if b.endswith('->') else '.') + str(a[1])
    if op == 'D':
        b = s(a[0])
        return b + '->' if b != 'this' else 'this->'
    if op == 'I' or op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'el':
        return 'el%d(%s)' % (a[0].a[2], s(a[0].a[1]))
    if op == 'ix':
        return 'ix%d(%s)' % (a[0].a[2], s(a[0].a[1]))
    if op == 'dom':
        return '%s%d:%s' % (a[0], a[2], s(a[1]))
    if op == 'rec':
        return '{%s | %s}' % (s(a[0]), ', '.join('%s=%s' % (k, s(v)) for k, v in a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


# ------------------------------------------------------------------ facts
def _dels(c):
    ks = set()
    while c.op == 'del' and c.a[1].op == 'c':
        ks.add(c.a[1])
        c = c.a[0]
    return c, frozenset(ks)


class Facts:
    """conjunction of primitive literals"""
    __slots__ = ('lits', '_ix', '_key')

    def __init__(self, lits=None):
        self.lits = lits or {}
        self._ix = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.lits.items())
        return self._key

    # index: numeric bounds per poly, ordering graph, string equalities
    def ix(self):
        if self._ix is None:
            b = {}
            eqc = {}
            edges = {}
            for at, v in self.lits.items():
                self._add(b, eqc, edges, at, v)
            self._ix = (b, eqc, edges)
        return self._ix

    @staticmethod
    def _add(b, eqc, edges, at, v):
        op = at.op
        if op in ('gt', 'lt', 'eqk'):
            q, k = at.a
            lo, ls, hi, hs, ne = b.get(q, (None, False, None, False, ()))
            if op == 'gt':
                if v:
                    if lo is None or k > lo or (k == lo and not ls):
                        lo, ls = k, True
                else:
                    if hi is None or k < hi:
                        hi, hs = k, False
            elif op == 'lt':
                if v:
                    if hi is None or k < hi or (k == hi and not hs):
                        hi, hs = k, True
                else:
                    if lo is None or k > lo:
                        lo, ls = k, False
            else:
                if v:
                    if lo is None or k > lo:
                        lo, ls = k, False
                    if hi is None or k < hi:
                        hi, hs = k, False
                else:
                    ne = ne + (k,)
            b[q] = (lo, ls, hi, hs, ne)
            # edges for difference orderings
            d = _poly(q)
            if len(d) == 2 and k == 0:
                (m1, c1), (m2, c2) = d.items()
                if {c1, c2} == {Fraction(1), Fraction(-1)}:
                    x, y = (m1, m2) if c1 == 1 else (m2, m1)   # q = x - y
                    Facts._edge(edges, op, v, x, y)
            elif len(d) == 1:
                (m1, c1), = d.items()
                Facts._edge(edges, op, v, m1, ('k', k))
        elif op == 'eqc':
            known, ex = eqc.get(at.a[0], (None, frozenset()))
            if v:
                known = at.a[1]
            else:
                ex = ex | {at.a[1]}
            eqc[at.a[0]] = (known, ex)

    @staticmethod
    def _edge(edges, op, v, x, y):
        # edge a->b strict: a < b (or <=)
        def e(a, b_, strict):
            edges.setdefault(a, []).append((b_, strict))
        if op == 'gt':
            e(y, x, True) if v else e(x, y, False)
        elif op == 'lt':
            e(x, y, True) if v else e(y, x, False)
        elif v:
            e(x, y, False)
            e(y, x, False)

    def _reach(self, x, y):
        """None, 'le' or 'lt': is x <(=) y derivable"""
        edges = self.ix()[2]
        best = {x: False}
        work = [x]
        while work:
            n = work.pop()
            nxt = list(edges.get(n, ()))
            if n and n[0] == 'k':
                for m in edges:
                    if m and m[0] == 'k' and m[1] > n[1]:
                        nxt.append((m, True))
                if y and y[0] == 'k' and y[1] > n[1]:
                    nxt.append((y, True))
                elif y and y[0] == 'k' and y[1] == n[1] and n != y:
                    nxt.append((y, False))
            for m, s in nxt:
                ns = best[n] or s
                if m not in best or (ns and not best[m]):
                    best[m] = ns
                    work.append(m)
        if y in best and y != x:
            return 'lt' if best[y] else 'le'
        return None

    def decide(self, t):
        """True/False/None for a boolean term"""
        if t.op == 'c':
            if t.a[0] == 'b':
                return t.a[1]
            if t.a[0] == 'i':
                return t.a[1] != 0
            if t.a[0] == 'n':
                return False
            return None
        if t.op == 'not':
            r = self.decide(t.a[0])
            return None if r is None else not r
        if t.op == 'ite':
            c = self.decide(t.a[0])
            if c is True:
                return self.decide(t.a[1])
            if c is False:
                return self.decide(t.a[2])
            x, y = self.decide(t.a[1]), self.decide(t.a[2])
            return x if x is not None and x == y else None
        if t.op == 'and':
            rs = [self.decide(x) for x in t.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if t.op == 'or':
            rs = [self.decide(x) for x in t.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        v = self.lits.get(t)
        if v is not None:
            return v
        if t.op in ('gt', 'lt', 'eqk'):
            q, k = t.a
            b = self.ix()[0].get(q)
            lo = ls = hi = hs = None
            ne = ()
            if b:
                lo, ls, hi, hs, ne = b
            if q.op in ('size', 'count') and (lo is None or lo < 0):
                lo, ls = 0, False
            if t.op == 'gt':
                if lo is not None and (lo > k or (lo == k and ls)):
                    return True
                if lo is not None and lo == k and k in ne:
                    return True
                if hi is not None and hi <= k:
                    return False
            elif t.op == 'lt':
                if hi is not None and (hi < k or (hi == k and hs)):
                    return True
                if hi is not None and hi == k and k in ne:
                    return True
                if lo is not None and lo >= k:
                    return False
            else:
                if k in ne:
                    return False
                if lo is not None and (lo > k or (lo == k and ls)):
                    return False
                if hi is not None and (hi < k or (hi == k and hs)):
                    return False
                if lo is not None and hi is not None and lo == hi == k and not ls and not hs:
                    return True
            d = _poly(q)
            x = y = None
            if len(d) == 2 and k == 0:
                (m1, c1), (m2, c2) = d.items()
                if {c1, c2} == {Fraction(1), Fraction(-1)}:
                    x, y = (m1, m2) if c1 == 1 else (m2, m1)
            elif len(d) == 1:
                x, y = next(iter(d)), ('k', k)
            if x is not None:
                r1, r2 = self._reach(x, y), self._reach(y, x)   # x<=y , y<=x
                if t.op == 'gt':       # x > y
                    if r2 == 'lt':
                        return True
                    if r1:
                        return False
                elif t.op == 'lt':
                    if r1 == 'lt':
                        return True
                    if r2:
                        return False
                else:
                    if r1 == 'lt' or r2 == 'lt':
                        return False
                    if r1 and r2:
                        return True
            return None
        if t.op == 'isfin':
            if self.lits.get(T('isnan', t.a[0])):
                return False
            return None
        if t.op == 'isnan':
            if self.lits.get(T('isfin', t.a[0])):
                return False
            return None
        if t.op == 'isempty':
            for y in ('size',):
                b = self.ix()[0].get(T('size', t.a[0]))
                if b and b[0] is not None and b[0] >= 1:
                    return False
            known, ex = self.ix()[1].get(t.a[0], (None, frozenset()))
            if known is not None:
                return known.a[1] == ''
            c = t.a[0]
            for a, v in self.lits.items():
                # something was found in it
                if v and (a.op == 'has' and a.a[0] is c or
                          a.op == 'any' and a.a[0].a[0] in ('seq', 'map') and a.a[0].a[1] is c):
                    return False
            b0, k0 = _dels(c)
            # keys that are not there make no difference
            k0 = frozenset(k for k in k0 if self.lits.get(T('has', b0, k)) is not False)
            for a, v in self.lits.items():
                if a.op == 'isempty' and a is not t:
                    b1, k1 = _dels(a.a[0])
                    if b1 is b0 and (k0 or k1 or c.op == 'del'):
                        k1 = frozenset(k for k in k1 if self.lits.get(T('has', b1, k)) is not False)
                        if v and k1 <= k0:
                            return True
                        if not v and k0 <= k1:
                            return False
            return None
        if t.op == 'any':
            if t.a[0].a[0] in ('seq', 'map') and self.lits.get(T('isempty', t.a[0].a[1])):
                return False
            return None
        if t.op == 'has':
            if self.lits.get(T('isempty', t.a[0])):
                return False
            if t.a[1].op == 'c':
                for a, v in self.lits.items():
                    if v and a.op == 'isempty' and a.a[0].op == 'del':
                        x, ks = a.a[0], []
                        while x.op == 'del':
                            ks.append(x.a[1])
                            x = x.a[0]
                        if x is t.a[0] and all(k.op == 'c' and k is not t.a[1] for k in ks):
                            return False
            return None
        if t.op == 'eqc':
            if self.lits.get(T('isempty', t.a[0])):
                return False
            known, ex = self.ix()[1].get(t.a[0], (None, frozenset()))
            if known is not None:
                return known is t.a[1]
            if t.a[1] in ex:
                return False
            return None
        return None

    def assume(self, t, v):
        """list of Facts (usually 1, empty if contradictory); t primitive or composite"""
        r = self.decide(t)
        if r is not None:
            return [self] if r == v else []
        if t.op == 'not':
            return self.assume(t.a[0], not v)
        if t.op == 'ite':
            out = []
            for f in self.assume(t.a[0], True):
                out += f.assume(t.a[1], v)
            for f in self.assume(t.a[0], False):
                out += f.assume(t.a[2], v)
            return out
        if t.op in ('and', 'or'):
            fs = [self]
            want = (t.op == 'and')
            if v == want:
                for x in t.a:
                    fs = [g for f in fs for g in f.assume(x, want)]
                return fs
            out = []
            cur = [self]
            for x in t.a:
                nxt = []
                for f in cur:
                    out += f.assume(x, not want)
                    nxt += f.assume(x, want)
                cur = nxt
            return out
        if t.op == 'c':
            return [self]
        n = dict(self.lits)
        n[t] = v
        return [Facts(n)]

    def fork(self, t):
        """[(facts, bool)] for a boolean term, expanding composites"""
        r = self.decide(t)
        if r is not None:
            return [(self, r)]
        if t.op == 'not':
            return [(f, not b) for f, b in self.fork(t.a[0])]
        if t.op == 'ite':
            out = []
            for f, b in self.fork(t.a[0]):
                out += f.fork(t.a[1] if b else t.a[2])
            return out
        return [(f, True) for f in self.assume(t, True)] + [(f, False) for f in self.assume(t, False)]

    def drop(self, at):
        n = dict(self.lits)
        n.pop(at, None)
        return Facts(n)

    def expand(self, t, limit=4096):
        """[(facts, term)] with every ite of t resolved"""
        out = []
        work = [(self, t)]
        while work:
            f, x = work.pop()
            c = first_ite(x)
            if c is None:
                out.append((f, x))
                continue
            for f2, b in f.fork(c):
                work.append((f2, resolve(x, c, b, f2)))
            if len(work) + len(out) > limit:
                raise Overflow('expand')
        return out


class Overflow(Exception):
    pass


def first_ite(t):
    """condition of some innermost-evaluable ite inside t, or None"""
    if isinstance(t, tuple):
        for x in t:
            r = first_ite(x)
            if r is not None:
                return r
        return None
    if not isinstance(t, T):
        return None
    if t.op in BIND:
        return None
    if t.op == 'ite':
        r = first_ite(t.a[0])
        return r if r is not None else t.a[0]
    for x in t.a:
        r = first_ite(x)
        if r is not None:
            return r
    return None


def resolve(t, c, b, facts):
    def f(x):
        if x.op in BIND:
            return x
        if x.op == 'ite':
            if x.a[0] is c:
                return resolve(x.a[1] if b else x.a[2], c, b, facts)
            d = facts.decide(x.a[0])
            if d is not None:
                return resolve(x.a[1] if d else x.a[2], c, b, facts)
        return None
    if isinstance(t, tuple):
        return tuple(resolve(x, c, b, facts) for x in t)
    return subst(t, f)
