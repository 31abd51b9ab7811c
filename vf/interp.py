"""Path-partitioned value-flow analysis over the extracted program.

States carry a functional store (location -> value number), the set of facts
that hold on the partition, and the list of externally visible effects.
Partitions that agree in their effects are merged at joins, loops are
summarised over one generic element (fixpoint of the modified locations, then
recognised folds), helpers are analysed in their callers' context through the
resolved call graph.  Nothing is executed, unrolled or given to a solver."""
import re
from .term import *
from .heap import *
from . import extract
from .prog import visit

LOCKS = ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock')
MUTEXES = ('mutex', 'recursive_mutex', 'timed_mutex', 'shared_mutex', 'recursive_timed_mutex', 'shared_timed_mutex')

sys_limit = __import__('sys').setrecursionlimit(20000)
MAXST = 600
SOFTST = 200
LOSSY = T('part', 'lossy join')


class Limit(Exception):
    pass


FROZEN = {}     # values of variables of static storage that nothing modifies


class St:
    __slots__ = ('facts', 'store', 'eff', 'sig', 'val', 'cnt', 'thr')

    def __init__(self, facts=None, store=None, eff=(), sig=None, val=None, cnt=None):
        self.facts = facts or Facts()
        self.store = store if store is not None else {}
        self.eff = eff
        self.sig = sig
        self.val = val
        self.cnt = cnt or {}

    def cp(self):
        s = St(self.facts, self.store, self.eff, self.sig, self.val, self.cnt)
        return s

    def withf(self, f):
        if f is self.facts:
            return self
        s = self.cp()
        s.facts = f
        return s

    def setroot(self, l, v):
        s = self.cp()
        s.store = dict(self.store)
        s.store[l] = v
        return s

    def load(self, l):
        op = l.op
        if op == 'F':
            return getf(self.load(l.a[0]), l.a[1])
        if op == 'I':
            return getat(self.load(l.a[0]), l.a[1])
        if op == 'P':
            return pair(l.a[1], self.load(I(l.a[0], l.a[1])))
        if op == 'val':
            return l.a[0]
        if op == 'ite':
            return ite(l.a[0], self.load(l.a[1]), self.load(l.a[2]))
        v = self.store.get(l)
        if v is None:
            v = FROZEN.get(l) if op == 'G' else None
            if v is None:
                v = T('rd', l)
        return v

    def put(self, l, v):
        op = l.op
        if op == 'F':
            return self.put(l.a[0], setf(self.load(l.a[0]), l.a[1], v))
        if op == 'I':
            c = self.load(l.a[0])
            if c.op == 'arrv' and is_num(l.a[1]) and 0 <= cval(l.a[1]) < len(c.a[0]):
                xs = list(c.a[0])
                xs[int(cval(l.a[1]))] = v
                return self.put(l.a[0], T('arrv', tuple(xs)))
            return self.put(l.a[0], upd(c, l.a[1], v))
        if op == 'P':
            return self.put(I(l.a[0], l.a[1]), getf(v, 'second'))
        if op == 'val':
            return self
        if op == 'ite':
            s = self.put(l.a[1], ite(l.a[0], v, self.load(l.a[1])))
            return s.put(l.a[2], ite(l.a[0], s.load(l.a[2]), v))
        return self.setroot(l, v)

    def add(self, e):
        s = self.cp()
        s.eff = self.eff + (e,)
        return s

    def tick(self, k):
        s = self.cp()
        s.cnt = dict(self.cnt)
        n = s.cnt.get(k, 0)
        s.cnt[k] = n + 1
        return s, n

    def signal(self, sig, val=None):
        s = self.cp()
        s.sig, s.val = sig, val
        return s


def own_this(e, rec):
    """does e mention `this` of type rec (a default member initialiser)?"""
    if isinstance(e, dict):
        if e.get('k') == 'this':
            return (e.get('t') or '').replace('const ', '').rstrip(' *') == rec
        return any(own_this(x, rec) for x in e.values() if isinstance(x, (dict, list)))
    if isinstance(e, list):
        return any(own_this(x, rec) for x in e)
    return False


class Fr:
    """analysis context of one function activation"""

    def __init__(self, fn, depth, this=None, env=None, dyn=None):
        self.fn = fn
        self.depth = depth
        self.this = this
        self.env = {} if env is None else env
        self.dyn = dyn
        self.file = fn.get('file', '?')
        self.retref = (fn.get('ret') or '').endswith('&')

    def V(self, i, n):
        l = self.env.get(i)
        if l is not None:
            return l
        return T('V', n, self.depth, i)


class Policy:
    keep_log = False            # record output to std::ofstream / FILE*
    access = None               # set of field names whose reads/writes are recorded
    opaque = frozenset()        # repo functions never inlined (suffix names)
    inline_virtual = True
    thr_forget = False          # paths that throw are told apart only by the exception
    throws = frozenset()        # suffix names of opaque calls that may throw
    snap = {}                   # callee -> locations whose contents are recorded at each call
    uninit = False              # track scalars that have no value yet
    maxdepth = 24

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


def suffix(name, s):
    return name == s or name.endswith('::' + s)


def base_t(t):
    t = t or ''
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    return t


SEQ = ('std::vector<', 'std::list<', 'std::deque<', 'std::array<', 'std::set<', 'std::unordered_set<',
       'std::initializer_list<', 'std::span<', 'std::multiset<', 'std::filesystem::directory_iterator')
MAPS = ('std::map<', 'std::unordered_map<', 'boost::container::flat_map<', 'std::multimap<')


def is_map(t):
    return base_t(t).startswith(MAPS)


def is_seq(t):
    return base_t(t).startswith(SEQ)


def is_setc(t):
    return base_t(t).startswith(('std::set<', 'std::unordered_set<'))


def is_string(t):
    b = base_t(t)
    return b in ('std::string', 'const char *', 'char *', 'std::basic_string_view<char>', 'std::string_view',
                 'std::filesystem::path') or b.startswith(('std::basic_string<', 'std::basic_string_view<', 'char['))


def moving(e):
    """the expression is std::move(x)"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'copy', 'paren') and isinstance(e.get('e'), dict):
        e = e['e']
    return isinstance(e, dict) and e.get('k') == 'call' and e.get('name') == 'std::move' and len(e.get('args') or ()) == 1


def is_ptr(t):
    b = base_t(t)
    return b.endswith('*') or b.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::weak_ptr<'))


INTT = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'short': 16, 'unsigned short': 16,
        'char': 8, 'signed char': 8, 'unsigned char': 8, 'long long': 64, 'unsigned long long': 64, 'bool': 1}
FLT = ('double', 'float', 'long double')


def is_arith(t):
    b = base_t(t)
    return b in INTT or b in FLT


def dur_period(t):
    """seconds per tick of a chrono duration / time_point type, or None"""
    b = base_t(t)
    m = re.match(r'std::chrono::duration<[^<>]*?(?:, std::ratio<(\d+)(?:, (\d+))?>)?>$', b)
    if m:
        n, d = m.group(1), m.group(2)
        return Fraction(int(n or 1), int(d or 1))
    if b.startswith('std::chrono::time_point<'):
        m = re.search(r'std::chrono::duration<[^<>]*?(?:, std::ratio<(\d+)(?:, (\d+))?>)?>>$', b)
        if m:
            return Fraction(int(m.group(1) or 1), int(m.group(2) or 1))
        return Fraction(1, 10 ** 9)
    return None


class Interp:
    def __init__(self, P, policy=None):
        self.P = P
        self.pol = policy or Policy()
        self.ln = {}            # effect term -> (file, line, fn)
        self.nodeix = {}
        self.algox = {}
        self.niebs = {}
        self.loopd = 0
        self.tryd = 0
        self.lams = {}          # closure key -> (node, frame)
        self.loops = []         # LoopInfo dicts
        self.bounds = []        # (file, line, fn, kind, index or size, N, facts) of array accesses
        self.opqs = {}          # reason -> count
        self.calls = set()      # functions inlined
        self.steps = 0
        self.maxsteps = 400000
        self.cstack = []
        self.freeze()

    # ------------------------------------------------------------ plumbing
    def freeze(self):
        if getattr(self.P, '_fz', None) is None:
            FROZEN.clear()
            self.P._fz = {}
            for key, g in self.P.globals.items():
                if self.P.frozen(key):
                    gf = Fr({'n': '<init>', 'file': g['file'], 'ret': ''}, 0)
                    try:
                        r = self.ev(g['init'], St(), gf)
                    except Exception:
                        continue
                    if len(r) == 1 and not r[0][0].sig and not r[0][0].eff:
                        v = r[0][1]
                        if v is not None and (v.op in ('c', 'arrv', 'cat', 'poly', 'nan') or (
                                v.op in ('push', 'upd') and not has_op(v, 'rd', 'sym', 'res', 'opq'))):
                            FROZEN[T('G', key, g['n'])] = v
                            self.P._fz[T('G', key, g['n'])] = v
            self.opqs, self.calls, self.steps = {}, set(), 0
        FROZEN.clear()
        FROZEN.update(self.P._fz)

    def nix(self, node):
        k = id(node)
        v = self.nodeix.get(k)
        if v is None:
            v = self.nodeix[k] = (len(self.nodeix), node)
        return v[0]

    def opq(self, why, node=None, fr=None):
        l = node.get('l') if isinstance(node, dict) else None
        w = '%s@%s:%s' % (why, fr.file if fr else '?', l)
        self.opqs[w] = self.opqs.get(w, 0) + 1
        return T('opq', w)

    def unlock(self, s, fr, node, v):
        if v.op == 'lockguard' and v.a[1]:
            for m in v.a[0]:
                s, _ = self.effect(s, fr, node, 'unlock', 'unlock', m, ())
        return s

    def effect(self, st, fr, node, kind, name, obj, args):
        e = T('e', kind, name, obj if obj is not None else NULL, tuple(args))
        self.ln.setdefault(e, (fr.file, node.get('l') if node else None, fr.fn.get('n', '?')))
        return st.add(e), e

    def merge(self, sts):
        """merge partitions with equal effects/signals whose facts differ in one atom"""
        if len(sts) < 2:
            return sts
        groups = {}
        out = []
        if self.pol.thr_forget:
            th = {}
            for s in sts:
                if s.sig == 'thr':
                    th.setdefault(s.val, []).append(s)
            for g in th.values():
                out.append(self._forget(g))
            sts = [s for s in sts if s.sig != 'thr']
        for s in sts:
            groups.setdefault((s.sig if s.sig != 'thr' else ('thr', s.val), s.eff), []).append(s)
        for (sig, eff), g in groups.items():
            if len(g) > 1:
                g = self._merge_group(g)
            out += g
        if len(out) > SOFTST:
            out = [s for s in out if s.sig == 'thr' and self.pol.thr_forget] + self._merge_lossy(sts)
        if len(out) > MAXST:
            raise Limit('too many partitions')
        return out

    def _merge_group(self, g):
        changed = True
        while changed and len(g) > 1:
            changed = False
            seen = {}
            for i, s in enumerate(g):
                items = frozenset(s.facts.lits.items())
                # identical facts
                k = (items, None)
                hit = None
                for at, v in s.facts.lits.items():
                    kk = (items - {(at, v)}, at)
                    if kk in seen:
                        hit = (seen[kk], at)
                        break
                if hit is not None:
                    j, at = hit
                    o = g[j]
                    m = self._merge2(o, s, at)
                    if m is not None:
                        g = [x for n, x in enumerate(g) if n not in (i, j)] + [m]
                        changed = True
                        break
                for at, v in s.facts.lits.items():
                    seen.setdefault((items - {(at, v)}, at), i)
        return g

    def _forget(self, g):
        """one state for all paths leaving by the same exception: only what they
        have in common is kept"""
        if len(g) == 1:
            return g[0]
        a = g[0]
        com = set(a.facts.lits.items())
        eff = a.eff
        for s in g[1:]:
            com &= set(s.facts.lits.items())
            n = 0
            while n < len(eff) and n < len(s.eff) and eff[n] is s.eff[n]:
                n += 1
            eff = eff[:n]
        f = a.facts
        for at in list(f.lits):
            if (at, f.lits[at]) not in com:
                f = f.drop(at)
        st = {}
        for k in a.store:
            vs = [s.store.get(k) for s in g]
            if all(v is vs[0] for v in vs):
                st[k] = vs[0]
            elif k.op != 'V':
                st[k] = T('ambig', k)
        for s in g[1:]:
            for k in s.store:
                if k not in a.store and k.op != 'V':
                    st[k] = T('ambig', k)
        r = St(f, st, eff, 'thr', a.val)
        c = {}
        for s in g:
            for k, v in s.cnt.items():
                c[k] = max(c.get(k, 0), v)
        r.cnt = c
        return r

    def _merge_lossy(self, sts):
        """join partitions that differ in one atom's outcome plus extra facts
        on either side: the join keeps the common facts only"""
        groups = {}
        for s in sts:
            groups.setdefault((s.sig if s.sig != 'thr' else ('thr', s.val), s.eff), []).append(s)
        out = []
        for g in groups.values():
            while len(g) > 1:
                best = None
                its = [frozenset(s.facts.lits.items()) for s in g]
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        d1, d2 = its[i] - its[j], its[j] - its[i]
                        d1, d2 = d1 - {(LOSSY, True)}, d2 - {(LOSSY, True)}
                        ats = [a for a, v in d1 if g[j].facts.lits.get(a) == (not v)]
                        if len(ats) != 1:
                            continue
                        if min(len(d1), len(d2)) > 1:
                            continue
                        n = len(d1) + len(d2)
                        if best is None or n < best[0]:
                            best = (n, i, j, ats[0])
                if best is None:
                    break
                _, i, j, at = best
                com = its[i] & its[j]
                x = self._restrict(g[i], com, at)
                y = self._restrict(g[j], com, at)
                m = self._merge2(x, y, at)
                if m is None:
                    break
                if len(its[i]) != len(com) + 1 or len(its[j]) != len(com) + 1:
                    m = m.withf(Facts({**m.facts.lits, LOSSY: True}))
                g = [s for n, s in enumerate(g) if n not in (i, j)] + [m]
            g = self._merge_group(g) if len(g) > 1 else g
            out += g
        return out

    def _restrict(self, s, com, at):
        f = s.facts
        for a in list(f.lits):
            if a is not at and (a, f.lits[a]) not in com:
                f = f.drop(a)
        s = s.cp()
        s.facts = f
        return s

    def _merge2(self, a, b, at):
        if a.facts.lits.get(at) == b.facts.lits.get(at):
            return None
        if not a.facts.lits[at]:
            a, b = b, a
        s = St(a.facts.drop(at), None, a.eff, a.sig, a.val)
        if a.sig == 'ret':
            s.val = self._mv(at, a.val, b.val)
        elif a.sig == 'thr' and a.val is not b.val:
            return None
        st = {}
        for k in set(a.store) | set(b.store):
            x, y = a.store.get(k), b.store.get(k)
            if x is None or y is None:
                if k.op == 'V':
                    continue      # local of one branch only
                x = x if x is not None else T('rd', k)
                y = y if y is not None else T('rd', k)
            st[k] = x if x is y else self._mv(at, x, y)
        s.store = st
        c = dict(a.cnt)
        for k, v in b.cnt.items():
            c[k] = max(c.get(k, 0), v)
        s.cnt = c
        return s

    def _mv(self, at, x, y):
        if x is y:
            return x
        if x is None or y is None:
            return x if y is None else y
        if x.op == 'ref' and y.op == 'ref':
            return T('ref', T('ite', at, x.a[0], y.a[0]))
        if x.op == 'rec' or y.op == 'rec':
            bx = x.a[0] if x.op == 'rec' else x
            by = y.a[0] if y.op == 'rec' else y
            if bx is by:
                r = bx
                for f in sorted({k for k, _ in (x.a[1] if x.op == 'rec' else ())} |
                                {k for k, _ in (y.a[1] if y.op == 'rec' else ())}):
                    u, v = getf(x, f), getf(y, f)
                    r = setf(r, f, u if u is v else self._mv(at, u, v))
                return r
        return ite(at, x, y)

    def mergev(self, prs):
        """merge [(state, value)]"""
        if len(prs) < 2:
            return prs
        tmp = []
        for s, v in prs:
            if s.sig is None:
                tmp.append(s.setroot(T('V', '#v', -1, -1), v))
            else:
                tmp.append(s)
        out = []
        for s in self.merge(tmp):
            if s.sig is None:
                k = T('V', '#v', -1, -1)
                v = s.store[k]
                s = s.cp()
                s.store = {a: b for a, b in s.store.items() if a is not k}
                out.append((s, v))
            else:
                out.append((s, None))
        return out

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        """evaluate expressions left to right -> [(state, [values])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if s.sig:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def branch(self, e, st, fr):
        """evaluate a condition -> [(state, bool)]; abnormal states carry None"""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.branch(e['a'], st, fr):
                if s.sig or b == (e['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.branch(e['b'], s, fr)
            return out
        if k == 'un' and e['op'] == '!':
            return [(s, None if b is None else not b) for s, b in self.branch(e['e'], st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            if s.sig:
                out.append((s, None))
                continue
            v = self.truth(v)
            for f, b in s.facts.fork(v):
                out.append((s.withf(f), b))
        return out

    def truth(self, v):
        """boolean reading of a value"""
        if v.op == 'ite':
            return ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
        if v.op == 'c' or v.op in BOOLOPS:
            if v.op == 'c':
                if v.a[0] == 's':
                    return TRUE
                return C(bool(v.a[1]))
            return v
        if v.op in ('addr', 'new', 'clo', 'fn', 'some'):
            return TRUE
        if v.op in ('ptrv', 'optv'):
            return lnot(eq(v, NULL))
        if v.op == 'poly':
            return lnot(eq(v, ZERO))
        return v

    def lv(self, e, st, fr):
        """evaluate as a location -> [(state, loc)]"""
        k = e['k']
        if k == 'var':
            l = fr.V(e['id'], e['n'])
            for _ in range(8):
                v = st.store.get(l)
                if v is not None and v.op == 'ref':
                    l = v.a[0]
                else:
                    break
            return [(st, l)]
        if k == 'gvar':
            return [(st, T('G', e['key'], e['n']))]
        if k == 'mem':
            out = []
            if e.get('a'):
                for s, p in self.ev(e['b'], st, fr):
                    if s.sig:
                        out.append((s, None))
                        continue
                    for s2, l in self.deref(p, s):
                        out.append(self._memloc(e, s2, l))
            else:
                for s, l in self.lv(e['b'], st, fr):
                    if s.sig:
                        out.append((s, None))
                        continue
                    out.append(self._memloc(e, s, l))
            return out
        if k == 'this':
            return [(st, fr.this)]
        if k == 'idx':
            out = []
            for s, b in self.lv(e['b'], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, i in self.ev(e['i'], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                    else:
                        # an array decays to itself; a pointer is dereferenced
                        bt = e['b'].get('t') or ''
                        bl = b
                        if base_t(bt).endswith('*'):
                            bl = mkD(s2.load(b))
                        else:
                            n = self.arrlen(bt)
                            if n is not None:
                                self.inbounds(e, fr, 'index', s2.facts, i, C(n))
                        out.append((s2, I(bl, i)))
            return out
        if k == 'un' and e['op'] == '*':
            out = []
            for s, p in self.ev(e['e'], st, fr):
                if s.sig:
                    out.append((s, None))
                else:
                    out += self.deref(p, s)
            return out
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for s, v in self.ev(e, st, fr):
                out += [(s, None)] if s.sig else self.lv(e['e'], s, fr)
            return out
        if k in ('asg', 'casg'):
            out = []
            for s, v in self.ev(e, st, fr):
                out += [(s, None)] if s.sig else self.lv(e['a'], s, fr)
            return out
        if k == 'cond':
            out = []
            for s, b in self.branch(e['c'], st, fr):
                out += [(s, None)] if s.sig else self.lv(e['a'] if b else e['b'], s, fr)
            return out
        if k == 'call':
            out = []
            for s, r in self.call(e, st, fr):
                if s.sig:
                    out.append((s, None))
                elif r[0] == 'l':
                    out.append((s, r[1]))
                else:
                    out.append(self.temp(e, s, fr, r[1]))
            return out
        if k == 'cast' and e['ck'] in ('BaseToDerived', 'Dynamic', 'LValueBitCast'):
            return self.lv(e['e'], st, fr)
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, v in self.ev(e['a'], st, fr):
                out += [(s, None)] if s.sig else self.lv(e['b'], s, fr)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            out.append((s, None) if s.sig else self.temp(e, s, fr, v))
        return out

    def inbounds(self, e, fr, kind, facts, i, n):
        """record that i < n (index) or i <= n (size of what is copied) has to hold here"""
        self.bounds.append((fr.file, e.get('l'), fr.fn.get('n'), kind, i, n, facts))

    def temp(self, e, st, fr, v):
        l = T('V', '#t', fr.depth, self.nix(e))
        return st.setroot(l, v), l

    def _memloc(self, e, s, l):
        if self.pol.access and e['f'] in self.pol.access:
            pass
        fl = F(l, e['f'])
        if e.get('ref'):
            fl = mkD(s.load(fl))
        return (s, fl)

    def deref(self, p, st):
        """location(s) a pointer/iterator/optional value designates"""
        if p.op == 'ite':
            if self.truth(p.a[1]) is FALSE:
                return self.deref(p.a[2], st)
            if self.truth(p.a[2]) is FALSE:
                return self.deref(p.a[1], st)
            out = []
            for f, b in st.facts.fork(p.a[0]):
                out += self.deref(p.a[1] if b else p.a[2], st.withf(f))
            return out
        if p.op == 'it':
            kind, cl, cv, key = p.a
            if kind == 'find':
                return [(st, T('P', cl, key))]
            if kind == 'findv':
                return [(st, T('val', key))]
            if kind == 'json':
                return [(st, I(cl, key))]
            if kind in ('val',):
                return [(st, T('val', key))]
            if kind == 'pred':
                return [(st, T('val', cv))]
            if kind == 'elem':
                v = key
                if v.op == 'el' and v.a[0].a[0] == 'map':
                    return [(st, T('P', cl, T('sel', v, 'first')))]
                return [(st, T('val', v))]
            if kind == 'begin':
                return [(st, T('val', T('front', cv)))]
            return [(st, T('val', T('opq', 'deref ' + kind)))]
        if p.op == 'some':
            return [(st, T('val', p.a[0]))]
        return [(st, mkD(p))]

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Limit('step budget')
        k = e['k']
        if k == 'int':
            return [(st, C(int(e['v'])))]
        if k == 'flt':
            v = e['v']
            if v == 'nan':
                return [(st, NAN)]
            f = float(v)
            if f in (float('inf'), float('-inf')):
                return [(st, C(f))]
            if abs(f) >= 1e308:
                return [(st, T('inf', 1 if f > 0 else -1, 'max'))]
            return [(st, C(f))]
        if k == 'bool':
            return [(st, C(bool(e['v'])))]
        if k == 'str':
            return [(st, C(e['v']))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'zero':
            return [(st, self.default(e.get('t')))]
        if k == 'this':
            return [(st, addr(fr.this) if fr.this is not None else T('sym', 'this'))]
        if k == 'gvar':
            l = T('G', e['key'], e['n'])
            return [(st, self._ld(st, l))]
        if k in ('var', 'mem', 'idx'):
            out = []
            for s, l in self.lv(e, st, fr):
                out.append((s, None) if s.sig else (s, self._ld(s, l)))
            if self.pol.access and k == 'mem' and e['f'] in self.pol.access:
                out = [(s if s.sig else self.effect(s, fr, e, 'rd', e['f'], None, ())[0], v) for s, v in out]
            return out
        if k == 'copy':
            if e.get('mv') and moving(e['e']):
                out = []
                for s, l in self.lv(e['e'], st, fr):
                    out.append((s, None) if s.sig else (self.moved(s, l, e['e']), self._ld(s, l)))
                return out
            return self.ev(e['e'], st, fr)
        if k == 'cast':
            return self.cast(e, st, fr)
        if k == 'un':
            return self.unary(e, st, fr)
        if k == 'bin':
            return self.binary(e, st, fr)
        if k == 'asg':
            out = []
            for s, v in self.ev(e['b'], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, l in self.lv(e['a'], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    out.append((self.store(s2, l, v, e, fr), v))
            return out
        if k == 'casg':
            out = []
            for s, v in self.ev(e['b'], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                for s2, l in self.lv(e['a'], s, fr):
                    if s2.sig:
                        out.append((s2, None))
                        continue
                    old = self._ld(s2, l)
                    nv = self.arith(e['op'], old, v, e, fr)
                    if nv.op != 'opq' and base_t(e.get('t')) in INTT and base_t((e['b'] or {}).get('t')) in FLT:
                        nv = self.toint(nv)
                    out.append((self.store(s2, l, nv, e, fr), nv))
            return out
        if k == 'cond':
            out = []
            for s, b in self.branch(e['c'], st, fr):
                if s.sig:
                    out.append((s, None))
                else:
                    out += self.ev(e['a'] if b else e['b'], s, fr)
            return self.mergev(out)
        if k == 'call':
            out = []
            for s, r in self.call(e, st, fr):
                if s.sig:
                    out.append((s, None))
                elif r[0] == 'l':
                    out.append((s, self._ld(s, r[1])))
                else:
                    out.append((s, r[1]))
            return self.mergev(out)
        if k == 'ctor':
            return self.ctor(e, st, fr)
        if k == 'ilist':
            return self.ilist(e, st, fr)
        if k == 'lambda':
            return self.mklambda(e, st, fr)
        if k == 'fnref':
            return [(st, T('fn', e.get('fn', '?'), e.get('name', '?'), e.get('ta') or ''))]
        if k == 'throw':
            if not e.get('e'):
                return [(st.signal('thr', T('exc', 'rethrow', C('')) if fr.env.get('#exc') is None else fr.env['#exc']), None)]
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if s.sig:
                    out.append((s, None))
                else:
                    ety = base_t(e.get('et'))
                    out.append((s.signal('thr', T('exc', ety, v)), None))
                    self.ln.setdefault(T('exc', ety, v), (fr.file, e.get('l'), fr.fn.get('n', '?')))
            return out
        if k == 'new':
            if e.get('e'):
                out = []
                for s, v in self.ev(e['e'], st, fr):
                    if s.sig:
                        out.append((s, None))
                    else:
                        p = T('new', base_t(e.get('at')), self.nix(e), fr.depth)
                        out.append((s.put(T('D', p), v), p))
                return out
            return [(st, T('new', base_t(e.get('at')), self.nix(e), fr.depth))]
        if k == 'delete':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                out.append((s, NULL) if s.sig else (self.effect(s, fr, e, 'delete', 'delete', None, (v,))[0], NULL))
            return out
        if k == 'srcloc':
            return [(st, C('srcloc'))]
        if k == 'opq':
            cur = [(st, None)]
            for c in e.get('ch') or ():
                cur = [x for s, _ in cur for x in ([(s, None)] if s.sig else self.ev(c, s, fr))]
            return [(s, self.opq('expr ' + str(e.get('cls')), e, fr)) for s, _ in cur]
        return [(st, self.opq('expr ' + k, e, fr))]

    def _ld(self, s, l):
        if l.op == 'G' and l.a[1] == 'std::nullopt':
            return NULL
        v = s.load(l)
        if v.op == 'ref':
            return self._ld(s, v.a[0])
        return v

    def store(self, st, l, v, node, fr):
        if self.pol.access and l.op == 'F' and l.a[1] in self.pol.access:
            st, _ = self.effect(st, fr, node, 'wr', l.a[1], None, ())
        if v is not None and v.op == 'ref':
            v = self._ld(st, v.a[0])
        return st.put(l, v)

    # -------------------------------------------------------- conversions
    def toint(self, v):
        if is_num(v):
            return C(int(cval(v)))
        if v.op == 'ite':
            return ite(v.a[0], self.toint(v.a[1]), self.toint(v.a[2]))
        if v.op in ('int', 'size', 'dcast', 'icast', 'ix'):
            return v
        return T('int', v)

    def cast(self, e, st, fr):
        ck = e['ck']
        if ck in ('Dynamic', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'ToVoid', 'FloatingCast',
                  'IntegralToFloating', 'BooleanToSignedIntegral', 'ReinterpretMemberPointer',
                  'IntegralToPointer', 'PointerToIntegral'):
            out = []
            for s, v in self.ev(e['e'], st, fr):
                if not s.sig and ck == 'FloatingCast' and base_t(e['t']) == 'float' and base_t(e['ft']) != 'float':
                    v = v if v.op == 'c' else T('fcast', v)
                if not s.sig and ck == 'ToVoid':
                    v = NULL
                if not s.sig and ck == 'Dynamic':
                    v = T('dyncast', base_t(e['t']), v)
                out.append((s, v))
            return out
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig:
                out.append((s, None))
            elif ck == 'FloatingToIntegral':
                if base_t(e['t']) not in ('long', 'int', 'long long', 'unsigned long', 'unsigned int') or \
                        base_t(e['t']).startswith('unsigned'):
                    out.append((s, T('icast', base_t(e['t']), self.toint(v)) if not is_num(v) else self.toint(v)))
                else:
                    w = self.toint(v)
                    out.append((s, w if base_t(e['t']) in ('long', 'long long') or w.op == 'c'
                                else T('icast', base_t(e['t']), w)))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                if ck == 'PointerToBoolean':
                    out.append((s, self.ptr_true(v)))
                else:
                    out.append((s, self.truth(v) if v.op in BOOLOPS or v.op in ('ite',) else lnot(eq(v, ZERO))))
            elif ck == 'IntegralCast':
                a, b = INTT.get(base_t(e['ft'])), INTT.get(base_t(e['t']))
                sgn_from = not base_t(e['ft']).startswith('unsigned') and base_t(e['ft']) != 'bool'
                if a and b and v.op != 'c' and (b < a or a == b and b <= 16 and
                                                sgn_from == base_t(e['t']).startswith('unsigned')):
                    v = T('icast', base_t(e['t']), v)
                elif a and b and b > a and sgn_from and base_t(e['t']).startswith('unsigned') and a <= 16 and v.op != 'c':
                    v = T('icast', base_t(e['t']), v)
                elif is_num(v) and b and not isinstance(cval(v), Fraction):
                    n = cval(v)
                    if base_t(e['t']).startswith('unsigned') and n < 0:
                        n %= (1 << b)
                    elif not base_t(e['t']).startswith('unsigned') and b > 1 and n >= (1 << (b - 1)):
                        n -= (1 << b)
                    v = C(n)
                out.append((s, v))
            else:
                out.append((s, v))
        return out

    def ptr_true(self, v):
        if v.op == 'ite':
            return ite(v.a[0], self.ptr_true(v.a[1]), self.ptr_true(v.a[2]))
        if v is NULL:
            return FALSE
        if v.op in ('addr', 'new', 'clo', 'fn', 'some', 'make') or is_str(v):
            return TRUE
        return lnot(eq(v, NULL))

    def unary(self, e, st, fr):
        op = e['op']
        if op == '&':
            return [(s, None if s.sig else addr(l)) for s, l in self.lv(e['e'], st, fr)]
        if op == '*':
            return [(s, None if s.sig else self._ld(s, l)) for s, l in self.lv(e, st, fr)]
        if op == '!':
            return self.mergev([(s, None if b is None else C(b)) for s, b in self.branch(e, st, fr)])
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                old = self._ld(s, l)
                nv = self.step(old, 1 if '+' in op else -1)
                out.append((self.store(s, l, nv, e, fr), old if op[0] == 'p' else nv))
            return out
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if s.sig:
                out.append((s, None))
            elif op == '-':
                out.append((s, NAN if v is NAN else (T('inf', -v.a[0], *v.a[1:]) if v.op == 'inf' else neg(v))))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, self.opq('unary ' + op, e, fr)))
        return out

    def step(self, v, d):
        if v.op == 'it':
            kind, cl, cv, key = v.a
            if kind == 'elem' and d == 1:
                return T('it', 'next', cl, cv, key)
            if kind == 'begin' and d == 1:
                return T('it', 'val', cl, cv, T('opq', 'second element'))
            return T('it', 'opq', cl, cv, key)
        if v.op == 'ite':
            return ite(v.a[0], self.step(v.a[1], d), self.step(v.a[2], d))
        return add(v, C(d))

    def binary(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return self.mergev([(s, None if b is None else C(b)) for s, b in self.branch(e, st, fr)])
        out = []
        for s, vs in self.evs([e['a'], e['b']], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            a, b = vs
            if op == ',':
                out.append((s, b))
            elif op in ('==', '!=') and (self.isboolx(e['a']) and (self.isboolx(e['b']) or b in (ZERO, C(1))) or
                                         self.isboolx(e['b']) and a in (ZERO, C(1))):
                a, b = self.truth(a), self.truth(b)
                r = ite(a, b, lnot(b))
                out.append((s, r if op == '==' else lnot(r)))
            elif op in ('&', '|', '^') and self.isboolx(e['a']) and self.isboolx(e['b']):
                a, b = self.truth(a), self.truth(b)
                out.append((s, ite(a, b, FALSE) if op == '&' else (ite(a, TRUE, b) if op == '|' else ite(a, lnot(b), b))))
            elif op in ('<', '>', '<=', '>=', '==', '!='):
                out.append((s, self.cmp(op, a, b)))
            elif op == '<=>':
                out.append((s, T('spaceship', a, b)))
            else:
                out.append((s, self.arith(op, a, b, e, fr)))
        return out

    def isboolx(self, e):
        while e and e['k'] in ('cast', 'copy'):
            if base_t(e.get('t')) == 'bool':
                return True
            e = e['e']
        return bool(e) and base_t(e.get('t')) == 'bool'

    def cmp(self, op, a, b):
        if a.op == 'spaceship' and b is ZERO:
            return self.cmp(op, a.a[0], a.a[1])
        if b.op == 'spaceship' and a is ZERO:
            return self.cmp({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), b.a[0], b.a[1])
        if a.op == 'ite':
            return ite(a.a[0], self.cmp(op, a.a[1], b), self.cmp(op, a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], self.cmp(op, a, b.a[1]), self.cmp(op, a, b.a[2]))
        if a is NAN or b is NAN:
            return TRUE if op == '!=' else FALSE
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else lnot(r)
        a = ZERO if a is FALSE else (C(1) if a is TRUE else a)
        b = ZERO if b is FALSE else (C(1) if b is TRUE else b)
        if a.op == 'strcmp':
            return T('strord', op, *a.a)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        return le(b, a)

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'some' and (y.op in ('some', 'c', 'poly') or y is NULL):
                return FALSE if y is NULL else self.equal(x.a[0], optval(y) if y.op == 'some' else y)
            if x.op == 'it':
                if y.op == 'it':
                    return self.iteq(x, y)
            if x.op == 'strcmp' and y is ZERO:
                return eq(x.a[0], x.a[1])
            if x.op == 'npos' or (y.op == 'strfind' and is_num(x)):
                if y.op == 'strfind':
                    if x.op == 'npos' or (is_num(x) and cval(x) in (2 ** 64 - 1, -1)):
                        return lnot(T('contains', y.a[0], y.a[1]))
                    if is_num(x) and cval(x) == 0:
                        return T('startswith', y.a[0], y.a[1])
            if x is NULL and y.op in ('new', 'clo', 'fn', 'some', 'make', 'addr'):
                return FALSE
            if x.op == 'c' and x.a[0] == 'b':
                # bool compared with an integer/bool value
                return y if x is TRUE else lnot(y)
        if a.op in BOOLOPS and b.op in BOOLOPS:
            return ite(a, b, lnot(b))
        if a.op in BOOLOPS and is_num(b):
            return a if cval(b) == 1 else (lnot(a) if cval(b) == 0 else FALSE)
        if b.op in BOOLOPS and is_num(a):
            return self.equal(b, a)
        if a.op == 'rec' and b.op == 'rec' and a.a[0] is b.a[0]:
            r = TRUE
            fa, fb = dict(a.a[1]), dict(b.a[1])
            for f in sorted(set(fa) | set(fb)):
                x = self.equal(getf(a, f), getf(b, f))
                r = ite(r, x, FALSE)
            return r
        return eq(a, b)

    def iteq(self, a, b):
        if a is b:
            return TRUE
        if b.a[0] in ('end', 'cend'):
            kind, cl, cv, key = a.a
            if kind in ('find', 'json'):
                return lnot(has(cv, key))
            if kind == 'findv':
                return lnot(has(cv, key))
            if kind == 'pred':
                return lnot(key)
            if kind == 'val' and key.op == 'first':
                return lnot(mkany(key.a[0], key.a[1]))
            if kind == 'val' and key.op in ('arg', 'ext'):
                return lnot(mkany(key.a[0], key.a[2]))
            if kind == 'begin':
                return isempty(cv)
            if kind == 'elem':
                return FALSE
            return T('iteq', a, b)
        if a.a[0] in ('end', 'cend'):
            return self.iteq(b, a)
        return T('iteq', *sorted((a, b)))

    def arith(self, op, a, b, e, fr):
        if a.op == 'it' or b.op == 'it':
            return self.opq('iterator arithmetic', e, fr)
        if op in '+-*/' and len(op) == 1:
            if a.op == 'opq' or b.op == 'opq':
                return a if a.op == 'opq' else b
            for x, y in ((a, b),):
                if x.op == 'ite' and y.op != 'ite' and len(cases(x)) <= 4 and y.op == 'c':
                    return ite(x.a[0], self.arith(op, x.a[1], y, e, fr), self.arith(op, x.a[2], y, e, fr))
                if y.op == 'ite' and x.op == 'c' and len(cases(y)) <= 4:
                    return ite(y.a[0], self.arith(op, x, y.a[1], e, fr), self.arith(op, x, y.a[2], e, fr))
            if a.op in BOOLOPS or b.op in BOOLOPS or a.op == 'inf' or b.op == 'inf' or is_str(a) or is_str(b):
                if op == '+' and (is_str(a) or is_str(b) or a.op in ('cat', 'tostr')):
                    return cat(a, b)
                return T('arith', op, a, b)
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return mul(a, b)
            it = base_t(e.get('t')) in INTT
            if it:
                if is_num(a) and is_num(b) and cval(b) != 0:
                    q = abs(cval(a)) // abs(cval(b))
                    return C(q if (cval(a) >= 0) == (cval(b) >= 0) else -q)
                return T('int', div(a, b))
            return div(a, b)
        if op == '%' and is_num(a) and is_num(b) and cval(b) != 0:
            return C(cval(a) % cval(b))
        if op in ('&', '|') and (a.op in BOOLOPS or a in (TRUE, FALSE)) and (b.op in BOOLOPS or b in (TRUE, FALSE)):
            return ite(a, b, FALSE) if op == '&' else ite(a, TRUE, b)
        if op in ('&', '|', '^', '<<', '>>', '%'):
            if is_num(a) and is_num(b):
                x, y = int(cval(a)), int(cval(b))
                return C({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y >= 0 else 0,
                          '>>': x >> y if y >= 0 else 0, '%': 0}[op])
            return T('bits', op, a, b)
        return self.opq('operator ' + op, e, fr)

    # -------------------------------------------------------- defaults, aggregates
    def default(self, t):
        b = base_t(t)
        if b == 'bool':
            return FALSE
        if b in INTT or b in FLT:
            return ZERO
        if is_ptr(b) or b == 'std::nullptr_t' or b.startswith(('std::optional<', 'std::function<')):
            return NULL
        if is_string(b):
            return C('')
        if is_seq(b) or is_map(b):
            return T('empty')
        if dur_period(b) is not None:
            return ZERO
        r = self.P.recname.get(b)
        if r:
            return self.default_rec(r)
        if b.startswith('std::pair<'):
            return rec0('pair')
        if re.match(r'.*\[\d+\]$', b):
            return T('zeroarr')
        if b in self.P.enums:
            return ZERO
        if b == 'boost::system::error_code':
            return ZERO
        return T('make', b)

    def default_rec(self, r, zero=True):
        if not zero and self.pol.uninit:
            return self.unset_rec(r)
        v = rec0(r['n'])
        fr = Fr({'n': r['n'], 'file': r['file'], 'ret': ''}, 1)
        for f in r['fields']:
            if f.get('init') is not None:
                fr.this = T('V', '#obj', 0, 0)
                res = self.ev(f['init'], St().setroot(fr.this, v), fr)
                if len(res) == 1 and not res[0][0].sig:
                    v = setf(v, f['n'], res[0][1])
            elif f.get('arr') is not None or not is_arith(f['t']) and not base_t(f['t']).endswith('*'):
                if not f.get('arr'):
                    v = setf(v, f['n'], self.default(f['t']))
            elif zero:
                v = setf(v, f['n'], self.default(f['t']))
        return v

    def unset(self, t, what):
        """the value of a default-initialised object of type t"""
        b = base_t(t)
        if is_arith(t) or b.endswith('*') or b in self.P.enums or \
                dur_period(b) is not None and 'time_point' not in b or re.match(r'.*\[\d+\]$', b) and \
                (is_arith(b[:b.rindex('[')]) or b[:b.rindex('[')] in self.P.enums):
            return T('uninit', what)
        r = self.P.recname.get(b)
        if r and r.get('agg'):
            return self.unset_rec(r, what + '.')
        return self.default(t)

    def unset_rec(self, r, pre=''):
        v = rec0(r['n'])
        fr = Fr({'n': r['n'], 'file': r['file'], 'ret': ''}, 1)
        for b in r['bases']:
            br = self.P.recname.get(b)
            if br:
                w = self.unset_rec(br, pre)
                if w.op == 'rec':
                    for k, x in w.a[1]:
                        v = setf(v, k, x)
        for f in r['fields']:
            if f.get('init') is not None:
                fr.this = T('V', '#obj', 0, 0)
                res = self.ev(f['init'], St().setroot(fr.this, v), fr)
                if len(res) == 1 and not res[0][0].sig:
                    v = setf(v, f['n'], res[0][1])
            elif not f.get('ref'):
                v = setf(v, f['n'], self.unset(f['t'], pre + f['n']))
        return v

    def ilist(self, e, st, fr):
        es = e.get('e') or []
        t = base_t(e.get('t'))
        if e.get('fs') is not None:
            out = []
            r = self.P.recname.get(e.get('rec'))
            if any(x and own_this(x, e['rec']) for x in es):
                # default member initialisers that read members set before them
                cur = [(st, self.default_rec(r) if r else rec0(e['rec']))]
                tmp = T('V', '#obj', fr.depth, self.nix(e))
                for f, x in zip(e['fs'], es):
                    nxt = []
                    for s, v in cur:
                        if s.sig or not x:
                            nxt.append((s, v))
                            continue
                        if own_this(x, e['rec']):
                            f2 = Fr(fr.fn, fr.depth, tmp, fr.env, fr.dyn)
                            res = self.ev(x, s.setroot(tmp, v), f2)
                        else:
                            res = self.ev(x, s, fr)
                        for s2, xv in res:
                            nxt.append((s2, v if s2.sig or f == '<base>' else setf(v, f, xv)))
                    cur = nxt
                return [(s, None if s.sig else v) for s, v in cur]
            for s, vs in self.evs([x for x in es if x], st, fr):
                if s.sig:
                    out.append((s, None))
                    continue
                v = rec0(e['rec'] if e['rec'] != 'std::pair' else 'pair')
                if r:
                    v = self.default_rec(r)
                fs = [f for f in e['fs']]
                for f, x in zip(fs, vs):
                    if f == '<base>':
                        continue
                    v = setf(v, f, x)
                if e['rec'] == 'std::array' and len(vs) == 1 and vs[0].op == 'arrv':
                    v = vs[0]
                out.append((s, v))
            return out
        out = []
        for s, vs in self.evs([x for x in es if x], st, fr):
            if s.sig:
                out.append((s, None))
            elif len(vs) == 1 and is_arith(t):
                out.append((s, vs[0]))
            elif not vs and is_arith(t):
                out.append((s, self.default(t)))
            elif e.get('n') and e.get('fill') and len(vs) < e['n']:
                if e['n'] <= 16:
                    fv = self.ev(e['fill'], s, fr)[0][1]
                    out.append((s, T('arrv', tuple(vs) + (fv,) * (e['n'] - len(vs)))))
                else:
                    out.append((s, T('arrfill', tuple(vs))))
            else:
                out.append((s, T('arrv', tuple(vs))))
        return out

    def mklambda(self, e, st, fr):
        caps = []
        cur = [st]
        for c in e.get('caps') or ():
            if c.get('this'):
                caps.append(('this', fr.this if fr.this is not None else T('D', T('sym', 'this'))))
            elif c.get('init'):
                n = []
                for s in cur:
                    for s2, v in self.ev(c['init'], s, fr):
                        n.append(s2)
                        caps.append((c['id'], 'v', c['n'], v))
                cur = n[:1]
            else:
                l = fr.V(c['id'], c['n'])
                sv = cur[0].store.get(l)
                if sv is not None and sv.op == 'ref':
                    l = sv.a[0]
                if c.get('ref'):
                    caps.append((c['id'], 'r', c['n'], l))
                else:
                    caps.append((c['id'], 'v', c['n'], self._ld(cur[0], l)))
        key = 'L%d' % self.nix(e)
        self.lams[key] = (e, fr)
        return [(s, T('clo', key, tuple(caps))) for s in cur]

    def call_clo(self, clo, args, st, fr, byref=None):
        """analyse the body of a closure: args are values or ('ref', loc)"""
        if clo.op == 'fn':
            f = self.P.fns.get(clo.a[0])
            if f is not None and f.get('body'):
                return self.inline(f, None, args, st, fr)
            r = self.std_named(clo.a[1], args, st, fr)
            return [(st, ('v', r))]
        if clo.op == 'ite':
            out = []
            for f, b in st.facts.fork(clo.a[0]):
                out += self.call_clo(clo.a[1] if b else clo.a[2], args, st.withf(f), fr)
            return out
        if clo.op != 'clo' or clo.a[0] not in self.lams:
            return [(st, ('v', self.opq('call of unknown function value', None, fr)))]
        node, dfr = self.lams[clo.a[0]]
        if self.cstack.count(clo.a[0]) > 1 or len(self.cstack) > 40:
            return [(st, ('v', self.opq('recursive closure', node, fr)))]
        d = fr.depth + 1
        env = dict(dfr.env)
        this = dfr.this
        s = st
        # variables of the defining frame that are captured implicitly
        nf = Fr({'n': dfr.fn.get('n', '?') + '::lambda', 'file': node.get('file') or dfr.file, 'ret': node.get('ret'),
                 'ulam': True}, d, this, env, dfr.dyn)
        for c in clo.a[1]:
            if c[0] == 'this':
                nf.this = c[1]
            elif c[1] == 'r':
                env[c[0]] = c[3]
            else:
                env[c[0]] = T('V', c[2], d, c[0])
                s = s.setroot(env[c[0]], c[3])
        s = self.bindparams(node['params'], args, s, nf)
        self.cstack.append(clo.a[0])
        try:
            return self.runbody(node['body'], s, nf)
        finally:
            self.cstack.pop()

    def bindparams(self, params, args, st, nf):
        s = st
        for p, a in zip(params, args):
            nf.env.pop(p['id'], None)
            l = T('V', p['n'], nf.depth, p['id'])
            if isinstance(a, tuple) and a[0] == 'ref':
                if p['t'].endswith('&'):
                    s = s.setroot(l, T('ref', a[1]))
                else:
                    s = s.setroot(l, self._ld(s, a[1]))
            else:
                s = s.setroot(l, a)
        return s

    def runbody(self, body, st, nf):
        """-> [(state, ('v'|'l', x))] ; locals of the activation dropped"""
        d = nf.depth
        outs = self.block(body, st, nf) if body else [st]
        rets = []
        for s in outs:
            if s.sig in ('brk', 'cont'):
                s = s.signal(None)
            if s.sig is None:
                s = s.signal('ret', NULL)
            s = s.cp()
            s.store = {k: v for k, v in s.store.items() if not (k.op == 'V' and k.a[1] >= d)}
            rets.append(s)
        rets = self.merge(rets)
        out = []
        for s in rets:
            if s.sig == 'ret':
                v = s.val
                s = s.signal(None)
                if v is not None and v.op == 'retref':
                    out.append((s, ('l', v.a[0])))
                else:
                    out.append((s, ('v', v if v is not None else NULL)))
            else:
                out.append((s, None))
        return out

    def inline(self, f, this, args, st, fr, dyn=None):
        if len(self.cstack) > self.pol.maxdepth or self.cstack.count(f['key']) > 0:
            return None
        nf = Fr(f, fr.depth + 1, this, {}, dyn)
        self.calls.add(f['n'])
        s = self.bindparams(f['params'], args, st, nf)
        self.cstack.append(f['key'])
        try:
            if f.get('kind') == 'ctor':
                s2 = self.ctor_inits(f, s, nf)
                out = []
                for x in s2:
                    if x.sig:
                        out.append((x, None))
                    else:
                        out += self.runbody(f.get('body'), x, nf)
                return out
            return self.runbody(f['body'], s, nf)
        finally:
            self.cstack.pop()

    def ctor_inits(self, f, st, nf):
        cur = [st]
        for i in f.get('inits') or ():
            nxt = []
            for s in cur:
                if s.sig:
                    nxt.append(s)
                    continue
                if i.get('f'):
                    r = self.P.recname.get(f['cls'])
                    fd = next((x for x in (r or {'fields': []})['fields'] if x['n'] == i['f']), None)
                    if fd and fd.get('ref'):
                        for s2, l in self.lv(i['e'], s, nf):
                            nxt.append(s2 if s2.sig else s2.put(T('F', nf.this, i['f']), addr(l)))
                    else:
                        for s2, v in self.ev(i['e'], s, nf):
                            nxt.append(s2 if s2.sig else s2.put(F(nf.this, i['f']), v))
                else:
                    e = i['e']
                    # base / delegating constructor: analysed on the same object
                    if e.get('k') == 'ctor':
                        g = self.P.fns.get(e.get('fn'))
                        for s2, args in self.callargs(e, s, nf):
                            if s2.sig:
                                nxt.append(s2)
                            elif g is not None:
                                r = self.inline(g, nf.this, args, s2, nf)
                                nxt += [x for x, _ in r] if r is not None else [s2]
                            else:
                                br = self.P.recname.get(e.get('oc'))
                                if br:
                                    dv = self.default_rec(br, zero=False)
                                    if dv.op == 'rec':
                                        for k, v in dv.a[1]:
                                            s2 = s2.put(F(nf.this, k), v)
                                nxt.append(s2)
                    else:
                        for s2, v in self.ev(e, s, nf):
                            nxt.append(s2)
            cur = self.merge(nxt)
        return cur

    def callargs(self, e, st, fr):
        """arguments as values, or ('ref', loc) for reference parameters"""
        pf = e.get('pf') or ''
        cur = [(st, [])]
        for i, a in enumerate(e.get('args') or ()):
            f = pf[i] if i < len(pf) else 'v'
            nxt = []
            for s, vs in cur:
                if s.sig:
                    nxt.append((s, vs))
                    continue
                if a is not None and (f in 'mrx' or '[' in (a.get('t') or '') and e.get('name') in ('std::copy', 'std::copy_n') and
                                      a['k'] in ('mem', 'var') and not a.get('a')):
                    for s2, l in self.lv(a, s, fr):
                        nxt.append((s2, vs + [('ref', l)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def vals(self, args, st):
        return [self._ld(st, a[1]) if isinstance(a, tuple) else a for a in args]

    # -------------------------------------------------------- constructors
    def raw(self, cls):
        """an object before its constructor runs"""
        r = self.P.recname.get(cls) if self.pol.uninit else None
        if r is None:
            return rec0(cls)
        v = rec0(cls)
        w = self.unset_rec(r)
        if w.op == 'rec':
            for k, x in w.a[1]:
                if any(y.op == 'uninit' for y in walk(x)):
                    v = setf(v, k, x)
        return v

    def ctor(self, e, st, fr):
        oc = e.get('oc') or ''
        t = base_t(e.get('t'))
        name = oc.split('::')[-1]
        f = self.P.fns.get(e.get('fn'))
        out = []
        for s, args in self.callargs(e, st, fr):
            if s.sig:
                out.append((s, None))
                continue
            v = self.vals(args, s)
            if f is not None and (f.get('body') or f.get('inits')):
                l = T('V', '#c', fr.depth, self.nix(e))
                s = s.setroot(l, self.raw(f['cls']))
                r = self.inline(f, l, args, s, fr, dyn=f['cls'])
                if r is not None:
                    for s2, _ in r:
                        if s2.sig:
                            out.append((s2, None))
                        else:
                            x = s2.load(l)
                            out.append((s2, x))
                    continue
            r = self.P.recname.get(oc)
            if r and not v:
                out.append((s, self.default_rec(r, zero=bool(e.get('zi')) if self.pol.uninit else not e.get('triv'))))
                continue
            out.append(self.std_ctor(e, oc, name, t, args, v, s, fr))
        return out

    def std_ctor(self, e, oc, name, t, args, v, s, fr):
        if is_string(t):
            if not v:
                return (s, C(''))
            if len(v) >= 2 and v[0].op == 'it':
                return (s, self.opq('string from iterators', e, fr))
            if len(v) >= 2 and is_num(v[1]) and (e['args'][1].get('t') or '').startswith('char'):
                return (s, T('strrep', *v[:2]))
            return (s, v[0])
        if is_seq(t) or is_map(t):
            if not v or (v and v[0].op == 'make' and len(v) == 1):
                return (s, T('empty'))
            x = v[0]
            if x.op == 'arrv':
                if is_map(t):
                    c = T('empty')
                    for p in x.a[0]:
                        c = upd(c, getf(p, 'first'), getf(p, 'second'))
                    return (s, c)
                return (s, x)
            if x.op == 'it':
                if len(v) >= 2 and v[1].op == 'it' and x.a[0] == 'begin' and v[1].a[0] == 'end' and x.a[2] is v[1].a[2]:
                    return (s, x.a[2])
                return (s, self.opq('container from range', e, fr))
            if len(v) == 1 or e.get('imp'):
                return (s, x)
            return (s, T('make', t, *v))
        if dur_period(t) is not None:
            if not v:
                return (s, ZERO)
            at = (e['args'][0] or {}).get('t')
            if dur_period(at) is not None:
                return (s, v[0])
            return (s, mul(v[0], C(dur_period(t))))
        if name in ('unique_ptr', 'shared_ptr', 'weak_ptr', 'function', 'variant', 'optional', 'reference_wrapper'):
            if not v:
                return (s, NULL if name != 'variant' else T('variant0', t))
            if name == 'reference_wrapper':
                return (s, addr(args[0][1]) if isinstance(args[0], tuple) else v[0])
            if name == 'optional' and v[0] is not NULL and not (v[0].op == 'make' and 'nullopt' in str(v[0].a[0])):
                return (s, v[0] if base_t((e['args'][0] or {}).get('t')).startswith('std::optional') else T('some', v[0]))
            return (s, v[0])
        if name == 'pair':
            if len(v) == 2:
                return (s, pair(v[0], v[1]))
            if not v:
                return (s, rec0('pair'))
            return (s, v[0])
        if name == 'tuple':
            r = rec0('tuple')
            for i, x in enumerate(v):
                r = setf(r, 'get%d' % i, x)
            return (s, r)
        if name in LOCKS:
            tags = ' '.join(base_t((a or {}).get('t')) for a in e['args'])
            ms = tuple(a[1] if isinstance(a, tuple) else (a.a[0] if isinstance(a, T) and a.op == 'lockguard' else T('opq', 'mutex'))
                       for a, x in zip(args, e['args'])
                       if not any(g in base_t((x or {}).get('t')) for g in ('defer_lock', 'adopt_lock', 'try_to_lock', 'duration', 'time_point')))
            if len(v) == 1 and v[0].op == 'lockguard':
                return (s, v[0])                        # moved
            if 'defer_lock' in tags or 'try_to_lock' in tags or 'duration' in tags or 'time_point' in tags:
                return (s, T('lockguard', ms, 0, name))   # not (certainly) held
            if 'adopt_lock' not in tags:
                for m in ms:
                    s, _ = self.effect(s, fr, e, 'lock', 'lock_shared' if name == 'shared_lock' else 'lock', m, ())
            return (s, T('lockguard', ms, 1, name))
        if name in ('basic_ostringstream', 'basic_stringstream'):
            return (s, C(''))
        if oc.startswith('sdbusplus::message::object_path') or name == 'object_path':
            return (s, v[0] if v else C(''))
        if name == 'basic_format_string':
            return (s, v[0] if v else C(''))
        if oc == 'boost::system::error_code':
            # errors are compared by number; success is zero
            if not v:
                return (s, ZERO)
            return (s, v[0])
        return (s, T('make', oc or t, *v))

    # -------------------------------------------------------- entry
    def enter(self, f, st=None, this=None, dyn=None, args=None):
        """analyse function f from an arbitrary initial state -> [(state, value)]"""
        this = this if this is not None else (T('D', T('sym', 'this')) if f.get('cls') and not f.get('static') else None)
        nf = Fr(f, 1, this, {}, dyn)
        s = st or St()
        for i, p in enumerate(f['params']):
            l = T('V', p['n'] or '#p%d' % i, 1, p['id'])
            a = args[i] if args and i < len(args) and args[i] is not None else None
            s = s.setroot(l, a if a is not None else T('sym', 'arg%d' % i))
        self.cstack = [f['key']]
        self.calls.add(f['n'])
        if f.get('kind') == 'ctor':
            sts = self.ctor_inits(f, s, nf)
        else:
            sts = [s]
        outs = []
        for x in sts:
            outs += [x] if x.sig else self.block(f['body'], x, nf)
        res = []
        for o in self.merge([o.signal('ret', NULL) if o.sig is None else o for o in outs]):
            res.append(o)
        return res, nf
