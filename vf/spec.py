"""Comparing what the code does (path tables) with what a property demands
(decision functions over an oracle of path facts)."""
import json
import os
import time
from .term import *
from .heap import *
from . import prog, lin
from .exec import Exec, mkfirst
from .interp import Policy, St, Limit, LOSSY, suffix, base_t, is_map, is_seq, is_string, is_ptr
from .extract import Broken, VERIF, REPO

OPAQUE = ('opq', 'part', 'loop', 'unreach', 'ambig', 'fold', 'while', 'compn', 'strmut')
THIS = T('D', T('sym', 'this'))


class Fork(Exception):
    def __init__(self, t):
        self.t = t


class Skip(Exception):
    """this path is outside what the rule speaks about"""


class Undecided(Exception):
    pass


class Viol(Exception):
    """raised by a rule on a specific path"""


class Oracle:
    def __init__(self, facts):
        self.facts = facts

    def __call__(self, t):
        r = self.facts.decide(t)
        if r is None:
            if t.op in ('gt', 'lt', 'eqk', 'has', 'isempty'):
                # a conditional inside is settled first
                c = first_ite(t)
                if c is not None:
                    return self(resolve(t, c, self(c), self.facts))
            raise Fork(t)
        return r

    def val(self, t):
        """t with its conditionals resolved on this path"""
        while True:
            c = first_ite(t)
            if c is None:
                return t
            t = resolve(t, c, self(c), self.facts)


def head(o, v):
    """v with only its outermost conditionals resolved"""
    while v is not None and v.op == 'ite':
        v = v.a[1] if o(v.a[0]) else v.a[2]
    return v


def worlds(facts, fn, limit=20000):
    st = [facts]
    n = 0
    while st:
        f = st.pop()
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        try:
            r = fn(Oracle(f))
        except Fork as e:
            st += [g for g, _ in f.fork(e.t)]
            continue
        yield f, r


def opaque(t):
    return has_op(t, *OPAQUE) if isinstance(t, T) else any(opaque(x) for x in t)


def abstract(g, w):
    """g with the maximal subterms it shares with w replaced by symbols"""
    have = {x for x in walk(w) if isinstance(x, T) and has_op(x, *OPAQUE)}
    return subst(g, lambda x: T('sym', 'shared', x.id) if x in have else None)


def unsigned_(k):
    """positions and sizes are never negative"""
    return k.op in ('size', 'count', 'ix') or k.op == 'el' and k.a[0].a[0] == 'range' and \
        is_num(k.a[0].a[1].a[0]) and cval(k.a[0].a[1].a[0]) >= 0


def plain(t):
    """a quantity nothing more is known about than the path's comparisons say"""
    if t.op == 'size':
        return plain(t.a[0])
    return t.op in ('rd', 'arg', 'at', 'sel', 'vget', 'ix', 'el', 'get', 'res', 'out', 'sym', 'f', 'D', 'as')


def kept(I_, n):
    """size(list while a loop runs) is its size before when iterations only overwrite elements"""
    for y in [y for y in walk(n) if y.op == 'size' and y.a[0].op == 'phi']:
        l = y.a[0].a[0]
        for L in I_.loops:
            if l not in L['M']:
                continue
            ok = True
            for _, s in L['norm'] + L['exits']:
                v = s.load(l)
                while v.op == 'upd':
                    v = v.a[0]
                ok = ok and v is y.a[0]
            if ok:
                b = L['st'].load(l)
                n = subst(n, lambda z: size(b) if z is y else None)
                break
    return n


def isbool(a):
    return a.op not in ('gt', 'lt', 'eqk')


def sub_lits(f):
    return ['%s%s' % ('' if v else 'not ', show(a)) for a, v in f.lits.items()]


def same(o, a, b):
    """equality of two values on the oracle's path (forks as needed)"""
    if a is b:
        return True
    a, b = o.val(a), o.val(b)
    if a is b:
        return True
    if a.op == 'c' and b.op == 'c' and a.a[0] in 'ib' and b.a[0] in 'ib':
        return a.a[1] == b.a[1]
    for x, y in ((a, b), (b, a)):
        if (x is TRUE or x is FALSE) and y.op != 'c':
            return o(y) == (x is TRUE)
    from .heap import _isbool
    if _isbool(a) or _isbool(b):
        return o(a) == o(b)
    if a.op == 'rec' or b.op == 'rec':
        ba = a.a[0] if a.op == 'rec' else a
        bb = b.a[0] if b.op == 'rec' else b
        if ba is bb or ba.op == 'rec0' or bb.op == 'rec0':
            fs = {k for k, _ in (a.a[1] if a.op == 'rec' else ())} | {k for k, _ in (b.a[1] if b.op == 'rec' else ())}
            return all(same(o, getf(a, f), getf(b, f)) for f in sorted(fs))
    if a.op == b.op and a.op not in ('sym', 'rd', 'c', 'gt', 'lt', 'eqk', 'upd', 'del') and len(a.a) == len(b.a) and \
            a.op not in ('poly', 'dom') and not (a.op in ('el', 'ix')):
        ok = True
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                ok = ok and (x is y or (a.op not in BIND and same(o, x, y)) or bdd(x) is bdd(y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and a.op not in BIND:
                ok = ok and len(x) == len(y) and all(
                    p is q or (isinstance(p, T) and isinstance(q, T) and same(o, p, q)) or p == q for p, q in zip(x, y))
            elif x != y:
                ok = False
            if not ok:
                break
        if ok:
            return True
    e = eq(a, b)
    if e.op == 'c':
        return e is TRUE
    if e.op in ('eqk',):
        r = o.facts.decide(e)
        return r is True
    if e.op in ('eqc', 'isempty', 'isnull'):
        return o.facts.decide(e) is True
    return False


def samemap(o, m, spec, extra=(), generic='k*', vals=True):
    """m agrees pointwise with spec(key) -> (present, value) for every key"""
    keys = set()
    for t in walk(m):
        if t.op in ('upd', 'del') and t.a[1] not in keys:
            keys.add(t.a[1])
    keys |= set(extra)
    keys = {k for k in keys if not any(x.op in ('el', 'ix') for x in walk(k))}
    keys = sorted(keys, key=lambda t: t.id)
    g = T('sym', generic)
    for k in keys + [g]:
        if k is g and any(o(eq(k, x)) for x in keys):
            continue                                    # that key was examined by itself
        h, v = spec(k)
        if not same(o, has(m, k), h):
            return k
        if vals and o(h):
            if not same(o, getat(m, k), v):
                return k
    return None


# the build options in the configurations analysed: every pair of settings of every two options occurs
CONFIGS = {0: (0, 0, 0, 0), 1: (1, 1, 1, 1), 2: (1, 0, 0, 1), 3: (0, 1, 1, 0)}


def option(cfg, name):
    return bool(CONFIGS[cfg][('strict', 'offline', 'unc', 'missing').index(name)])


class Check:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.obl = []            # discharged obligations
        self.und = []            # undecided
        self.vio = []
        self.known = []
        self.fns = set()
        self.callees = set()
        self.paths = 0
        self.sites = 0
        self.rules = {}
        self.t0 = time.time()
        self._P = {}

    def P(self, cfg=0):
        if cfg not in self._P:
            self._P[cfg] = prog.load(cfg)
        return self._P[cfg]

    def ok(self, rule, what):
        self.obl.append((rule, what))
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def undec(self, rule, what):
        self.und.append((rule, str(what)))

    def viol(self, rule, where, what, facts=None, key=None):
        if isinstance(where, dict):
            where = (where.get('file'), where.get('l'), where.get('n'))
        v = {'rule': rule, 'file': where[0], 'line': where[1], 'function': where[2], 'what': what,
             'path': sub_lits(facts) if facts is not None else [],
             'key': key or '%s|%s' % (rule, where[2])}
        for w in self.vio:
            if w['rule'] == v['rule'] and w['function'] == v['function'] and w['what'] == v['what']:
                return
        self.vio.append(v)

    # -- analysis helpers
    def run(self, f, cfg=0, this=None, dyn=None, args=None, st=None, **pol):
        """path table of function f (a dict or a name)"""
        P = self.P(cfg)
        if isinstance(f, str):
            fs = P.find(f)
            fs = [g for g in fs if g.get('body') or g.get('inits')]
            if not fs:
                raise Broken('anchor function %s not found' % f)
            f = fs[0]
        I_ = Exec(P, Policy(**pol))
        r, fr = I_.enter(f, st=st, this=this, dyn=dyn or f.get('cls'), args=args)
        self.fns.add('%s (%s:%s)' % (f['n'], f['file'], f['l']))
        self.callees |= I_.calls
        self.paths += len(r)
        I_.f = f
        r = [s.signal('ret', s.load(s.val.a[0])) if s.sig == 'ret' and s.val is not None and s.val.op == 'retref' and
             s.val.a[0].op in ('G', 'V', 'D', 'F', 'I') else s for s in r]
        I_.exits = [s for s in r if s.sig == 'exit']
        return I_, [s for s in r if s.sig != 'exit']

    def run_clo(self, I_, clo, args, facts=None, **pol):
        """path table of a closure value produced in I_ (called later, from outside)"""
        from .interp import Fr
        old = I_.pol
        I_.pol = Policy(**pol)
        try:
            st = St(facts) if facts is not None else St()
            I_.cstack = [I_.f['key']]
            res = []
            for s, v in I_.call_clo(clo, args, st, Fr(I_.f, 60, None, {}, None)):
                if s.sig == 'exit':
                    continue
                if s.sig is None:
                    s = s.signal('ret', s.load(v[1]) if v is not None and v[0] == 'ref' else (v[1] if v else NULL))
                res.append(s)
            self.paths += len(res)
            return I_.merge(res)
        finally:
            I_.pol = old

    def judge(self, rule, I_, paths, fn, what=None, at=None):
        """fn(o, s, emit) examines path s under oracle o and returns None when the
        rule holds, or a message (or (message, effect/line)) when it does not;
        a list of functions is examined one by one (fewer cases than jointly)"""
        if isinstance(fn, (list, tuple)):
            for g in fn:
                self.judge(rule, I_, paths, g, what, at)
            return
        f = I_.f
        what = what or f['n']
        for i, s in enumerate(paths):
            try:
                bad = None
                n = 0
                unds = set()
                for fx, r in worlds(s.facts, lambda o: fn(o, s)):
                    n += 1
                    if r is not None and not lin.feasible(fx):
                        continue
                    if r is not None:
                        where = at or (f['file'], f['l'], f['n'])
                        if isinstance(r, tuple):
                            if r[0] == 'undecided':
                                if r[1] not in unds:
                                    unds.add(r[1])
                                    self.undec(rule, '%s path %d: %s' % (what, i, r[1]))
                                continue
                            msg, ef = r
                            ln = I_.ln.get(ef)
                            if ln:
                                where = (ln[0], ln[1], ln[2])
                        else:
                            msg = r
                        if LOSSY in fx.lits:
                            self.undec(rule, '%s path %d: joined partitions: %s' % (what, i, msg))
                            continue
                        self.viol(rule, where, '%s: %s' % (what, msg), fx)
                        bad = True
                        break
                if not bad:
                    self.ok(rule, '%s path %d (%d cases)' % (what, i, n))
            except Skip:
                continue
            except (Undecided, Overflow) as e:
                self.undec(rule, '%s path %d: %s' % (what, i, e))

    def judge_loop(self, rule, I_, L, fn, what=None, exits=False):
        """fn(o, st) on every iteration path of loop L (exits: also those that leave it)"""
        self.sites += 1
        w = what or '%s loop at %s:%s' % (L['fn'], L['file'], L['line'])
        self.judge(rule, I_, [s for _, s in L['norm'] + (L['exits'] if exits else [])], fn, w, (L['file'], L['line'], L['fn']))

    def bounds(self, rule, I_, where=None):
        """every array access recorded in I_ is inside its array"""
        sites = {}
        for b in I_.bounds:
            sites.setdefault(b[:6], []).append(b[6])
        for (file, line, fn, kind, i, n), fs in sorted(sites.items(), key=lambda x: (x[0][0], x[0][1] or 0, str(x[0][3]))):
            if where and not where(file, fn):
                continue
            bad = None
            n = kept(I_, n)
            for f in fs:
                for w, r in worlds(f, lambda o: (o.val(i), o.val(n))):
                    k, m = r
                    if not lin.feasible(w):
                        continue
                    d = {y: v for y, v in lin.poly(sub(k, m)).items()}
                    hi = (d, kind == 'size')                       # violated when k - m >= 0 (size: > 0)
                    lo = ({y: -v for y, v in lin.poly(k).items()}, True)
                    if lin.feasible(w, [hi]):
                        bad = (w, k, m, 'up')
                    elif kind != 'size' and not unsigned_(k) and lin.feasible(w, [lo]):
                        bad = (w, k, m, 'low')
                    if bad:
                        break
                if bad:
                    break
            nm = '%s of %s' % (kind, show(i)[:80])
            if bad is None:
                self.ok(rule, '%s:%s %s: %s inside %s' % (file, line, fn, nm, show(n)[:80]))
                continue
            w, k, m, side = bad
            ms = {y for mo in lin.poly(sub(k, m)) for y, _ in mo}
            if any(not plain(y) for y in ms) or \
                    any(y.op in ('ite', 'icast', 'div', 'mod') + OPAQUE for a in w.lits if not isbool(a)
                        for y in walk(a) if any(occurs(z, y) for z in ms)):
                self.undec(rule, '%s:%s %s: %s' % (file, line, fn, nm))
            else:
                self.viol(rule, {'file': file, 'l': line, 'n': fn},
                          '%s may be outside the array of %s' % (nm, show(m)[:80]), w, key='%s %s' % (fn, rule))

    def expect(self, o, got, want, name, at=None):
        """None or a verdict for judge(): value got must equal want"""
        if same(o, got, want):
            return None
        g, w = o.val(got), o.val(want)
        if not opaque(g) and lin.implied_equal(o.facts, g, w):
            return None
        if opaque(g) and opaque(abstract(g, w)):
            return ('undecided', '%s is %s' % (name, show(g)[:200]))
        msg = '%s is %s, required %s' % (name, show(g)[:400], show(w)[:400])
        return (msg, at) if at is not None else msg

    # -- result
    def include(self, pid, *rules):
        """obligations of another property that this one rests on"""
        k = Check(pid, self.tier)
        k._P = self._P
        REG[pid](k)
        for rule, what in k.obl:
            if rule in rules:
                self.ok('%s/%s' % (pid, rule), what)
        for rule, what in k.und:
            if rule in rules:
                self.undec('%s/%s' % (pid, rule), what)
        for v in k.vio:
            if v['rule'] in rules:
                self.vio.append(dict(v, rule='%s/%s' % (pid, v['rule']), key='%s/%s' % (pid, v['key'])))
        self.fns |= k.fns
        self.callees |= k.callees
        self.paths += k.paths
        self.sites += k.sites

    def finish(self):
        kf = os.path.join(VERIF, 'known_findings.json')
        known = json.load(open(kf)) if os.path.exists(kf) else {'findings': []}
        news = []
        for v in self.vio:
            hit = None
            for k in known.get('findings', ()):
                if k['property'] == self.id and k['key'] in (v['key'],) and k.get('match', '') in v['what']:
                    hit = k
            (self.known if hit else news).append((v, hit))
        rc = 0
        for v, k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        if news:
            rc = 1
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            for n, (v, _) in enumerate(news):
                p = os.path.join(d, '%s-%d.json' % (self.id, n))
                json.dump({'property': self.id, **v}, open(p, 'w'), indent=1)
                print('%s:%s: in %s: [%s] %s' % (v['file'], v['line'], v['function'], v['rule'], v['what']))
                for l in v['path'][:12]:
                    print('    when %s' % l[:300])
                print('VIOLATION property=%s replay=%s' % (self.id, p))
        for r, u in self.und[:20]:
            print('undecided [%s] %s' % (r, u[:300]))
        if not self.obl and not self.vio and not self.und:
            print('nothing analysed')
            rc = 2
        nerr = {}
        for c, P in self._P.items():
            nerr['cfg%d' % c] = {'translation_units': len(P.tus), 'functions': len(P.fns), 'parse_errors': len(P.errors)}
        ev = {'property': self.id, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other',
              'coverage': {
                  'explanation': 'Static value-flow analysis of the current source: per obligation the rule was applied to '
                                 'every path partition of the named functions (callees analysed in context).',
                  'program': nerr,
                  'functions_analysed': sorted(self.fns)[:80],
                  'functions_inlined': len(self.callees),
                  'path_partitions': self.paths,
                  'sites': self.sites,
                  'rules': self.rules,
                  'obligations': len(self.obl) + len(self.und) + len(self.vio),
                  'discharged': len(self.obl),
                  'undecided': [u[:300] for _, u in self.und][:40],
                  'samples': [list(x) for x in self.obl[:12]],
              },
              'assumptions': ['sdbusplus, boost, nlohmann-json and libc behave as their interfaces document',
                              'floating point is treated as exact; NaN ordering is modelled only through explicit isnan/isfinite tests'],
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(news)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not os.environ.get('VF_NOEV'):
            json.dump(ev, open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w'), indent=1)
        print('%s: %d obligations discharged, %d undecided, %d violations (%d known), %.1fs' % (
            self.id, len(self.obl), len(self.und), len(news), len(self.known), time.time() - self.t0))
        return rc


REG = {}


def check(pid):
    def d(f):
        REG[pid] = f
        return f
    return d


# ---------------------------------------------------------------- small helpers
def fld(l, *fs):
    for f in fs:
        l = F(l, f)
    return l


def rd(l):
    return T('rd', l)


def tf(*path):
    """initial value of this->a.b"""
    v = T('rd', THIS)
    for p in path:
        v = getf(v, p)
    return v


def tl(*path):
    return fld(THIS, *path)


def isnull(t):
    return eq(t, NULL)


def ploc(I_, i):
    """location of the i-th (by-value or reference) parameter"""
    p = I_.f['params'][i]
    return T('V', p['n'] or '#p%d' % i, 1, p['id'])


def getter(name, obj, *args):
    return T('get', name, obj, tuple(args))


def G(P, name):
    """location of a global by qualified-name suffix"""
    for k, g in P.globals.items():
        if g['n'] == name or g['n'].endswith('::' + name):
            return T('G', k, g['n'])
    return None


def land(*ts):
    r = TRUE
    for t in reversed(ts):
        r = ite(t, r, FALSE)
    return r


def lor(*ts):
    r = FALSE
    for t in reversed(ts):
        r = ite(t, TRUE, r)
    return r


def iff(a, b):
    return ite(a, b, lnot(b))


def dom(c, kind='seq', d=1):
    return T('dom', kind, c, d)


def E(kind, name, obj, *args):
    return T('e', kind, name, obj if obj is not None else NULL, tuple(args))


def prune(tree, keep):
    """keep only the effects selected by keep(e) inside an effect tree"""
    if tree.op == 'effs':
        out = []
        for e in tree.a[0]:
            out += [x for x in [filt(e, keep)] if x is not None]
        return T('effs', tuple(out))
    if tree.op == 'ite':
        return ite(tree.a[0], prune(tree.a[1], keep), prune(tree.a[2], keep))
    return tree


def filt(e, keep):
    if e.op == 'foreach':
        t = bdd(prune(e.a[1], keep))
        if t is T('effs', ()):
            return None
        return T('foreach', e.a[0], t, *e.a[2:])
    if e.op == 'repeat':
        t = prune(e.a[3], keep)
        if all(l is T('effs', ()) for _, l in cases(t)):
            return None
        return T('repeat', *e.a[:3], t)
    return e if keep(e) else None


def effs(s, keep):
    out = []
    for e in s.eff:
        x = filt(e, keep)
        if x is not None:
            out.append(x)
    return out


def named(*ns):
    return lambda e: e.op == 'e' and e.a[1] in ns


def kinds(*ks):
    return lambda e: e.op == 'e' and e.a[0] in ks


def leaf_effs(e):
    """every primitive effect inside e"""
    if e.op == 'foreach':
        for _, l in cases(e.a[1]):
            if l.op == 'effs':
                for x in l.a[0]:
                    yield from leaf_effs(x)
    elif e.op == 'repeat':
        for _, l in cases(e.a[3]):
            if l.op == 'effs':
                for x in l.a[0]:
                    yield from leaf_effs(x)
    else:
        yield e


# ---------------------------------------------------------------- generic queries
def argsym(i):
    return T('sym', 'arg%d' % i)


def one_ret(paths):
    r = [s for s in paths if s.sig == 'ret']
    return r[0] if len(r) == 1 else None


def field_of(v):
    """(root location, field) when v is an initial field value"""
    if v is not None and v.op == 'sel' and v.a[0] is T('rd', THIS):
        return v.a[1]
    return None


def changed(s, root=THIS):
    """fields of the object at root that differ from their initial value"""
    v = s.store.get(root)
    if v is None:
        return {}
    out = {}
    base = T('rd', root)
    if v.op == 'rec':
        for k, x in v.a[1]:
            if x is not getf(base, k):
                out[k] = x
    return out


def objs(ts, *names):
    """objects on which the named operations are applied in the given terms"""
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == 'get' and x.a[0] in names and x.a[1] not in out:
                out.append(x.a[1])
            elif x.op == 'e' and x.a[1] in names and x.a[2] not in out:
                out.append(x.a[2])
    return out


def allterms(s):
    yield from s.facts.lits
    yield from s.eff
    yield from s.store.values()
    if s.val is not None:
        yield s.val


def domcont(d):
    return d.a[1]


def callers(P):
    """fn key -> set of keys of functions whose body mentions it (calls, virtual
    overrides included, and references)"""
    if hasattr(P, '_callers'):
        return P._callers
    from .prog import visit
    out = {}
    for k, f in P.fns.items():
        def v(n, k=k):
            for t in n.values():
                if isinstance(t, str) and t in P.fns:
                    out.setdefault(t, set()).add(k)
                    for o in P.all_over(t):
                        out.setdefault(o, set()).add(k)
        visit(f.get('body') or {}, v)
        visit(f.get('inits') or [], v)
    P._callers = out
    return out


def loops_over(I_, cont, loc=None):
    """analysed loops whose domain is the given container (and that modify loc)"""
    out, seen = [], set()
    for L in I_.loops:
        d = L['dom']
        if d is None or d.a[1] is not cont:
            continue
        if loc is not None and not touches(L['M'], loc):
            continue
        k = (id(L['node']), d)
        out.append(L)
    # the last analysis of a loop node is the one in its final context
    last = {}
    for L in out:
        last[(id(L['node']), L['dom'], tuple(sorted(L['st'].facts.lits.items(), key=lambda x: x[0].id)))] = L
    return list(last.values())


def prefixes(l):
    out = [l]
    while l.op in ('F', 'I'):
        l = l.a[0]
        out.append(l)
    return out


def touches(M, loc):
    return any(m in prefixes(loc) or loc in prefixes(m) for m in M)
