"""Who may drive outputs, and what diagnostics may touch: queries over the call
graph of the whole daemon (virtual dispatch resolved to every override)."""
from ..spec import *
from ..extract import Broken
from ..prog import visit
from ..term import rebuild
from ..heap import getat

DAEMON_NOT = ('ipmi/', 'setsensor.cpp')


def daemon(P):
    return {k: f for k, f in P.fns.items() if (f.get('body') or f.get('inits')) and not f['file'].startswith(DAEMON_NOT)}


def refs(P, f):
    """(callee key, node) of every function f mentions, overrides included"""
    out = []

    def v(n):
        for t in n.values():
            if isinstance(t, str) and (t in P.fns or t in P.over or t in P.mkey):
                out.append((t, n))
                for o in P.all_over(t):
                    out.append((o, n))
    visit(f.get('body') or {}, v)
    visit(f.get('inits') or [], v)
    return out


def graph(P):
    if not hasattr(P, '_graph'):
        up, down = {}, {}
        for k, f in daemon(P).items():
            for t, n in refs(P, f):
                up.setdefault(t, {}).setdefault(k, n)
                down.setdefault(k, {}).setdefault(t, n)
        P._graph = (up, down)
    return P._graph


def family(P, root):
    """names of the class root and of every class derived from it"""
    r = P.rec(root)
    if r is None:
        return set()
    return {r['n']} | {n for n in P.recname if r['n'] in P.bases(n)}


def methods(P, fam, name):
    """keys of the methods `name` declared in the classes fam"""
    out = set()
    for k, (r, m) in P.mkey.items():
        if r['n'] in fam and m.get('n', '').split('::')[-1] == name:
            out.add(k)
    for k, f in P.fns.items():
        if f.get('cls') in fam and f['n'].split('::')[-1] == name:
            out.add(k)
    return out


def closure(P, roots, fam=()):
    """roots and the helpers only they use"""
    up, _ = graph(P)
    ok = set(roots)
    while True:
        more = set()
        for k in daemon(P):
            if k in ok or k not in up:
                continue
            if P.mkey.get(k, (None, {}))[1].get('ov') or P.over.get(k):
                continue                           # reachable through an interface
            cs = set(up[k]) - {k}
            if cs and cs <= ok:
                more.add(k)
        if not more:
            return ok
        ok |= more


def where(P, k, n=None):
    f = P.fns[k]
    return {'file': f['file'], 'l': (n or {}).get('l') or f['l'], 'n': f['n']}


@check('C41')
def c41(c):
    P = c.P()
    c1 = c.P(1)
    for P in (P, c1):
        up, down = graph(P)
        S, W = family(P, 'Sensor'), family(P, 'WriteInterface')
        if not S or not W:
            raise Broken('Sensor or WriteInterface is gone')
        sw, ww = methods(P, S, 'write'), methods(P, W, 'write')
        if not sw or not ww:
            raise Broken('write of Sensor or WriteInterface is gone')
        fan = P.rec('FanController')
        if fan is None:
            raise Broken('FanController is gone')
        outp = {k for k, f in P.fns.items() if f.get('cls') == fan['n'] and f['n'].split('::')[-1] == 'outputProc'}
        dtor = {k for k, f in P.fns.items() if f.get('cls') == fan['n'] and '::~' in f['n']}
        drivers = closure(P, outp | dtor)
        # a sensor's write is called by fan controllers only
        n = 0
        for t in sorted(sw):
            for k, node in sorted(up.get(t, {}).items()):
                n += 1
                f = P.fns[k]
                if k in drivers:
                    c.ok('sensor-write', '%s in %s' % (t.split('@')[-1], f['n']))
                elif k in sw:
                    c.ok('sensor-write', 'overload in %s' % f['n'])
                else:
                    c.viol('sensor-write', where(P, k, node), '%s writes a sensor; only fan controllers may, in their output step' % f['n'],
                           key='sensor-write|%s' % f['n'])
        if not n:
            c.undec('sensor-write', 'no call writes a sensor')
        # what a driver may be called by
        fam = family(P, 'Controller')
        proc = methods(P, fam, 'process')
        for t in sorted(outp):
            base = {b for b in P.mkey.get(t, (None, {'ov': ()}))[1].get('ov', ())} | {t}
            for b in base:
                for k, node in sorted(up.get(b, {}).items()):
                    f = P.fns[k]
                    if k in closure(P, proc):
                        c.ok('output-step', '%s from %s' % (t.split('@')[-1], f['n']))
                    else:
                        c.viol('output-step', where(P, k, node), '%s runs the output step of a controller outside its processing' % f['n'],
                               key='output-step|%s' % f['n'])
        # writers are used by sensors only
        pw = closure(P, sw | ww)
        for t in sorted(ww):
            for k, node in sorted(up.get(t, {}).items()):
                f = P.fns[k]
                if k in pw:
                    c.ok('writer', '%s in %s' % (t.split('@')[-1], f['n']))
                else:
                    c.viol('writer', where(P, k, node), '%s uses an output writer directly' % f['n'], key='writer|%s' % f['n'])
        raw_outputs(c, P, pw, ww)
    # without the offline option a controller's destruction writes nothing
    I_, ps = c.run(next(f for f in c.P(0).fns.values() if f.get('cls') == fan['n'] and '::~' in f['n']), 0) if dtor else (None, [])
    if I_ is not None:
        def quiet(o, s):
            w = effs(s, lambda e: e.op == 'e' and e.a[0] == 'call' and e.a[1].split('::')[-1] == 'write')
            return ('fans are written when a controller is destroyed although the option is off', w[0]) if w else None
        c.judge('destruction', I_, ps, quiet)


def raw_outputs(c, P, pw, ww):
    """files and D-Bus properties written"""
    wr = closure(P, ww)
    log = {k for k, g in P.globals.items() if 'string' in g['t'] and 'logg' in g['n'].lower()}
    for k, f in sorted(daemon(P).items(), key=lambda x: (x[1]['file'], x[1]['l'])):
        ops, sets, mention = [], [], set()

        def v(n):
            t = str(n.get('t') or '')
            nm = str(n.get('name') or '').split('::')[-1]
            if n.get('k') == 'gvar':
                mention.add(n['key'])
            if n.get('k') == 'mem':
                mention.add(str(n.get('f') or ''))
            if n.get('k') == 'str':
                mention.add('"' + str(n.get('v')))
            if n.get('k') == 'call' and nm == 'open' and 'basic_ofstream' in str(n.get('name')) + str(n.get('oc') or ''):
                ops.append(n)
            if n.get('k') == 'call' and nm in ('fopen', 'creat', 'popen', 'system', 'pwrite', 'copy_file', 'rename', 'setProperty', 'set_property'):
                ops.append(n)
            if n.get('k') == 'ctor' and ('basic_ofstream' in t or 'basic_fstream' in t) and n.get('args'):
                ops.append(n)
            if n.get('k') == 'call' and nm == 'new_method_call' and len(n.get('args') or ()) >= 4:
                lits = []

                def g(y):
                    if y.get('k') == 'str':
                        lits.append(y['v'])
                    if y.get('k') == 'gvar' and P.globals.get(y['key'], {}).get('init'):
                        visit(P.globals[y['key']]['init'], g)
                visit(n['args'][3], g)
                if 'Set' in lits:
                    sets.append(n)
        visit(f.get('body') or {}, v)
        visit(f.get('inits') or [], v)
        for n in ops:
            if k in wr:
                c.ok('files', '%s opens its output' % f['n'])
            elif mention & log:
                c.ok('files', '%s opens a log' % f['n'])
            elif any(m in ('writePath', 'writepath', '_writePath') or m.startswith('"/sys') for m in mention if isinstance(m, str)):
                c.viol('files', where(P, k, n), '%s opens an output file outside the writers' % f['n'], key='files|%s' % f['n'])
            else:
                c.undec('files', '%s:%s %s opens a file' % (f['file'], n.get('l'), f['n']))
        for n in sets:
            if k in wr:
                c.ok('properties', '%s sets its target' % f['n'])
            else:
                c.viol('properties', where(P, k, n), '%s sets a property of another service; only the fan output writers may' % f['n'],
                       key='properties|%s' % f['n'])


# ---------------------------------------------------------------- diagnostics do not influence control
SWITCHES = ('debugEnabled', 'loggingEnabled', 'coreLoggingEnabled')
POL40 = {
    'dbus_configuration::init': dict(opaque={'populatePidInfo', 'spliceInputs', 'getZoneIndex', 'setZoneIndex', 'createMatches',
                                             'getSelectedProfiles', 'debugPrint', 'getSensorPath', 'getPIDAttribute_'},
                                     throws={'populatePidInfo'}, thr_forget=True),
}


class SideFork(Exception):
    def __init__(self, side, t):
        self.side, self.t = side, t


class Side:
    def __init__(self, facts, side, D=None):
        self.facts, self.side = facts, side
        self.D = D

    def __call__(self, t):
        if self.side and self.D is not None:
            t = self.D.unprime(t)
        r = self.facts.decide(t)
        if r is None:
            raise SideFork(self.side, t)
        return r

    def val(self, t):
        from ..term import first_ite, resolve
        while True:
            x = first_ite(t)
            if x is None:
                return t
            t = resolve(t, x, self(x), self.facts)


class Diag:
    """what is a diagnostic switch or diagnostic state"""

    def __init__(self, c, cfg=0):
        self.c, self.cfg = c, cfg
        P = self.P = c.P(cfg)
        self.keys = {k: g['n'].split('::')[-1] for k, g in P.globals.items() if g['n'].split('::')[-1] in SWITCHES}
        if not self.keys:
            raise Broken('none of the diagnostic switches exists')
        self.rds = [T('rd', G(P, n)) for n in self.keys.values()]
        self.locs = {x.a[0] for x in self.rds}
        for k, g in P.globals.items():
            if g['n'].split('::')[-1] == 'loggingPath':
                self.locs.add(G(P, 'loggingPath'))
            elif 'PidCoreLog' in g['t']:
                self.locs.add(T('G', k, g['n']) if False else self._g(P, g))
        self.roots = set(self.locs)
        self.streams = {(r['n'], f['n']) for r in P.recs.values() for f in r['fields'] if 'ofstream' in f['t']} if hasattr(P, 'recs') else set()
        self.sfields = {f for _, f in self.streams}
        self.extra = set()
        self.fields = {}          # state that only diagnostics depend on: name -> where it was found
        self._mention = {}
        self.logonly_ = {}

    @staticmethod
    def _g(P, g):
        return G(P, g['n'].split('::')[-1])

    def base(self, t):
        """t is itself diagnostic state"""
        if t.op == 'rd':
            l = t.a[0]
            while l.op in ('F', 'I'):
                l = l.a[0]
            return l in self.locs
        if t.op == 'sel':
            return t.a[1] in self.sfields or t.a[1] in self.fields
        if t.op == 'phi':
            return t.a[0].op == 'F' and t.a[0].a[1] in self.fields
        if t.op == 'make':
            return isinstance(t.a[0], str) and 'ofstream' in t.a[0]
        if t.op == 'res':
            return isinstance(t.a[0], str) and t.a[0].split('::')[-1] in ('LogPeek', 'LogTimestamp')
        return t in self.extra

    def fieldread(self, t):
        if t.op == 'sel':
            return t.a[1] in self.fields
        return t.op == 'phi' and t.a[0].op == 'F' and t.a[0].a[1] in self.fields

    def prime(self, t):
        """what the other run sees: its own value of diagnostic state"""
        if not self.fields:
            return t
        return subst(t, lambda x: T('other', x) if self.fieldread(x) else None)

    def unprime(self, t):
        if not self.fields or any(self.fieldread(x) for x in self.plain(t)):
            return t
        return subst(t, lambda x: x.a[0] if x.op == 'other' else None)

    @staticmethod
    def plain(t):
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st += x
            elif isinstance(x, T) and x.op != 'other':
                yield x
                st += [y for y in x.a if isinstance(y, (T, tuple))]

    def mention(self, t):
        r = self._mention.get(t)
        if r is None:
            r = self._mention[t] = any(self.base(x) for x in walk(t))
        return r

    def noise(self, e):
        """a diagnostic effect"""
        if e.a[0] in ('out', 'log', 'file'):
            return True
        return e.a[0] == 'call' and self.logonly(e.a[1])

    def logonly(self, name):
        """every function of that name only writes logs"""
        n = name.split('::')[-1]
        if n in self.logonly_:
            return self.logonly_[n]
        self.logonly_[n] = False
        fs = [f for f in daemon(self.P).values() if f['n'].split('::')[-1] == n]
        ok = bool(fs)
        for f in fs[:6]:
            try:
                I_, ps = self.c.run(f, self.cfg)
            except Exception:
                ok = False
                break
            for s in ps:
                if s.sig != 'ret' or self.effects(s) or self.stores(s) or (s.val is not None and s.val is not NULL):
                    ok = False
        if len(fs) > 6:
            ok = False
        self.logonly_[n] = ok
        return ok

    def effects(self, s):
        return effs(s, lambda e: e.op != 'e' or not self.noise(e))

    def stores(self, s):
        out = {}
        for l, v in s.store.items():
            if l.op == 'V' or l in self.roots:
                continue
            if v is T('rd', l):
                continue
            if v.op == 'rec':
                fs = tuple((k, x) for k, x in v.a[1] if k not in self.sfields and k not in self.fields and x is not getf(T('rd', l), k))
                if v.a[0] is T('rd', l) and not fs:
                    continue
                v = T('rec', v.a[0], fs)
            out[l] = v
        return out


def compare(c, rule, D, I_, paths, what, at, settle, states=None):
    """paths that differ in diagnostics only have the same outcome"""
    paths = [s for s in paths if s.sig != 'exit']
    obs = []
    hot = False
    for s in paths:
        ef, st = D.effects(s), (D.stores(s) if states is None else states(s))
        ob = (s.sig, s.val, ef, st)
        obs.append(ob)
        if any(D.mention(a) for a in s.facts.lits) or any(D.mention(e) for e in ef) or any(D.mention(v) for v in st.values()) or \
                (s.val is not None and D.mention(s.val)):
            hot = True
    if not hot:
        c.ok(rule, '%s: no outcome depends on a switch' % what)
        return
    n = 0
    if I_.pol.thr_forget:
        for s in paths:
            if s.sig == 'thr' and any(D.mention(a) for a in s.facts.lits):
                c.viol(rule, at, '%s: throws under a diagnostic switch only' % what, s.facts)
                return
    for i, p in enumerate(paths):
        for j, q in enumerate(paths):
            if j < i or I_.pol.thr_forget and 'thr' in (p.sig, q.sig):
                continue
            fp, fq = p.facts, q.facts
            ok = True
            for src, dst in ((p, 'q'), (q, 'p')):
                for a, v in src.facts.lits.items():
                    if D.mention(a):
                        continue
                    cur = fq if dst == 'q' else fp
                    r = cur.decide(a)
                    if r is None:
                        fs = cur.assume(a, v)
                        if not fs:
                            ok = False
                            break
                        cur = fs[0]
                    elif r != v:
                        ok = False
                        break
                    if dst == 'q':
                        fq = cur
                    else:
                        fp = cur
                if not ok:
                    break
            if not ok:
                continue
            n += 1
            try:
                r = pair(D, obs[i], obs[j], fp, fq, settle)
            except (Undecided, Overflow) as e:
                c.undec(rule, '%s: %s' % (what, e))
                continue
            if r is not None:
                msg, fx, ef, sure, fields = r
                if fields:
                    # perhaps state that only diagnostics depend on: the next round looks at its readers
                    for k in fields:
                        D.cand.setdefault(k, what)
                    continue
                if LOSSY in fx.lits or not sure:
                    c.undec(rule, '%s: %s' % (what, msg))
                else:
                    w = at
                    ln = I_.ln.get(ef) if ef is not None else None
                    if ln:
                        w = (ln[0], ln[1], ln[2])
                    c.viol(rule, w, '%s: %s' % (what, msg), fx)
                return
    c.ok(rule, '%s: %d pairs of paths agree' % (what, n))


def pair(D, a, b, fp, fq, settle, limit=4000):
    st = [(fp, fq)]
    n = 0
    while st:
        x, y = st.pop()
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        try:
            r = differ(D, a, b, Side(x, 0), Side(y, 1, D), settle)
        except SideFork as e:
            if D.mention(e.t):
                if e.side == 0:
                    st += [(g, y) for v in (True, False) for g in x.assume(e.t, v)]
                else:
                    st += [(x, h) for v in (True, False) for h in y.assume(e.t, v)]
            else:
                for v in (True, False):
                    gs = [x] if x.decide(e.t) is v else x.assume(e.t, v) if x.decide(e.t) is None else []
                    hs = [y] if y.decide(e.t) is v else y.assume(e.t, v) if y.decide(e.t) is None else []
                    st += [(g, h) for g in gs for h in hs]
            continue
        if r is not None and lin.feasible(x) and lin.feasible(y):
            msg, ef, sure, fields = r
            return msg, x, ef, sure, fields
    return None


def differ(D, a, b, p, q, settle):
    """None, or (what differs, effect, certain?)"""
    def side(o, v):
        if v is None:
            return NULL
        for g in D.rds:
            if any(x is g for x in walk(v)):
                k = C(bool(o(g)))
                v = subst(v, lambda x: k if x is g else None)
        v = settle(v)
        return D.prime(v) if o.side else v

    def eqv(x, y):
        x, y = side(p, x), side(q, y)
        if x is y and not D.mention(x):
            return True
        x, y = p.val(x), q.val(y)
        if x is y:
            return True
        return same(p, x, y)

    def sure(*ts):
        return not any(y.op in ('opq', 'part', 'unreach', 'ambig') for t in ts if t is not None for y in walk(t))
    if a[0] != b[0]:
        return 'whether it returns or throws depends on a diagnostic switch', None, True, ()
    if a[1] is not None or b[1] is not None:
        if not eqv(a[1], b[1]):
            return 'the result depends on a diagnostic switch', None, sure(a[1], b[1]), ()
    ea, eb = list(a[2]), list(b[2])
    for x, y in zip(ea, eb):
        if not eqv(x, y):
            return 'an effect depends on a diagnostic switch: %s' % show(side(q, y))[:120], x if x.op == 'e' else y, sure(x, y), ()
    if len(ea) != len(eb):
        e = (ea + [None] * len(eb))[len(eb)] if len(ea) > len(eb) else eb[len(ea)]
        return 'an effect happens under a diagnostic switch only: %s' % show(e)[:120], e, sure(e), ()
    mine, s1 = [], True
    for l in sorted(set(a[3]) | set(b[3]), key=lambda t: t.id):
        x, y = a[3].get(l, T('rd', l)), b[3].get(l, T('rd', l))
        if l is THIS and all(v.op == 'rd' or v.op == 'rec' and v.a[0].op == 'rd' for v in (x, y)):
            for k in sorted({k for v in (x, y) if v.op == 'rec' for k, _ in v.a[1]}):
                u, v = getf(x, k), getf(y, k)
                if not eqv(u, v):
                    mine.append(k)
                    s1 = s1 and sure(u, v)
        elif not eqv(x, y):
            return '%s depends on a diagnostic switch' % show(l), None, sure(x, y), ()
    if mine:
        return '%s depends on a diagnostic switch' % ', '.join(mine), None, s1, tuple(mine) if s1 else ()
    return None


@check('C40')
def c40(c):
    for cfg in ((0, 1) if c.tier == 'thorough' else (0,)):
        diagnostics(c, cfg)


def diagnostics(c, cfg):
    D = Diag(c, cfg)
    P = D.P
    from .roles import Zone
    Z = Zone(c, cfg)
    I_, ps = c.run('DbusPidZone::setOutputCache', cfg)
    caches = {Z.CACHE} | {k for s in ps for k in changed(s)}
    memo = {}

    def cached(m):
        return any(y.op == 'sel' and y.a[0] is T('rd', THIS) and y.a[1] in caches or
                   y.op in ('phi', 'fold') and any(y.a[0] is tl(k) for k in caches) for y in walk(m))

    def settle(v):
        """every input has its cache entries from initializeCache on (rule cache-entries): looking one up adds none"""
        if not isinstance(v, T):
            return tuple(settle(x) for x in v) if isinstance(v, tuple) else v
        r = memo.get(v)
        if r is None:
            r = rebuild(v, settle)
            if r.op == 'ite':
                g = r.a[0]
                if g.op == 'has' and cached(g.a[0]):
                    r = r.a[1]
                elif r.a[1] is r.a[2]:
                    r = r.a[1]
            elif r.op == 'upd' and cached(r.a[0]) and r.a[2] is getat(r.a[0], r.a[1]):
                r = r.a[0]
            elif r.op == 'mcomp' and cached(r.a[4]):
                dom, g, k, x, old = r.a
                if x.op == 'ite' and x.a[0].op == 'oldhas':
                    x = x.a[1]
                if x.op == 'oldat':
                    r = old
            elif r.op == 'fold' and len(r.a) > 3 and isinstance(r.a[3], tuple) and r.a[3] and len(r.a[3][0]) == 3:
                for loc, step, init in r.a[3]:      # unchanged by the loop
                    if loc is r.a[1] and step.op == 'phi' and step.a[0] is loc:
                        r = init
                        break
            memo[v] = r
        return r

    cache_entries(c, D, Z, caches)
    users = [f for f in daemon(P).values() if mentions(f, lambda n: n.get('k') == 'gvar' and n.get('key') in D.keys)]
    if not users:
        c.undec('independent', 'no function reads a diagnostic switch')
    more = [f for f in daemon(P).values() if f['n'].split('::')[-1] == 'pid' and f['n'].endswith('ec::pid')]
    mark = len(c.obl), len(c.und), len(c.vio), dict(c.rules)
    for rnd in range(6):
        D.cand = {}
        D._mention = {}
        D.logonly_ = {}
        readers = [f for f in daemon(P).values() if D.fields and mentions(f, lambda n: n.get('k') == 'mem' and n.get('f') in D.fields)]
        one_round(c, D, users + more + readers, settle)
        if not D.cand:
            break
        for k, w in D.cand.items():
            D.fields[k] = w
        if rnd < 5:
            del c.obl[mark[0]:], c.und[mark[1]:], c.vio[mark[2]:]
            c.rules = dict(mark[3])
    for k, w in D.fields.items():
        c.ok('diagnostic-state', '%s differs with the switches (%s); nothing else depends on it' % (k, w))


def mentions(f, pred):
    hit = []

    def v(n):
        if pred(n):
            hit.append(n)
    visit(f.get('body') or {}, v)
    visit(f.get('inits') or [], v)
    return bool(hit)


def one_round(c, D, fs, settle):
    done = set()
    for f in fs:
        if f['key'] in done:
            continue
        done.add(f['key'])
        nm = f['n']
        pol = dict(next((v for k, v in POL40.items() if suffix_(nm, k)), {}))
        pol['opaque'] = set(pol.get('opaque', ())) | {'tryRestartControlLoops', 'restartControlLoops', 'pidControlLoop'} - {nm.split('::')[-1]}
        try:
            I_, ps = c.run(f, D.cfg, **pol)
        except Limit as e:
            c.undec('independent', '%s: %s' % (nm, e))
            continue
        pol['opaque'].add(nm.split('::')[-1])
        D.extra = set()
        D._mention = {}
        if nm.split('::')[-1] == 'main':
            main_sources(D, ps)
        at = (f['file'], f['l'], nm)
        compare(c, 'independent', D, I_, ps, nm, at, settle)
        for L in I_.loops:
            loop_compare(c, D, I_, L, settle)
        closures(c, D, I_, f, ps, settle, pol)


def suffix_(n, k):
    return n == k or n.endswith('::' + k)


def main_sources(D, ps):
    """in main the switches are computed: what they are computed from is diagnostic"""
    for s in ps:
        mine = set()
        for l, v in s.store.items():
            if l in D.locs:
                mine |= set(bdd_atoms(v))
        D.extra |= mine
    D._mention = {}


def bdd_atoms(v):
    out = set()
    for x in walk(v):
        if x.op in ('has', 'out', 'isempty', 'get', 'res') and not isinstance(x.a[0], tuple):
            out.add(x)
    return {x for x in out if x.op in ('has', 'isempty') or x.op == 'out'}


def loop_compare(c, D, I_, L, settle):
    if L['dom'] is not None and D.mention(L['dom']):
        return      # goes through diagnostic state; what follows depends on it through the path facts only
    ss = [s for _, s in L['norm']] + list(L.get('exits') or [])
    ss = [x[1] if isinstance(x, tuple) else x for x in ss]
    base = L.get('st')

    def states(s):
        out = D.stores(s)
        # variables of the function that outlive an iteration
        for l, v in s.store.items():
            if l.op == 'V' and l not in D.roots and base is not None and l in base.store and v is not base.store[l]:
                if not (v.op == 'mut' or 'stream' in str(v.a[0] if v.a else '')):
                    out[l] = v
        return out
    w = '%s loop at %s:%s' % (L['fn'], L['file'], L['line'])
    compare(c, 'independent', D, I_, ss, w, (L['file'], L['line'], L['fn']), settle, states)


def closures(c, D, I_, f, ps, settle, pol, depth=2):
    seen = set()
    todo = []

    def collect(s):
        for e in s.eff:
            for x in walk(e):
                if x.op == 'clo' and x.a[0] in I_.lams and x.a[0] not in seen:
                    seen.add(x.a[0])
                    todo.append(x)
    for s in ps:
        collect(s)
    while todo and depth:
        depth -= 1
        now, todo = todo, []
        for cl in now:
            node, _ = I_.lams[cl.a[0]]
            args = [T('sym', 'carg%d' % i) for i in range(len(node.get('params') or ()))]
            n0 = len(I_.loops)
            try:
                qs = c.run_clo(I_, cl, args, **pol)
            except Limit as e:
                c.undec('independent', 'callback of %s: %s' % (f['n'], e))
                continue
            w = 'callback of %s at line %s' % (f['n'], node.get('l'))
            compare(c, 'independent', D, I_, qs, w, (node.get('file') or f['file'], node.get('l'), f['n']), settle)
            for L in I_.loops[n0:]:
                loop_compare(c, D, I_, L, settle)
            for s in qs:
                collect(s)


def cache_entries(c, D, Z, caches):
    """initialising the cache gives every input its entries"""
    I_, ps = c.run('DbusPidZone::initializeCache', D.cfg)
    for field, want in (('FAN', caches), ('TH', {Z.CACHE})):
        Ls = [L for L in I_.loops if L['dom'] is not None and L['dom'].a[1] is Z.v(field)]
        if not Ls:
            c.undec('cache-entries', 'no loop over the %s inputs' % field)
            continue
        got = set()
        for L in Ls:
            el = T('el', L['dom'])
            for k in want:
                if L['norm'] and all(has(getf(s.store.get(THIS, T('rd', THIS)), k), el) is TRUE or
                                     s.facts.decide(has(getf(s.store.get(THIS, T('rd', THIS)), k), el)) is True for _, s in L['norm']):
                    got.add(k)
        for k in sorted(want):
            if k in got:
                c.ok('cache-entries', '%s has an entry for every element of %s' % (k, show(Z.v(field))))
            else:
                c.undec('cache-entries', '%s may lack an entry for an element of %s' % (k, show(Z.v(field))))
