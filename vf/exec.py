"""Statements and loops.

A loop is analysed once over a generic element of its domain: the set of
locations it modifies is found by iterating the body to a fixed point with
those locations replaced by phi values, and the resulting transfer functions
are summarised as folds.  Early exits become a search for the first element
that satisfies the exit condition."""
from .calls import *
from .calls import Calls as Base

EXC = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
       'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
       'std::system_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
       'sdbusplus::exception::exception': 'std::exception',
       'sdbusplus::exception::SdBusError': 'sdbusplus::exception::exception',
       'nlohmann::detail::exception': 'std::exception', 'std::bad_function_call': 'std::exception',
       'std::bad_variant_access': 'std::exception', 'std::filesystem::filesystem_error': 'std::system_error'}


class NoDom(Exception):
    pass


def _poly_of(t):
    if t.op == 'poly':
        return t.a[0]
    return (((((t, 1),), 1)),)


def mkmcomp(dom, g, ks, val, v0):
    """updates at every key; index updates of a list built elementwise stay a list"""
    if v0.op == 'comp' and v0.a[1] is TRUE and v0.a[3].op == 'empty' and len(v0.a) == 4 and dom.a[0] in ('seq', 'range') and \
            not (dom.a[0] == 'seq' and ks is not T('ix', dom)) and not (dom.a[0] == 'range' and ks is not T('el', dom)):
        D = v0.a[0]
        if D.a[0] == 'seq' and (dom.a[0] == 'seq' or dom.a[1].a[0] is ZERO):
            nd = T('dom', 'seq', D.a[1], dom.a[2])
            ix = T('ix', nd)
            old = el_subst_ix(v0.a[2], D, T('el', nd), ix)
            if dom.a[0] == 'seq':
                inr = TRUE if dom.a[1] is D.a[1] else lt(ix, size(dom.a[1]))
                x = T('el', nd) if dom.a[1] is D.a[1] else getat(dom.a[1], ix)
                f = lambda t: el_subst_ix(t, dom, x, ix)
            else:
                inr = lt(ix, dom.a[1].a[1])
                f = lambda t: el_subst_ix(t, dom, ix, ix)
            g2, v2 = f(g), f(val)
            v2 = subst(v2, lambda y: old if y is T('oldat', dom) else (TRUE if y is T('oldhas', dom) else None))
            return T('comp', nd, TRUE, bdd(ite(land_(inr, g2), v2, old)), T('empty'))
    if dom.a[0] == 'map' and ks is T('sel', T('el', dom), 'first') or dom.a[0] == 'seq' and ks is T('ix', dom):
        # every key is visited once: the old entry is that of the initial map
        oh, oa = T('oldhas', dom), T('oldat', dom)
        if occurs(oh, val) or occurs(oa, val):
            val = subst(val, lambda y: has(v0, ks) if y is oh else None)
            val = bdd(val)
            if occurs(oa, val) and v0.op != 'empty':
                a0 = getat(v0, ks)
                val = bdd(subst(val, lambda y: a0 if y is oa else None))
    return T('mcomp', dom, g, ks, val, v0)


def land_(a, b):
    return ite(a, b, FALSE)


def el_subst_ix(t, dom, x, i):
    el, ix = T('el', dom), T('ix', dom)

    def f(y):
        if y is el:
            return x
        if y is ix:
            return i
        if y.op in BIND and y.a and y.a[0] is dom:
            return y
        return None
    return subst(t, f)


def mkfirst(dom, g):
    h = mkany(dom, g)
    if h.op == 'has':
        c, x = h.a
        if dom.a[0] == 'map':
            return pair(x, getat(c, x))
        return x
    return T('first', dom, g)


class Exec(Base):
    # ------------------------------------------------------------ statements
    def block(self, b, st, fr):
        return self.stmt(b, st, fr)

    def seq(self, xs, st, fr):
        cur, done = [st], []
        for x in xs:
            if x is None:
                continue
            nxt = []
            for s in cur:
                for r in self.stmt(x, s, fr):
                    (done if r.sig else nxt).append(r)
            cur = self.merge(nxt)
            if not cur:
                break
        return cur + done

    def scope(self, xs, st, fr):
        """statement list that opens a scope"""
        outs = self.seq(xs, st, fr)
        ids, guards = set(), False
        for x in xs:
            if x and x.get('k') == 'decls':
                for d in x['b']:
                    if d.get('id') is not None:
                        ids.add(d['id'])
                    for b in d.get('bs') or ():
                        ids.add(b['id'])
                    if any(g in (d.get('t') or '') for g in LOCKS):
                        guards = True
        if not ids:
            return self.merge(outs) if len(outs) > 1 else outs
        res = []
        for s in outs:
            if guards:
                for k, v in list(s.store.items()):
                    if k.op == 'V' and k.a[2] in ids and k.a[1] == fr.depth and v.op == 'lockguard':
                        s = self.unlock(s, fr, xs[-1], v)
            s = s.cp()
            s.store = {k: v for k, v in s.store.items()
                       if not (k.op == 'V' and k.a[1] == fr.depth and k.a[2] in ids)}
            res.append(s)
        return self.merge(res)

    def stmt(self, x, st, fr):
        if x is None:
            return [st]
        k = x['k']
        if k == '#py':
            return x['f'](st, fr)
        if k == 'blk':
            return self.scope(x['b'], st, fr)
        if k == 'ex':
            rs = self.mergev(self.ev(x['e'], st, fr))
            y = x['e']
            while y and y.get('k') == 'cast':
                y = y.get('e')
            if y and y.get('k') == 'ctor' and (y.get('cls') or y.get('oc') or y.get('t') or '').split('<')[0].split('::')[-1] in LOCKS:
                # a guard that is only a temporary is released at the end of the statement
                return [s if s.sig or v is None else self.unlock(s, fr, x, v) for s, v in rs]
            return [s for s, v in rs]
        if k == 'decls':
            cur = [st]
            for d in x['b']:
                cur = [r for s in cur for r in ([s] if s.sig else self.decl(d, s, fr))]
            return self.merge(cur)
        if k == 'if':
            pre = [p for p in (x.get('init'), x.get('cv')) if p]
            if pre:
                return self.scope(pre + [{'k': 'if', 'c': x['c'], 'th': x['th'], 'el': x.get('el'), 'l': x.get('l')}], st, fr)
            out = []
            for s, b in self.branch(x['c'], st, fr):
                if s.sig:
                    out.append(s)
                elif b:
                    out += self.stmt(x['th'], s, fr)
                else:
                    out += self.stmt(x.get('el'), s, fr)
            return self.merge(out)
        if k == 'ret':
            if not x.get('e'):
                return [st.signal('ret', NULL)]
            if fr.retref:
                return [s if s.sig else s.signal('ret', T('retref', l)) for s, l in self.lv(x['e'], st, fr)]
            return [s if s.sig else s.signal('ret', v) for s, v in self.ev(x['e'], st, fr)]
        if k == 'break':
            return [st.signal('brk')]
        if k == 'cont':
            return [st.signal('cont')]
        if k == 'try':
            return self.tryst(x, st, fr)
        if k == 'rfor':
            if x.get('init'):
                y = dict(x)
                y.pop('init')
                return self.scope([x['init'], y], st, fr)
            return self.rfor(x, st, fr)
        if k == 'for':
            if x.get('init'):
                y = dict(x)
                y.pop('init')
                return self.scope([x['init'], self.memo(x, y)], st, fr)
            return self.cloop(x, st, fr)
        if k in ('while', 'do'):
            return self.cloop(x, st, fr)
        if k == 'switch':
            pre = [p for p in (x.get('init'), x.get('cv')) if p]
            if pre:
                y = {'k': 'switch', 'c': x['c'], 'b': x['b'], 'l': x.get('l')}
                return self.scope(pre + [y], st, fr)
            return self.switch(x, st, fr)
        if k in ('case', 'default'):
            return self.stmt(x.get('s'), st, fr)
        if k == 'opqs' and x.get('s'):
            return self.stmt(x['s'], st, fr)
        # an expression used as a statement
        if 'cls' in x and k == 'opqs':
            self.opq('stmt ' + x['cls'], x, fr)
            return [st]
        return [s for s, v in self.ev(x, st, fr)]

    def memo(self, x, y):
        m = self.__dict__.setdefault('_memo', {})
        k = id(x)
        if k not in m:
            m[k] = (x, y)
        return m[k][1]

    def decl(self, d, st, fr):
        k = d['k']
        if k == 'sdecl':
            return [st]
        l = T('V', d['n'] or '#d', fr.depth, d['id'])
        fr.env.pop(d['id'], None)
        if k == 'decomp':
            out = []
            for s, el in self.lv(d['init'], st, fr):
                if s.sig:
                    out.append(s)
                    continue
                if not d.get('ref'):
                    s = s.setroot(l, self._ld(s, el))
                    el = l
                out.append(self.bind_decomp(d, el, s, fr))
            return out
        if d.get('init') is None:
            if is_arith(d['t']) or base_t(d['t']).endswith('*') or '(*)' in d['t'] or d.get('arr'):
                return [st.setroot(l, T('uninit', d['n']))]
            return [st.setroot(l, self.default(d['t']))]
        out = []
        if d.get('ref'):
            for s, x in self.lv(d['init'], st, fr):
                out.append(s if s.sig else s.setroot(l, T('ref', x)))
            return out
        for s, v in self.mergev(self.ev(d['init'], st, fr)):
            out.append(s if s.sig else s.setroot(l, v))
        return out

    def bind_decomp(self, d, el, s, fr):
        t = base_t(d.get('t'))
        for b in d['bs']:
            fr.env.pop(b['id'], None)
            f = b.get('f')
            if not f:
                f = 'get%d' % b['i'] if t.startswith('std::tuple') else ('first', 'second')[b['i']] if b['i'] < 2 else 'get%d' % b['i']
            s = s.setroot(T('V', b['n'], fr.depth, b['id']), T('ref', F(el, f)))
        return s

    # ------------------------------------------------------------ exceptions
    def derives(self, t, h):
        if h == 'sdbusplus::exception_t':
            h = 'sdbusplus::exception::exception'
        if t == 'sdbusplus::exception_t':
            t = 'sdbusplus::exception::exception'
        seen = set()
        w = [t]
        while w:
            x = w.pop()
            if x == h:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in EXC:
                w.append(EXC[x])
            r = self.P.recname.get(x)
            if r:
                w += r['bases']
            if x.startswith('nlohmann'):
                w.append('nlohmann::detail::exception' if 'detail::exception' not in x else 'std::exception')
        return False

    def tryst(self, x, st, fr):
        self.tryd += 1
        try:
            outs = self.stmt(x['b'], st, fr)
        finally:
            self.tryd -= 1
        res = []
        for s in outs:
            if s.sig != 'thr':
                res.append(s)
                continue
            cur = [s]
            exc = s.val
            t = exc.a[0] if exc.op == 'exc' else '?'
            for h in x['cs']:
                nxt = []
                for c in cur:
                    ht = base_t(h['t'])
                    if h['t'] == '...' or self.derives(t, ht) or (t == '?' and ht == 'std::exception'):
                        res += self.handler(h, c, exc, fr)
                    elif t in ('?',) or self.derives(ht, t):
                        for f, b in c.facts.fork(T('exct', exc, C(ht))):
                            c2 = c.withf(f)
                            if b:
                                res += self.handler(h, c2, exc, fr)
                            else:
                                nxt.append(c2)
                    else:
                        nxt.append(c)
                cur = nxt
            res += cur
        return self.merge(res)

    def handler(self, h, s, exc, fr):
        s = s.signal(None)
        old = fr.env.get('#exc')
        fr.env['#exc'] = exc
        if h.get('id') is not None:
            s = s.setroot(T('V', h.get('n') or '#e', fr.depth, h['id']), T('excv', exc))
        try:
            return self.stmt(h['b'], s, fr)
        finally:
            fr.env['#exc'] = old

    # ------------------------------------------------------------ switch
    def switch(self, x, st, fr):
        items = []      # (label list, stmt)
        def flat(n):
            if n is None:
                return
            if n['k'] in ('case', 'default'):
                labs = []
                while n is not None and n['k'] in ('case', 'default'):
                    labs.append(n.get('v') if n['k'] == 'case' else 'default')
                    n = n.get('s')
                items.append((labs, n))
            else:
                items.append(([], n))
        for n in (x['b']['b'] if x['b']['k'] == 'blk' else [x['b']]):
            flat(n)
        out = []
        for s, v in self.ev(x['c'], st, fr):
            if s.sig:
                out.append(s)
                continue
            rest = [s]
            starts = []
            dflt = None
            for i, (labs, n) in enumerate(items):
                for lb in labs:
                    if lb == 'default':
                        dflt = i
                        continue
                    nr = []
                    for r in rest:
                        for r2, c in self.ev(lb, r, fr):
                            for f, b in r2.facts.fork(self.equal(v, c)):
                                r3 = r2.withf(f)
                                if b:
                                    starts.append((i, r3))
                                else:
                                    nr.append(r3)
                    rest = nr
            if dflt is not None:
                starts += [(dflt, r) for r in rest]
            else:
                out += rest
            for i, r in starts:
                for o in self.seq([n for _, n in items[i:]], r, fr):
                    out.append(o.signal(None) if o.sig == 'brk' else o)
        return self.merge(out)

    # ------------------------------------------------------------ loops
    def rfor(self, x, st, fr):
        out = []
        for s, cl in self.lv(x['r'], st, fr):
            if s.sig:
                out.append(s)
                continue
            c = self._ld(s, cl)
            for s2, c2 in self.split_c(s, c):
                out += self.rfor1(x, cl, c2, s2, fr)
        return self.merge(out)

    def split_c(self, s, c):
        if c.op == 'ite':
            out = []
            for f, b in s.facts.fork(c.a[0]):
                out += self.split_c(s.withf(f), c.a[1] if b else c.a[2])
            return out
        return [(s, c)]

    def rfor1(self, x, cl, c, s, fr):
        v = x['v']
        mutref = v.get('ref') and not (v.get('t') or '').startswith('const ')
        if c.op == 'empty':
            return [s]
        xs = None
        if c.op == 'arrv' and len(c.a[0]) <= 8:
            xs = list(c.a[0])
        elif c.op == 'push':
            b, n = c, []
            while b.op == 'push' and len(n) <= 8:
                n.append(b.a[1])
                b = b.a[0]
            if b.op == 'empty':
                xs = n[::-1]
        if xs is not None and not is_map(x.get('rt')):
            cur, done = [s], []
            for i, e in enumerate(xs):
                nxt = []
                for q in cur:
                    loc = I(cl, C(i)) if mutref and c.op == 'arrv' else T('val', e)
                    q = self.bind_el(v, loc, q, fr)
                    for r in self.stmt(x['b'], q, fr):
                        r = self.unbind_el(v, r, fr)
                        if r.sig == 'brk':
                            done.append(r.signal(None))
                        elif r.sig and r.sig != 'cont':
                            done.append(r)
                        else:
                            nxt.append(r.signal(None) if r.sig else r)
                cur = self.merge(nxt)
            return self.merge(cur + done)
        kind = 'map' if is_map(x.get('rt')) else 'seq'
        self.loopd += 1
        try:
            dom = T('dom', kind, c, self.loopd)
            dom0 = dom
            dom, el, g0 = self.fuse(dom)
            keep = el.op == 'el'
            if mutref and not keep:
                if g0 is TRUE and cl.op != 'val':
                    keep = True
                    loc = I(cl, T('ix', dom))
                else:
                    dom, el, g0, keep = dom0, T('el', dom0), TRUE, True
                    loc = I(cl, T('ix', dom))
            elif el.op == 'el':
                if kind == 'map':
                    loc = T('P', cl, T('sel', el, 'first')) if mutref else T('val', el)
                else:
                    loc = I(cl, T('ix', dom)) if mutref else T('val', el)
            else:
                loc = T('val', el)
            return self.domloop(x, dom, g0, cl if keep else None, c,
                                lambda q: self.bind_el(v, loc, q, fr),
                                lambda q: self.stmt(x['b'], q, fr),
                                lambda q: self.unbind_el(v, q, fr), s, fr)
        finally:
            self.loopd -= 1

    def bind_el(self, v, loc, s, fr):
        l = T('V', v['n'] or '#d', fr.depth, v['id'])
        fr.env.pop(v['id'], None)
        if v['k'] == 'decomp':
            if not v.get('ref'):
                s = s.setroot(l, self._ld(s, loc))
                loc = l
            return self.bind_decomp(v, loc, s, fr)
        if v.get('ref'):
            return s.setroot(l, T('ref', loc))
        x = self._ld(s, loc)
        return s.setroot(l, x)

    def unbind_el(self, v, s, fr):
        ids = {v['id']} | {b['id'] for b in v.get('bs') or ()}
        s = s.cp()
        s.store = {k: y for k, y in s.store.items() if not (k.op == 'V' and k.a[1] == fr.depth and k.a[2] in ids)}
        return s

    def diff(self, l, old, new, out, dom, cl):
        if old is new:
            return
        if cl is not None and l is cl and new.op in ('upd', 'ite'):
            ks = (T('ix', dom), T('sel', T('el', dom), 'first'))
            if all(v is old or v.op == 'upd' and v.a[0] is old and v.a[1] in ks for _, v in cases(new)):
                return          # element-wise update of the domain itself
        if new.op == 'rec' or old.op == 'rec':
            bo = old.a[0] if old.op == 'rec' else old
            bn = new.a[0] if new.op == 'rec' else new
            if bo is bn:
                fs = {k for k, _ in (old.a[1] if old.op == 'rec' else ())} | \
                     {k for k, _ in (new.a[1] if new.op == 'rec' else ())}
                for f in sorted(fs):
                    self.diff(T('F', l, f), getf(old, f), getf(new, f), out, dom, cl)
                return
        out.add(l)

    def modified(self, st, outs, dom, cl):
        m = set()
        for o in outs:
            for k, v in o.store.items():
                if k.op == 'V' and (k.a[0].startswith('#') and k.a[0] not in ('#j', '#obj') or k not in st.store):
                    continue
                if k.op == 'D' and k.a[0].op == 'new' and k not in st.store:
                    continue
                self.diff(k, st.store.get(k, T('rd', k)), v, m, dom, cl)
        # a field is covered by an enclosing modified location
        return {l for l in m if not any(p in m for p in self.parents(l))}

    def parents(self, l):
        out = []
        while l.op in ('F', 'I'):
            l = l.a[0]
            out.append(l)
        return out

    def domloop(self, x, dom, g0, cl, c, bind, body, unbind, st, fr, ivar=None):
        el = T('el', dom)
        d = self.loopd
        base = st
        if g0 is not TRUE:
            fs = st.facts.assume(g0, True)
            if not fs:
                return [st]
            if len(fs) > 1:
                # keep the filter as one opaque-but-exact condition
                fs = [st.facts]
            gl = g0
            start = st.withf(fs[0])
        else:
            start, gl = st, TRUE
        M = set()
        mark = len(self.bounds)
        for it in range(8):
            del self.bounds[mark:]
            s = start.cp()
            s.eff = ()
            for l in sorted(M, key=lambda t: t.id):
                s = s.put(l, T('phi', l, d))
            s = bind(s)
            entry = s
            outs = [unbind(o) for o in body(s)]
            N0 = unbind(entry)
            m = self.modified(N0, outs, dom, cl)
            if ivar is not None:
                m.discard(ivar)
            if m <= M:
                break
            # widening within a container modified at several keys: whole container
            M |= m
            M = {l for l in M if not any(p in M for p in self.parents(l))}
        else:
            return [self.havoc(st, M, x, fr)]
        norm, exits = [], []
        for o in outs:
            lits = {a: b for a, b in o.facts.lits.items() if base.facts.lits.get(a) is None}
            (norm if o.sig in (None, 'cont') else exits).append((lits, o))
        if exits:
            q = self.idle_breaks(dom, entry, exits, unbind, norm)
            if q:
                # nothing happens from the first such element on: it is a filter
                norm += [(l, o.signal(None)) for l, o in exits]
                exits = []
        info = {'node': x, 'dom': dom, 'norm': norm, 'exits': exits, 'M': M, 'entry': entry, 'file': fr.file,
                'line': x.get('l'), 'fn': fr.fn.get('n'), 'st': st}
        self.loops.append(info)
        if len(self.loops) > 4000:
            del self.loops[:2000]

        def guard_of(ps):
            g = dtree([(l, C(any(o is q for _, q in ps))) for l, o in norm + exits]) if ps else FALSE
            g = bdd(g)
            return bdd(ite(gl, g, FALSE)) if gl is not TRUE else g
        gX = guard_of(exits)
        phis = {T('phi', l, d): l for l in M}
        hasphi = lambda t: any(occurs(p, t) for p in phis)
        if hasphi(gX):
            # exit condition carried by the loop
            r = self.carried_exit(x, dom, norm, exits, M, phis, gl, st, fr, c)
            if r is not None:
                return r
            return self.loop_opaque(x, M, exits, phis, st, fr, 'loop-carried exit condition')
        init = {l: st.load(l) for l in M}
        out = []
        full = self.folds(dom, norm, gl, M, phis, init, gX, None, fr, x, d)
        until = self.folds(dom, norm, gl, M, phis, init, gX, gX, fr, x, d) if exits else None
        effs = self.loop_effs(dom, norm, gl, gX, phis, full)
        for f, b in st.facts.fork(mkany(dom, gX)):
            s0 = st.withf(f)
            if not b:
                s = s0
                for l in sorted(M, key=lambda t: t.id):
                    s = s.put(l, full[l])
                s = self.carry_new(s, st, norm, dom)
                s = self.el_update(s, st, norm, dom, cl, c, exits)
                if effs is not None:
                    s = s.add(effs)
                    self.ln.setdefault(effs, (fr.file, x.get('l'), fr.fn.get('n', '?')))
                if ivar is not None:
                    s = s.put(ivar, T('part', 'loop end'))
                s.cnt = self.maxcnt([o for _, o in norm], st)
                out.append(s)
                continue
            w = mkfirst(dom, gX)
            common = None
            for l, o in exits:
                it = set(l.items())
                common = it if common is None else common & it
            ueffs = self.loop_effs(dom, norm, gl, gX, phis, until, gX)
            for l, o in exits:
                fs = [s0.facts]
                for a, bb in l.items():
                    if (a, bb) in common:
                        continue
                    a2 = self.inst(a, dom, w, phis, until)
                    fs = [y for z in fs for y in z.assume(a2, bb)]
                for ff in fs:
                    s = s0.withf(ff)
                    if ueffs is not None:
                        s = s.add(ueffs)
                        self.ln.setdefault(ueffs, (fr.file, x.get('l'), fr.fn.get('n', '?')))
                    for k in sorted(set(o.store) | set(st.store), key=lambda t: t.id):
                        if k not in o.store:
                            continue
                        if k.op == 'V' and k not in st.store:
                            continue
                        nv = o.store[k]
                        if nv is st.store.get(k):
                            continue
                        s = s.setroot(k, self.inst(nv, dom, w, phis, until))
                    if ivar is not None:
                        s = s.put(ivar, T('ixof', w) if dom.a[0] == 'seq' else w)
                    for e in o.eff:
                        e2 = self.inst(e, dom, w, phis, until)
                        if e in self.ln:
                            self.ln.setdefault(e2, self.ln[e])
                        s = s.add(e2)
                    s.cnt = o.cnt
                    if o.sig == 'brk':
                        s = s.signal(None)
                    else:
                        v2 = self.inst(o.val, dom, w, phis, until) if o.val is not None else None
                        if o.val in self.ln:
                            self.ln.setdefault(v2, self.ln[o.val])
                        s = s.signal(o.sig, v2)
                    out.append(s)
        return self.merge(out)

    def idle_breaks(self, dom, entry, exits, unbind, norm):
        if dom.a[0] == 'map' or any(o.sig != 'brk' or o.eff for _, o in exits):
            return False
        e0 = unbind(entry)
        for _, o in exits:
            if any(o.store.get(k) is not v for k, v in e0.store.items()):
                return False
        g = bdd(dtree([(l, C(any(o is q for _, q in exits))) for l, o in norm + exits]))
        pos = T('ix', dom) if dom.a[0] == 'seq' else T('el', dom)
        neg = False
        if g.op == 'ite' and g.a[1] is FALSE and g.a[2] is TRUE or g.op == 'not':
            g, neg = g.a[0], True
        if g.op not in ('lt', 'gt'):
            return False
        d = dict(_poly_of(g.a[0]))
        m = ((pos, 1),)
        c = d.pop(m, 0)
        if not c or any(x in (T('ix', dom), T('el', dom)) or x.op == 'phi' for mm in d for b, _ in mm for x in walk(b)):
            return False
        up = (g.op == 'gt') == (c > 0)
        return up != neg

    def maxcnt(self, os, st):
        c = dict(st.cnt)
        for o in os:
            for k, v in o.cnt.items():
                c[k] = max(c.get(k, 0), v)
        return c

    def inst(self, t, dom, w, phis, vals):
        if phis:
            t = substd(t, {p: vals[k] for p, k in phis.items() if k in vals})
        t = el_subst(t, dom, w)
        return t

    def carry_new(self, s, st, norm, dom):
        ks = {}
        for l, o in norm:
            for k, v in o.store.items():
                if k.op == 'D' and k not in st.store and k.a[0].op == 'new':
                    ks.setdefault(k, []).append((l, v))
        for k, ps in ks.items():
            s = s.setroot(k, ps[0][1] if all(v is ps[0][1] for _, v in ps) else dtree(ps))
        return s

    def el_update(self, s, st, norm, dom, cl, c, exits):
        """element-wise update of the iterated container"""
        if cl is None:
            return s
        ps, ch = [], False
        for l, o in norm:
            for cs, nv in cases(o.load(cl)):
                l2 = {**l, **dict(cs)}
                if nv is c:
                    ps.append((l2, getat(c, T('ix', dom)) if dom.a[0] == 'seq' else T('el', dom)))
                elif nv.op == 'upd' and nv.a[0] is c:
                    ch = True
                    x = nv.a[2]
                    ps.append((l2, x if dom.a[0] == 'seq' else pair(nv.a[1], x)))
                else:
                    return s
        if not ch or cl.op == 'val':
            return s
        if dom.a[0] == 'seq':
            return s.put(cl, self.comp(dom, TRUE, bdd(dtree(ps)), T('empty')))
        return s.put(cl, T('mapl', dom, bdd(dtree(ps))))

    def loop_effs(self, dom, norm, gl, gX, phis, vals, until=None):
        if not any(o.eff for _, o in norm):
            return None
        t = dtree([(l, T('effs', o.eff)) for l, o in norm])
        if gl is not TRUE:
            t = ite(gl, t, T('effs', ()))
        return T('foreach', dom, t) if until is None else T('foreach', dom, t, until)

    def folds(self, dom, norm, gl, M, phis, init, gX, until, fr, x, d):
        """closed value of every modified location after the loop"""
        trees = {}
        for l in M:
            t = dtree([(li, o.load(l)) for li, o in norm]) if norm else T('phi', l, d)
            if gl is not TRUE:
                t = ite(gl, t, T('phi', l, d))
            # on the paths that reach the end no element satisfies the exit condition
            trees[l] = t
        vals = {}
        todo = list(M)
        for l in todo:
            ph = T('phi', l, d)
            others = [p for p in phis if p is not ph]
            t = trees[l]
            if any(occurs(p, t) for p in others):
                # coupled phis: try with those that never change removed
                vals[l] = None
                continue
            vals[l] = self.fold1(dom, ph, t, init[l], until, gX)
        # first-iteration flags and other couplings
        for l in todo:
            if vals[l] is None:
                vals[l] = self.coupled(dom, l, trees, phis, init, vals, until, d)
            if vals[l] is None:
                self.opqs['fold@%s:%s %s' % (fr.file, x.get('l'), show(l))] = 1
                ts = tuple((m, bdd(trees[m]), init[m]) for m in sorted(M, key=lambda t: t.id)
                           if m is l or occurs(T('phi', m, d), trees[l]))
                vals[l] = T('fold', dom, l, d, ts) if until is None else T('fold', dom, l, d, ts, until)
        return vals

    def coupled(self, dom, l, trees, phis, init, vals, until, d):
        """value guarded by a companion 'seen one already' flag: equivalent to
        the fold that starts from the first element"""
        ph = T('phi', l, d)
        t = trees[l]
        for q, m in phis.items():
            if q is ph or not occurs(q, t):
                continue
            if any(occurs(p, t) for p in phis if p is not ph and p is not q):
                continue
            if not is_c(init[m]) or init[m] not in (TRUE, FALSE):
                continue
            tm = trees[m]
            # flag m goes from init to !init exactly when l is taken
            first = subst(t, lambda y: init[m] if y is q else None)
            later = subst(t, lambda y: lnot(init[m]) if y is q else None)
            flag_first = subst(tm, lambda y: init[m] if y is q else None)
            flag_later = subst(tm, lambda y: lnot(init[m]) if y is q else None)
            if any(occurs(p, first) or occurs(p, later) for p in phis if p is not ph):
                continue
            if occurs(ph, bdd(flag_first)) or bdd(flag_later) is not lnot(init[m]):
                continue
            g = bdd(flag_first if init[m] is FALSE else lnot(flag_first))
            fv = bdd(first)
            # while the flag is unset the value follows 'first'
            r = self.extreme(dom, ph, later, None)
            if r is not None:
                kind, g2, f = r
                if bdd(g2) is g and bdd(ite(g, f, ph)) is fv and until is None:
                    return ite(mkany(dom, g), ext(dom, kind, g, f), init[l])
        return None

    def fold1(self, dom, ph, t, v0, until, gX):
        t = bdd(t)
        if t is ph:
            return v0
        u = until if until is not None else None
        leaves = cases(t)
        inphi = lambda y: occurs(ph, y)
        # guards that mention phi
        gphi = any(inphi(a) for cs, _ in leaves for a, _ in cs)
        elops = {T('el', dom), T('ix', dom)}
        dep = lambda y: any(occurs(z, y) for z in elops)
        if gphi:
            if ph.op == 'phi' and all(v in (TRUE, FALSE, ph) or v.op in BOOLOPS for _, v in leaves):
                # boolean flag
                a = bdd(substd(t, {ph: TRUE}))
                b = bdd(substd(t, {ph: FALSE}))
                if not inphi(a) and not inphi(b):
                    if a is TRUE:
                        return self.anyu(dom, b, TRUE, v0, u)
                    if b is FALSE:
                        return self.anyu(dom, lnot(a), FALSE, v0, u)
            r = self.extreme(dom, ph, t, None)
            if r is not None:
                return red(dom, r[0], r[1], r[2], v0, u)
            return self.optbest(dom, ph, t, v0) if u is None else None
        g = bdd(dtree([(dict(cs), C(v is not ph)) for cs, v in leaves]))
        vs = {v for _, v in leaves if v is not ph}
        if not any(inphi(v) for v in vs):
            val = dtree([(dict(cs), v) for cs, v in leaves if v is not ph])
            if not dep(val) and val.op != 'ite':
                return self.anyu(dom, g, val, v0, u)
            return self.last(dom, g, val, v0, u)
        # additive
        try:
            dl = [(dict(cs), sub(v, ph)) for cs, v in leaves]
            if all(not inphi(v) for _, v in dl) and all(v.op not in ('push', 'upd', 'cat', 'comp') for _, v in leaves) \
                    and self.numeric(leaves, ph):
                val = bdd(dtree(dl))
                g2 = bdd(dtree([(c, C(v is not ZERO)) for c, v in dl]))
                val = bdd(dtree([(c, v) for c, v in dl if v is not ZERO]))
                return red(dom, 'sum', g2, val, v0, u)
        except Exception:
            raise
        nonp = [(dict(cs), v) for cs, v in leaves if v is not ph]
        if all(v.op == 'push' and v.a[0] is ph and not inphi(v.a[1]) for _, v in nonp):
            val = bdd(dtree([(c, v.a[1]) for c, v in nonp]))
            if u is not None:
                return T('comp', dom, g, val, v0, u)
            return self.comp(dom, g, val, v0)
        if all(v.op == 'upd' and v.a[0] is ph and not inphi(v.a[1]) for _, v in nonp):
            ks = bdd(dtree([(c, v.a[1]) for c, v in nonp]))
            # x may read the old entry at the same key (insert-if-absent)
            val = bdd(dtree([(c, v.a[2]) for c, v in nonp]))
            ih = T('has', ph, ks)
            if inphi(val):
                val2 = subst(val, lambda y: T('oldat', dom) if y is T('at', ph, ks) else
                             (T('oldhas', dom) if y is ih else None))
                if inphi(val2):
                    return None
                return mkmcomp(dom, g, ks, val2, v0) if u is None else None
            return mkmcomp(dom, g, ks, val, v0) if u is None else None
        if all(v.op == 'cat' and v.a[0] is ph and not any(inphi(y) for y in v.a[1:]) for _, v in nonp):
            val = bdd(dtree([(c, cat(*v.a[1:])) for c, v in nonp]))
            r = T('catl', dom, g, val) if u is None else T('catl', dom, g, val, u)
            return cat(v0, r)
        # several appends per iteration
        chain = []
        for c, v in nonp:
            xs = []
            while v.op == 'push':
                xs.append(v.a[1])
                v = v.a[0]
            if v is not ph or any(inphi(y) for y in xs):
                return None
            chain.append((c, T('seqv', tuple(xs[::-1]))))
        return T('compn', dom, g, bdd(dtree(chain)), v0) if u is None else None

    def numeric(self, leaves, ph):
        for _, v in leaves:
            if v is ph:
                continue
            if v.op == 'poly' and any(m == ((ph, 1),) and c == 1 for m, c in v.a[0]):
                continue
            return False
        return True

    def comp(self, dom, g, val, v0):
        if g is TRUE and val is T('el', dom) and v0.op == 'empty' and dom.a[0] == 'seq':
            return dom.a[1]
        return T('comp', dom, g, val, v0)

    def anyu(self, dom, g, val, v0, until):
        if until is None:
            return ite(mkany(dom, g), val, v0)
        return ite(T('anyu', dom, g, until), val, v0)

    def last(self, dom, g, val, v0, until):
        w = T('lastel', dom, g) if until is None else T('lastel', dom, g, until)
        a = mkany(dom, g) if until is None else T('anyu', dom, g, until)
        return ite(a, el_subst(val, dom, w), v0)

    def extreme(self, dom, ph, t, _):
        """t == ite(g && ph < f, f, ph) -> ('max', g, f)"""
        t = bdd(t, key=lambda a: (occurs(ph, a), a.id))
        r = self.ext1(ph, t)
        if r is None or r[0] is None:
            return None
        return r[0], bdd(r[1]), bdd(r[2])

    def optbest(self, dom, ph, t, v0):
        """a std::optional that holds the best element met so far"""
        if v0 is not NULL:
            return None
        q, none = T('sel', ph, '#opt'), T('isnull', ph)

        def tr(x, empty):
            if x.op == 'ite':
                c = subst(x.a[0], lambda y: C(empty) if y is none else None)
                a, b = tr(x.a[1], empty), tr(x.a[2], empty)
                return a if c is TRUE else b if c is FALSE else None if a is None or b is None else ite(c, a, b)
            if x is ph:
                return NULL if empty else q
            if x.op == 'some':
                return x if empty else x.a[0]
            return None
        first, later = tr(t, True), tr(t, False)
        if first is None or later is None or occurs(ph, first):
            return None
        best = T('phi', T('F', ph.a[0], '#opt'), ph.a[1])
        r = self.extreme(dom, best, subst(later, lambda y: best if y is q else None), None)
        if r is None or occurs(ph, r[1]) or occurs(ph, r[2]):
            return None
        kind, g, f = r
        if bdd(first) is not bdd(ite(g, T('some', f), NULL)):
            return None
        return ite(mkany(dom, g), T('some', ext(dom, kind, g, f)), NULL)

    def ext1(self, ph, t):
        if t is ph:
            return None, FALSE, None
        if t.op != 'ite':
            return None
        a = t.a[0]
        if not occurs(ph, a):
            x, y = self.ext1(ph, t.a[1]), self.ext1(ph, t.a[2])
            if x is None or y is None:
                return None
            if x[0] is None:
                return y[0], ite(a, FALSE, y[1]), y[2]
            if y[0] is None:
                return x[0], ite(a, x[1], FALSE), x[2]
            if x[0] != y[0]:
                return None
            return x[0], ite(a, x[1], y[1]), ite(a, x[2], y[2])
        for f, no, c in ((t.a[1], t.a[2], a), (t.a[2], t.a[1], lnot(a))):
            if no is not ph or occurs(ph, f) or f.op == 'ite':
                continue
            # c holds on the branch that takes f
            for kind, yes in (('max', lt(ph, f)), ('min', lt(f, ph)), ('max', le(ph, f)), ('min', le(f, ph))):
                if c is yes:
                    return kind, TRUE, f
        return None

    def carried_exit(self, x, dom, norm, exits, M, phis, gl, st, fr, c):
        return None

    def havoc(self, st, M, x, fr):
        s = st
        for l in M:
            s = s.put(l, T('part', 'loop', l, self.nix(x)))
        self.opqs['loop@%s:%s' % (fr.file, x.get('l'))] = 1
        return s

    def loop_opaque(self, x, M, exits, phis, st, fr, why):
        self.opqs['%s@%s:%s' % (why, fr.file, x.get('l'))] = 1
        sub_ = {p: T('part', 'loop', l, self.nix(x)) for p, l in phis.items()}
        out = [self.havoc(st, M, x, fr)]
        for l, o in exits:
            s = st.cp()
            for k, v in o.store.items():
                if k.op == 'V' and k not in st.store:
                    continue
                s = s.setroot(k, substd(v, sub_))
            s = s.withf(Facts({**st.facts.lits, T('part', 'exit', self.nix(x), len(out)): True}))
            for e in o.eff:
                s = s.add(substd(e, sub_))
            s = s.signal(None if o.sig == 'brk' else o.sig, substd(o.val, sub_) if o.val is not None else None)
            out.append(s)
        return self.merge(out)

    # -- for(;;) / while / do
    def cloop(self, x, st, fr):
        if x.get('cv'):
            self.opq('loop with condition variable', x, fr)
        cond = x.get('c')
        iv = self.indvar(cond, st, fr) if cond else None
        self.loopd += 1
        try:
            if iv is not None and x['k'] != 'do':
                l, v = iv
                r = None
                if v.op == 'it':
                    r = self.iterloop(x, l, v, st, fr)
                elif v.op != 'it':
                    r = self.indexloop(x, l, v, st, fr)
                if r is not None:
                    return r
            return self.whileloop(x, st, fr)
        finally:
            self.loopd -= 1

    def indvar(self, c, st, fr):
        while c and c['k'] in ('cast', 'copy'):
            c = c['e']
        if c is None:
            return None
        if c['k'] == 'bin' and c['op'] == '&&':
            return self.indvar(c['a'], st, fr)
        side = None
        if c['k'] == 'bin' and c['op'] in ('<', '!=', '<=', '>'):
            side = c['a'] if c['op'] != '>' else c['b']
        elif c['k'] == 'call' and c.get('op') in ('!=', '=='):
            side = c.get('obj') or (c['args'][0] if c.get('args') else None)
        elif c['k'] == 'un' and c['op'] == '!':
            return self.indvar(c['e'], st, fr)
        side = self.indside(side)
        if side is None:
            return None
        r = self.lv(side, st, fr)
        if len(r) != 1 or r[0][0].sig:
            return None
        l = r[0][1]
        v = self._ld(st, l)
        if v.op == 'it' and v.a[0] in ('begin',):
            return l, v
        if v.op in ('c', 'poly', 'rd', 'sym', 'size', 'get', 'sel') and v.op != 'it':
            return l, v
        return None

    @staticmethod
    def indside(e):
        """the variable of `i`, `i + c`, `i - c`"""
        while e and e['k'] in ('cast', 'copy') or e and e['k'] == 'bin' and e['op'] in ('+', '-'):
            if e['k'] == 'bin':
                a, b = e['a'], e['b']
                while b['k'] in ('cast', 'copy'):
                    b = b['e']
                if b['k'] != 'int':
                    return None
                e = a
            else:
                e = e['e']
        return e if e is not None and e['k'] == 'var' else None

    def iterloop(self, x, l, v, st, fr):
        cl, c = v.a[1], v.a[2]
        node = x
        # map or sequence: decided by the iterator's static type when available
        kind = 'map' if self.itermap(x, l, fr) else 'seq'
        dom = T('dom', kind, c, self.loopd)
        el = T('el', dom)
        cur = T('it', 'elem', cl, c, el)
        bad = []

        def body(q):
            out = []
            if x.get('c'):
                for s, b in self.branch(x['c'], q, fr):
                    if s.sig:
                        out.append(s)
                    elif b:
                        out += self.body_inc(x, s, fr)
                    else:
                        out.append(s.signal('brk'))
            else:
                out += self.body_inc(x, q, fr)
            for s in out:
                if s.sig is None:
                    y = s.load(l)
                    if not (y.op == 'it' and y.a[0] == 'next' and y.a[3] is el):
                        bad.append(y)
            return out
        mark = len(self.loops)
        r = self.domloop(x, dom, TRUE, cl, c, lambda q: q.put(l, cur), body, lambda q: q, st, fr, ivar=l)
        if bad:
            del self.loops[mark:]
            return None
        return r

    def itermap(self, x, l, fr):
        found = []

        def f(n):
            t = n.get('t') if isinstance(n, dict) else None
            if isinstance(t, str) and n.get('k') in ('var', 'call', 'ctor') and ('iterator' in t):
                found.append(('_Rb_tree' in t or '_Node_' in t) and 'pair<const' in t)
        visit({'c': x.get('c')}, f)
        return any(found)

    def body_inc(self, x, s, fr):
        out = []
        for o in self.stmt(x['b'], s, fr):
            if o.sig in (None, 'cont') and x.get('inc'):
                o = o.signal(None) if o.sig else o
                out += [q for q, _ in self.ev(x['inc'], o, fr)]
            else:
                out.append(o.signal(None) if o.sig == 'cont' else o)
        return self.merge(out)

    def indexloop(self, x, l, v0, st, fr):
        d = self.loopd
        # probe: is the variable only ever stepped by one?
        ph = T('phi', l, d)
        mark = len(self.bounds)
        res, M = self.whilefix(x, st, fr)
        del self.bounds[mark:]
        if res is None or l not in M:
            return None
        conts = [o for o in res if o.sig is None]
        if not conts or any(o.load(l) is not add(ph, C(1)) for o in conts):
            return None
        # bound
        s = st
        for m in sorted(M, key=lambda t: t.id):
            s = s.put(m, T('phi', m, d))
        c = x['c']
        while c['k'] in ('cast', 'copy'):
            c = c['e']
        conds = [c]
        while conds[0]['k'] == 'bin' and conds[0]['op'] == '&&':
            conds = [conds[0]['a'], conds[0]['b']] + conds[1:]
        c = conds[0]
        if c['k'] != 'bin':
            return None
        other = c['b'] if c['op'] != '>' else c['a']
        ro = self.ev(other, s, fr)
        if len(ro) != 1 or ro[0][0].sig:
            return None
        hi = ro[0][1]
        if any(p.op == 'phi' and p.a[1] == d for p in walk(hi)):
            return None
        if c['op'] == '<=':
            hi = add(hi, C(1))
        mine = c['a'] if c['op'] != '>' else c['b']
        rm = self.ev(mine, s, fr)
        if len(rm) != 1 or rm[0][0].sig:
            return None
        shift = sub(rm[0][1], ph)
        if not is_num(shift):
            return None
        hi = sub(hi, shift)
        if v0 is ZERO and hi.op == 'size':
            dom = T('dom', 'seq', hi.a[0], d)
            iv = T('ix', dom)
        else:
            dom = T('dom', 'range', T('rng', v0, hi), d)
            iv = T('el', dom)
            if is_num(v0) and is_num(hi) and cval(hi) - cval(v0) <= 4:
                dom = None
        if dom is None:
            # tiny constant range: analysed element by element
            cur, done = [st.put(l, v0)], []
            for _ in range(int(cval(hi) - cval(v0)) + 1):
                nxt = []
                for q in cur:
                    for s2, b in self.branch(x['c'], q, fr):
                        if s2.sig:
                            done.append(s2)
                        elif not b:
                            done.append(s2)
                        else:
                            for o in self.body_inc(x, s2, fr):
                                if o.sig == 'brk':
                                    done.append(o.signal(None))
                                elif o.sig:
                                    done.append(o)
                                else:
                                    nxt.append(o)
                cur = self.merge(nxt)
            return self.merge(done + cur)
        rest = conds[1:]

        def body(q):
            out = []
            cur = [q]
            for cc in rest:
                nx = []
                for s2 in cur:
                    for s3, b in self.branch(cc, s2, fr):
                        if s3.sig:
                            out.append(s3)
                        elif b:
                            nx.append(s3)
                        else:
                            out.append(s3.signal('brk'))
                cur = nx
            for s2 in cur:
                out += self.body_inc(x, s2, fr)
            return out
        cl = None
        return self.domloop(x, dom, TRUE, cl, hi.a[0] if dom.a[0] == 'seq' else hi,
                            lambda q: q.put(l, iv), body, lambda q: q, st, fr, ivar=l)

    def whilefix(self, x, st, fr):
        d = self.loopd
        M = set()
        mark = len(self.bounds)
        for it in range(8):
            del self.bounds[mark:]
            s = st.cp()
            s.eff = ()
            for m in sorted(M, key=lambda t: t.id):
                s = s.put(m, T('phi', m, d))
            entry = s
            outs = []
            if x['k'] == 'do' or not x.get('c'):
                starts = [(s, True)]
            else:
                starts = self.branch(x['c'], s, fr)
            for q, b in starts:
                if q.sig:
                    outs.append(q)
                elif not b:
                    outs.append(q.signal('brk'))
                else:
                    for o in self.body_inc(x, q, fr):
                        if x['k'] == 'do' and o.sig is None and x.get('c'):
                            for q2, b2 in self.branch(x['c'], o, fr):
                                outs.append(q2 if q2.sig or b2 else q2.signal('brk'))
                        else:
                            outs.append(o)
            m = self.modified(entry, [o for o in outs], None, None)
            if m <= M:
                return outs, M
            M |= m
            M = {l for l in M if not any(p in M for p in self.parents(l))}
        return None, M

    def whileloop(self, x, st, fr):
        d = self.loopd
        outs, M = self.whilefix(x, st, fr)
        if outs is None:
            return [self.havoc(st, M, x, fr)]
        base = st.facts.lits
        norm = [({a: b for a, b in o.facts.lits.items() if a not in base}, o) for o in outs if o.sig is None]
        exits = [({a: b for a, b in o.facts.lits.items() if a not in base}, o) for o in outs if o.sig is not None]
        self.loops.append({'node': x, 'dom': None, 'norm': norm, 'exits': exits, 'M': M, 'entry': None, 'file': fr.file,
                           'line': x.get('l'), 'fn': fr.fn.get('n'), 'st': st})
        phis = {T('phi', l, d): l for l in M}
        if not norm:
            # body always leaves: executes at most once
            res = []
            for l, o in exits:
                s = o.cp()
                s.eff = st.eff + o.eff
                res.append(s.signal(None) if s.sig == 'brk' else s)
            if not M:
                return self.merge(res)
        init = {l: st.load(l) for l in M}
        trees = tuple(sorted(((l, dtree([(li, o.load(l)) for li, o in norm]) if norm else T('phi', l, d)) for l in M),
                             key=lambda p: p[0].id))
        cont = bdd(dtree([(l, C(any(o is q for _, q in norm))) for l, o in norm + exits]))
        vals = {l: T('while', l, cont, trees, tuple((k, init[k]) for k, _ in trees)) for l in M}
        effs = None
        if any(o.eff for _, o in norm):
            effs = T('repeat', cont, trees, tuple((k, init[k]) for k, _ in trees),
                     dtree([(l, T('effs', o.eff)) for l, o in norm]))
        out = []
        if not M and not exits:
            return [st.signal('exit', NULL)]
        for l, o in exits:
            s = st.cp()
            fs = [st.facts]
            for a, b in l.items():
                a2 = substd(a, {p: vals[k] for p, k in phis.items() if k in vals})
                fs = [z for f in fs for z in f.assume(a2, b)]
            for f in fs:
                s = st.withf(f)
                if effs is not None:
                    s = s.add(effs)
                    self.ln.setdefault(effs, (fr.file, x.get('l'), fr.fn.get('n', '?')))
                for k, v in o.store.items():
                    if k.op == 'V' and k not in st.store:
                        continue
                    s = s.setroot(k, substd(v, {p: vals[k] for p, k in phis.items() if k in vals}))
                for e in o.eff:
                    e2 = substd(e, {p: vals[k] for p, k in phis.items() if k in vals})
                    if e in self.ln:
                        self.ln.setdefault(e2, self.ln[e])
                    s = s.add(e2)
                s.cnt = o.cnt
                v2 = substd(o.val, {p: vals[k] for p, k in phis.items() if k in vals}) if o.val is not None else None
                out.append(s.signal(None if o.sig == 'brk' else o.sig, v2))
        return self.merge(out)
