"""Forward dataflow: uses of what was moved away, erased, reallocated or left its scope (part of C51)."""
import re
from .. import prog
from .lifetime import last, strip, bare, VIEW, vecish, GROW, SHRINK

REVIVE = {'clear', 'reset', 'assign', 'swap', 'emplace', 'open', 'resize'}
BENIGN = {'get', 'operator bool', 'has_value', 'empty', 'size', 'use_count'}
INTO = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'at', 'front', 'back', 'emplace_back',
        'emplace_front', 'insert', 'data', 'c_str', 'erase', 'emplace', 'try_emplace'}
STRMUT = {'append', 'push_back', 'insert', 'replace', 'erase', 'clear', 'resize', 'assign', 'pop_back', 'swap', 'reserve', 'shrink_to_fit'}


def path(n):
    n = strip_(n)
    if not isinstance(n, dict):
        return None
    k = n.get('k')
    if k == 'var':
        return ('v%s' % n['id'],)
    if k == 'gvar':
        return ('g' + str(n.get('key') or n.get('n')),)
    if k == 'this':
        return ('this',)
    if k == 'mem':
        b = strip_(n['b'])
        if n.get('a') and not (b and b.get('k') == 'this'):
            # through a pointer or an iterator
            p = path(b)
            return p + ('*', n['f']) if p else None
        p = path(b)
        return p + (n['f'],) if p else None
    if k == 'un' and n.get('op') == '*':
        p = path(n['e'])
        return p + ('*',) if p and p != ('this',) else p
    if k == 'call' and n.get('op') in ('*', '->') and n.get('obj') is not None and len(n.get('args') or []) == 0:
        p = path(n['obj'])
        return p + ('*',) if p else None
    return None


def strip_(n):
    while isinstance(n, dict) and n.get('k') in ('copy', 'cast', 'paren') or \
            isinstance(n, dict) and n.get('k') == 'ctor' and len(n.get('args') or []) == 1 and 'iterator' in (n.get('t') or '').lower():
        n = n['e'] if 'e' in n else n['args'][0]
    return n


def is_move(n):
    n = strip_(n)
    return isinstance(n, dict) and n.get('k') == 'call' and n.get('name') == 'std::move' and len(n['args']) == 1 and n.get('obj') is None


def owning(t):
    t = bare(t)
    return ('::' in t or '<' in t) and not t.endswith('*') and 'chrono' not in t and 'iterator' not in t.lower()


class St:
    __slots__ = ('bad', 'refs')

    def __init__(self, bad=None, refs=None):
        self.bad = dict(bad or {})
        self.refs = dict(refs or {})

    def copy(self):
        return St(self.bad, self.refs)


class Flow:
    def __init__(self, f, report):
        self.f = f
        self.rep = report
        self.depth = 0
        self.loops = []
        self.handled = 0
        self.seen = set()
        self.names = {}

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = St()
        for p in set(a.bad) | set(b.bad):
            x, y = a.bad.get(p), b.bad.get(p)
            if x and y:
                d = None if x[1] is None and y[1] is None else max(v for v in (x[1], y[1]) if v is not None)
                r.bad[p] = (x[0], d)
            else:
                x = x or y
                r.bad[p] = (x[0], self.depth if x[1] is None else max(x[1], self.depth) if False else min(x[1], self.depth))
        for v in set(a.refs) | set(b.refs):
            x, y = a.refs.get(v), b.refs.get(v)
            if x is None or y is None or x == y:
                r.refs[v] = x or y
        return r

    # -- facts
    def use(self, p, n, st):
        for i in range(len(p), 0, -1):
            q = p[:i]
            if q in st.bad:
                why, d = st.bad[q]
                if d is not None and self.depth > d:
                    return
                if (n.get('l'), q) not in self.seen:
                    self.seen.add((n.get('l'), q))
                    self.rep(n, self.name(q), why)
                return

    def name(self, q):
        return '.'.join([self.names.get(q[0], q[0].lstrip('g'))] + [x for x in q[1:] if x != '*'])

    def revive(self, p, st):
        for q in [q for q in st.bad if q[:len(p)] == p]:
            del st.bad[q]

    def kill_refs(self, st, test, why):
        for v, r in list(st.refs.items()):
            if test(v, r):
                st.bad[(v,)] = (why, None)

    def changed(self, p, st, why):
        """the object at p gets a new value: what looked into it is invalid"""
        if p is None:
            return
        self.kill_refs(st, lambda v, r: r[0] is not None and r[0][:len(p)] == p and r[1] in ('elem', 'view') and v != p[0], why)

    # -- what a reference, iterator, pointer or view looks into
    def source(self, n, st):
        """(container path, kind, index key) of the lvalue or iterator n"""
        n = strip_(n)
        if not isinstance(n, dict):
            return None
        k = n.get('k')
        if k == 'call':
            o = n.get('obj')
            m = last(n.get('name'))
            if o is not None and (n.get('op') == '[]' or m in INTO) and not n.get('repo'):
                p = path(o)
                t = n.get('oc_t') or n.get('oc') or ''
                if p is None or bare(t).endswith('*'):
                    return None
                if 'optional' in t or 'shared_ptr' in t or 'unique_ptr' in t or 'variant' in t or 'basic_json' in t:
                    return None
                return (p, 'view' if 'basic_string<' in t or t in ('std::string', 'const std::string') else 'elem', n['args'][0] if n['args'] else None, bare(t))
            if n.get('op') in ('*', '->') and o is not None and not n['args']:
                return self.source(o, st)
            return None
        if k == 'idx':
            return None
        if k == 'mem':
            return self.source(n['b'], st)
        if k == 'un' and n.get('op') in ('*', '&'):
            e = strip_(n['e'])
            s = self.source(e, st)
            if s is None and n['op'] == '&':
                p = path(e)
                if p and p[0].startswith('v') and '*' not in p and not (e.get('ref')):
                    return (p, 'addr', None, '')
            return s
        if k == 'var':
            r = st.refs.get('v%s' % n['id'])
            if r:
                return r[:4]
        if k == 'cond':
            return None
        return None

    def bind(self, vid, ref, t, init, st):
        v = 'v%s' % vid
        st.refs.pop(v, None)
        self.revive((v,), st)
        tt = t or ''
        b = bare(tt)
        if init is None:
            return
        if VIEW.match(b) or VIEW.match(tt):
            i = strip_(init)
            while isinstance(i, dict) and i.get('k') in ('ctor', 'call') and ('view' in (i.get('name') or '') or i.get('k') == 'ctor'):
                nx = i['args'][0] if i['k'] == 'ctor' and i.get('args') else i.get('obj')
                if nx is None:
                    break
                i = strip_(nx)
            p = None
            if i.get('k') == 'call' and last(i.get('name')) in ('c_str', 'data') and i.get('obj') is not None:
                p = path(i['obj'])
                ty = i.get('oc_t') or ''
            elif i.get('k') in ('var', 'mem', 'gvar'):
                p = path(i)
                ty = i.get('t') or ''
            if p and ('basic_string<' in ty and 'view' not in ty or bare(ty) == 'std::string'):
                st.refs[v] = (p, 'view', None, ty)
            return
        it = 'iterator' in b.lower()
        if ref or tt.endswith(('&', '*')) or it:
            s = self.source(init, st)
            if s:
                if it or s[1] != 'view' or not (ref or tt.endswith('&')):
                    frm = None
                    e = strip_(init)
                    q = path(e)
                    if q and q[0] in st.refs:
                        frm = q[0]
                    st.refs[v] = tuple(s) + (frm,)

    # -- expressions
    def expr(self, n, st, store=False):
        if isinstance(n, list):
            for x in n:
                self.expr(x, st)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('var', 'gvar', 'mem'):
            p = path(n)
            if p is not None:
                if not store:
                    self.use(p, n, st)
                else:
                    # storing through something that refers elsewhere
                    r = n
                    while isinstance(r, dict) and r.get('k') == 'mem' and not r.get('a'):
                        r = strip_(r['b'])
                    q = p[:1]
                    if isinstance(r, dict) and r.get('k') == 'var' and r.get('ref') and q in st.bad and not st.bad[q][0].startswith('moved'):
                        self.use(q, n, st)
                if k == 'mem' and strip_(n['b']).get('k') not in ('var', 'mem', 'this', 'gvar'):
                    self.expr(n['b'], st)
                return
            self.expr(n.get('b'), st)
            return
        if k == 'lambda':
            for cap in n.get('caps') or []:
                if 'init' in cap:
                    self.expr(cap['init'], st)
                    self.consume(cap['init'], st, not cap.get('ref'))
                elif 'id' in cap and not cap.get('ref'):
                    self.use(('v%s' % cap['id'],), n, st)
            sub = Flow(self.f, self.rep)
            sub.names = self.names
            sub.seen = self.seen
            sub.stmts(n.get('body'), St())
            self.handled += sub.handled
            return
        if k == 'bin' and n.get('op') in ('&&', '||'):
            self.expr(n['a'], st)
            b = st.copy()
            self.depth += 1
            self.expr(n['b'], b)
            self.depth -= 1
            j = self.join(st, b)
            st.bad, st.refs = j.bad, j.refs
            return
        if k == 'cond':
            self.expr(n['c'], st)
            a, b = st.copy(), st.copy()
            self.depth += 1
            self.expr(n['a'], a)
            self.expr(n['b'], b)
            self.depth -= 1
            j = self.join(a, b)
            st.bad, st.refs = j.bad, j.refs
            return
        if k == 'un' and n.get('op') == '!':
            self.test(n['e'], st)
            return
        if k == 'asg' or k == 'call' and n.get('op') == '=' and n.get('obj') is not None:
            a, b = (n['a'], n['b']) if k == 'asg' else (n['obj'], (n['args'] or [None])[0])
            self.expr(b, st)
            p = path(a)
            self.expr(a, st, store=p is not None and '*' not in p)
            if p is not None and '*' not in p:
                self.changed(p, st, 'changed since')
                self.revive(p, st)
                if len(p) == 1 and p[0].startswith('v'):
                    x = strip_(a)
                    if not x.get('ref'):
                        self.bind(p[0][1:], False, x.get('t'), b, st)
            self.consume(b, st, True)
            return
        if k == 'casg':
            self.expr(n['b'], st)
            self.expr(n['a'], st)
            self.changed(path(n['a']), st, 'changed since')
            return
        if k == 'call':
            self.call(n, st)
            return
        if k in ('ctor', 'copy'):
            args = n.get('args') if k == 'ctor' else [n['e']]
            for a in args or []:
                self.expr(a, st)
            for i, a in enumerate(args or []):
                pf = (n.get('pf') or '')[i:i + 1]
                if k == 'copy' and n.get('mv') or pf in ('x', 'v'):
                    self.consume(a, st, True)
            return
        if k in ('decl', 'sdecl', 'decomp', 'decls', 'ex', 'if', 'for', 'while', 'rfor', 'ret', 'blk', 'try', 'switch'):
            return
        for x in n.values():
            if isinstance(x, (dict, list)):
                self.expr(x, st)

    def test(self, n, st):
        """a smart pointer may be asked whether it is empty after a move"""
        p = path(n)
        if p is not None:
            q = [q for q in (p[:i] for i in range(1, len(p) + 1)) if q in st.bad]
            if q and st.bad[q[0]][0].startswith('moved') and q[0] == p:
                return
        self.expr(n, st)

    def consume(self, n, st, yes):
        n = strip_(n)
        if yes and is_move(n):
            x = strip_(n['args'][0])
            p = path(x)
            if p and '*' not in p and p != ('this',) and owning(x.get('t')):
                self.handled += 1
                self.changed(p, st, 'moved away')
                st.bad[p] = ('moved away on line %s' % n.get('l'), None)

    def call(self, n, st):
        o = n.get('obj')
        m = last(n.get('name'))
        t = n.get('oc_t') or n.get('oc') or ''
        if n.get('name') == 'std::move' and o is None:
            self.expr(n['args'], st)
            return
        p = path(o) if o is not None else None
        if n.get('op') in ('==', '!=') and any(isinstance(strip_(a), dict) and strip_(a).get('k') == 'null' for a in (n['args'] or [])):
            for a in [o] + list(n['args']):
                if a is not None:
                    self.test(a, st)
            return
        if o is not None:
            if m in REVIVE and not n.get('arrow') and p is not None and '*' not in p and not n.get('repo') and \
                    p in st.bad and st.bad[p][0].startswith('moved'):
                self.revive(p, st)
            elif m in BENIGN or n.get('conv'):
                self.test(o, st)
            else:
                self.expr(o, st)
        if n.get('callee'):
            self.expr(n['callee'], st)
        for a in n.get('args') or []:
            self.expr(a, st)
        pf = n.get('pf') or ''
        for i, a in enumerate(n.get('args') or []):
            if pf[i:i + 1] in ('x', 'v') or not pf:
                self.consume(a, st, True)
        if p is None or n.get('repo') or n.get('arrow') and 'ptr' not in t:
            return
        tt = bare(t)
        if 'shared_ptr' in tt or 'unique_ptr' in tt or 'basic_json' in tt or 'weak_ptr' in tt:
            return
        if 'basic_string<' in tt or tt == 'std::string':
            if m in STRMUT or n.get('op') == '+=':
                self.kill_refs(st, lambda v, r: r[0] == p and r[1] == 'view', 'changed since')
            return
        if m in ('clear', 'swap') or n.get('op') == '=':
            self.kill_refs(st, lambda v, r: r[0] == p and r[1] == 'elem', 'emptied by %s' % m)
        elif m in GROW or m == 'reserve':
            if vecish(tt) and not tt.startswith('std::unordered_'):
                self.kill_refs(st, lambda v, r: r[0] == p and r[1] == 'elem', 'invalidated by %s' % m)
        elif m in ('erase', 'pop_back', 'pop_front', 'extract'):
            a = strip_(n['args'][0]) if n.get('args') else None
            x = path(a) if a else None
            at = (a or {}).get('t') or ''
            if m in ('pop_back', 'pop_front') or vecish(tt) and not tt.startswith('std::unordered_'):
                if m == 'erase' or m == 'extract':
                    self.kill_refs(st, lambda v, r: r[0] == p and r[1] == 'elem', 'invalidated by %s' % m)
            elif x and len(x) == 1 and 'iterator' in at.lower():
                self.kill_refs(st, lambda v, r: r[0] == p and (v == x[0] or r[4:5] == (x[0],)), 'erased')
                if x[0].startswith('v'):
                    st.bad[x] = ('erased', None)
            elif a is not None and 'iterator' not in at.lower():
                from .lifetime import key
                kk = key(a)
                self.kill_refs(st, lambda v, r: r[0] == p and r[1] == 'elem' and r[2] is not None and key(r[2]) == kk, 'erased')

    # -- statements
    def stmts(self, n, st):
        """state after, or None if the end is not reached"""
        if n is None:
            return st
        if isinstance(n, list):
            for s in n:
                if st is None:
                    return None
                st = self.stmts(s, st)
            return st
        k = n.get('k')
        if k == 'blk':
            ids = []
            for s in n.get('b') or []:
                if isinstance(s, dict) and s.get('k') == 'decls':
                    ids += [d['id'] for d in s['b'] if 'id' in d and not d.get('ref')]
                elif isinstance(s, dict) and s.get('k') == 'decl' and not s.get('ref'):
                    ids.append(s['id'])
            st = self.stmts(n.get('b') or [], st)
            if st is not None:
                gone = {'v%s' % i for i in ids}
                self.kill_refs(st, lambda v, r: r[0] is not None and r[0][0] in gone and '*' not in r[0] and v not in gone, 'out of scope')
                for v in gone:
                    st.refs.pop(v, None)
                    self.revive((v,), st)
            return st
        if k == 'decls':
            return self.stmts(n['b'], st)
        if k in ('decl', 'sdecl', 'decomp'):
            i = n.get('init')
            self.expr(i, st)
            if 'id' in n:
                self.names['v%s' % n['id']] = n['n'] or '?'
                ref = n.get('ref') or n['t'].endswith('&')
                self.consume(i, st, not ref)
                self.bind(n['id'], ref, n['t'], i, st)
                for b in n.get('bs') or []:
                    self.names['v%s' % b['id']] = b['n']
                    self.bind(b['id'], ref, n['t'] + '&' if ref else n['t'], i, st)
            return st
        if k == 'ex':
            self.expr(n['e'], st)
            e = strip_(n['e'])
            return None if isinstance(e, dict) and (e.get('k') == 'throw' or e.get('nr')) else st
        if k == 'throw':
            self.expr(n.get('e'), st)
            return None
        if k == 'ret':
            self.expr(n.get('e'), st)
            return None
        if k == 'break':
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == 'cont':
            for l in reversed(self.loops):
                if l[2]:
                    l[1].append(st)
                    break
            return None
        if k == 'if':
            if n.get('init'):
                st = self.stmts(n['init'], st)
            c = n.get('c')
            if isinstance(c, dict) and c.get('k') in ('decl', 'decls'):
                st = self.stmts(c, st)
            else:
                self.test(c, st)
            a, b = st.copy(), st.copy()
            self.depth += 1
            a = self.stmts(n.get('th'), a)
            b = self.stmts(n.get('el'), b)
            self.depth -= 1
            return self.join(a, b)
        if k == 'rfor':
            self.expr(n.get('r'), st)
            dv = n.get('v')
            rp = path(n.get('r'))

            def one(s):
                if isinstance(dv, dict) and 'id' in dv:
                    ids = [dv['id']] + [b['id'] for b in dv.get('bs') or []]
                    for x in ids:
                        self.revive(('v%s' % x,), s)
                        s.refs.pop('v%s' % x, None)
                        self.names['v%s' % x] = dv.get('n') or '?'
                        if (dv.get('ref') or (dv.get('t') or '').endswith('&')) and rp:
                            s.refs['v%s' % x] = (rp, 'elem', None, n.get('rt') or '')
                return self.stmts(n['b'], s)
            return self.loop(st, one, None)
        if k in ('for', 'while'):
            if n.get('init'):
                st = self.stmts(n['init'], st)
                if st is None:
                    return None

            def one(s):
                self.expr(n.get('c'), s)
                return self.stmts(n['b'], s)
            return self.loop(st, one, n.get('inc'))
        if k == 'try':
            e = st.copy()
            self.depth += 1
            b = self.stmts(n['b'], st)
            h = self.join(e, b)
            r = b
            for x in n.get('cs') or []:
                r = self.join(r, self.stmts(x.get('b'), h.copy()))
            self.depth -= 1
            return r
        if k == 'switch':
            self.expr(n.get('c'), st)
            out = []
            self.loops.append((out, [], False))
            self.depth += 1
            cur = None
            dflt = False
            for s in (n['b'].get('b') if isinstance(n['b'], dict) else n['b']) or []:
                while isinstance(s, dict) and s.get('k') in ('case', 'default'):
                    dflt |= s['k'] == 'default'
                    cur = self.join(cur, st.copy())
                    s = s.get('s')
                if cur is not None and s is not None:
                    cur = self.stmts(s, cur)
            self.depth -= 1
            self.loops.pop()
            for o in out:
                cur = self.join(cur, o)
            return cur if dflt else self.join(cur, st)
        # an expression statement
        self.expr(n, st)
        return None if n.get('k') == 'call' and n.get('nr') else st

    def loop(self, st, one, inc):
        out, cont = [], []
        self.loops.append((out, cont, True))
        self.depth += 1
        e = st.copy()
        end = None
        for _ in range(2):
            end = one(e)
            for x in cont:
                end = self.join(end, x)
            cont.clear()
            if end is None:
                break
            if inc is not None:
                self.expr(inc, end)
            e = end.copy()
        self.depth -= 1
        self.loops.pop()
        r = self.join(st, end)
        for o in out:
            r = self.join(r, o)
        return r


def spent(c, f):
    bad = []

    def rep(n, name, why):
        bad.append(n)
        c.viol('spent', (f.get('file'), n.get('l') or f.get('l'), f['n']), '"%s" is used although it was %s' % (name, why))
    w = Flow(f, rep)
    st = St()
    for p in f.get('params') or []:
        w.names['v%s' % p['id']] = p['n']
    for i in f.get('inits') or []:
        w.expr(i.get('e'), st)
        w.consume(i.get('e'), st, True)
        if i.get('f'):
            w.revive(('this', i['f']), st)
    w.stmts(f.get('body'), st)
    if not bad:
        c.ok('spent', '%s: %d given away' % (f['n'], w.handled))
