"""What is kept beyond a call does not refer to what is gone (C51)."""
import json
import re
from ..spec import *
from ..extract import Broken
from .. import prog

IDENT = ('bus::bus', 'io_context', 'io_service', 'object_server', 'SensorManager', 'ZoneInterface', 'DbusPidZone', 'connection',
         'sd_bus', 'sd_event', 'HostStateMonitor')
VIEW = re.compile(r'^(const )?(std::basic_string_view<.*>|std::string_view|std::span<.*>|const char ?\*( const)?|std::reference_wrapper<.*>)$')
KEEP = {'async_wait', 'post', 'defer', 'dispatch', 'async_run', 'async_call', 'async_method_call', 'registerHandler', 'co_spawn', 'detach'}
OWNERS = ('match', 'std::function', 'std::thread', 'std::jthread', 'move_only_function')
GROW = {'insert', 'push_back', 'emplace_back', 'push_front', 'emplace_front', 'emplace', 'resize', 'assign', 'insert_or_assign', 'try_emplace'}
SHRINK = {'erase', 'clear', 'pop_back', 'pop_front', 'swap'}


def last(n):
    """last component of a qualified name, template arguments dropped"""
    n = n or ''
    d = 0
    out = ''
    for ch in n:
        if ch == '<' and not out.endswith('operator'):
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif not d:
            out += ch
    return out.split('::')[-1]


def bare(t):
    t = (t or '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t[6:] if t.startswith('const ') else t


def ident(t):
    """an object with an identity that lives on, not a value"""
    t = bare(t)
    while t.endswith('*'):
        t = bare(t[:-1])
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::vector<', 'std::map<', 'std::list<')):
        return False
    return any(x in t for x in IDENT) or t.startswith('boost::asio::')


def strip(n):
    while n and n.get('k') in ('copy', 'cast', 'paren'):
        n = n['e']
    # std::move and friends
    while n and n.get('k') == 'call' and last(n.get('name')) in ('move', 'forward', 'as_const') and n.get('obj') is None and len(n['args']) == 1:
        n = strip(n['args'][0])
    # a converting or copying construction
    while n and n.get('k') == 'ctor' and len(n['args']) == 1 and last(n.get('oc')) in ('function', 'move_only_function'):
        n = strip(n['args'][0])
    return n


def key(n):
    """an expression, irrespective of its position and type"""
    def f(x):
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items() if k not in ('l', 't', 'oc_t', 'ref', 'rw')}
        if isinstance(x, list):
            return [f(v) for v in x]
        return x
    return json.dumps(f(strip(n)), sort_keys=True)


class Fn:
    """variables of a function and of the lambdas inside"""

    def __init__(self, f):
        self.f = f
        self.own = {}        # id -> (kind, type, depth of lambda, init)
        for p in f.get('params') or []:
            self.own[p['id']] = ('param', p['t'], 0, None)
        self.lams = []       # (node, depth)
        self._scan(f.get('body'), 0)
        for i in f.get('inits') or []:
            self._scan(i, 0)

    def _scan(self, n, d):
        if isinstance(n, list):
            for x in n:
                self._scan(x, d)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('decl', 'decomp'):
            self.own[n['id']] = ('local', n['t'] + ('&' if n.get('ref') and not n['t'].endswith('&') else ''), d, n.get('init'))
            for b in n.get('bs') or []:
                if isinstance(b, dict) and 'id' in b:
                    self.own[b['id']] = ('local', (b.get('t') or '') + '&', d, None)
        if k == 'lambda':
            self.lams.append((n, d))
            for p in n.get('params') or []:
                self.own[p['id']] = ('param', p['t'], d + 1, None)
            for c in n.get('caps') or []:
                if 'init' in c:
                    self.own[c['id']] = ('local', '' if not c.get('ref') else '&', d + 1, c['init'])
            d += 1
        for v in n.values():
            if isinstance(v, (dict, list)):
                self._scan(v, d)

    def isref(self, i):
        o = self.own.get(i)
        return o is not None and o[1].endswith('&')

    def stack(self, n):
        """name of the variable of this call whose memory the lvalue n is in"""
        n = strip(n)
        while n and n.get('k') == 'mem' and not n.get('a'):
            n = strip(n['b'])
        if n and n.get('k') == 'var' and n['id'] in self.own and not self.isref(n['id']) and not n.get('ref'):
            return n['n']
        return None


def is_temp(P, n):
    """n creates a new string (or other owner) that nobody keeps"""
    n = strip(n)
    if not n:
        return False
    if n.get('k') == 'ctor':
        return last(n.get('oc')) in ('basic_string', 'path', 'vector')
    if n.get('k') == 'call':
        t = n.get('t') or ''
        if 'basic_string<' not in t or 'view' in t:
            return False
        f = P.fns.get(n.get('fn'))
        if f is not None:
            return not (f.get('ret') or '').endswith('&')
        m = last(n.get('name'))
        return m in ('to_string', 'substr', 'str', 'string') or n.get('op') == '+'
    return False


def view_of(P, F, n):
    """what the view or character pointer n looks into when that is short-lived: a description or None"""
    n = strip(n)
    if not n:
        return None
    if n.get('k') == 'call' and n.get('obj') is not None and not n.get('arrow') and \
            (last(n.get('name')) in ('c_str', 'data') or 'operator' in (n.get('name') or '') and 'view' in (n.get('name') or '')):
        if is_temp(P, n['obj']):
            return 'a temporary string'
        v = F.stack(n['obj'])
        if v:
            return 'the local "%s"' % v
    if n.get('k') == 'ctor' and VIEW.match(bare(n.get('t'))) and n['args']:
        return view_of(P, F, n['args'][0]) or ('a temporary string' if is_temp(P, n['args'][0]) else None)
    if is_temp(P, n) and n.get('k') == 'ctor':
        return None
    return None


def keepers(P, f, F):
    """(node, stored argument) of every call in f that keeps what it is given"""
    out = []

    def v(n):
        if n.get('k') not in ('call', 'ctor'):
            return
        m = last(n.get('name'))
        t = ' '.join(str(n.get(x) or '') for x in ('oc', 'ta', 'oc_t'))
        own = any(re.search(r'\b%s\b' % re.escape(o), t) for o in OWNERS)
        stores = m in KEEP and not n.get('repo') or \
            own and (n['k'] == 'ctor' and last(n.get('oc')) in ('match', 'thread', 'jthread') or
                     m in ('make_unique', 'make_shared', 'emplace_back', 'emplace', 'push_back', 'emplace_front', 'push_front'))
        if stores:
            for a in n['args']:
                if a:
                    out.append((n, a))
        return
    prog.visit([f.get('body'), [i.get('e') for i in f.get('inits') or []]], v)

    # a callback member: obj.field = lambda
    def w(n):
        if n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None and strip(n['obj']).get('k') in ('mem', 'gvar') and \
                'std::function' in str(n.get('oc_t') or n.get('oc') or '') and n['args'] and n['args'][0]:
            out.append((n, n['args'][0]))
    prog.visit([f.get('body')], w)
    return out


def resolve_(F, n, seen=()):
    """the lambda behind a name, through locals and functions wrapping it"""
    n = strip(n)
    if not n:
        return []
    if n.get('k') == 'lambda':
        return [n]
    if n.get('k') == 'var' and n['id'] in F.own and n['id'] not in seen:
        return resolve_(F, F.own[n['id']][3], seen + (n['id'],))
    if n.get('k') in ('call', 'ctor') and (last(n.get('name')) in ('bind', 'bind_front') or last(n.get('oc')) in ('function', 'move_only_function')):
        r = []
        for a in n['args']:
            r += resolve_(F, a, seen) if a else []
        return r
    return []


@check('C51')
def c51(c):
    from .spent import spent
    seen = set()
    for cfg in (0, 1):
        P = c.P(cfg)
        fns = [f for f in P.fns.values() if f.get('body') is not None]
        kept_params(c, P, fns, seen)
        for f in fns:
            k = (f.get('file'), f.get('l'), f['n'])
            if cfg and k in seen:
                continue
            seen.add(k)
            F = Fn(f)
            callbacks(c, P, f, F)
            returns(c, P, f, F)
            views(c, P, f, F)
            walks(c, P, f, F)
            spent(c, f)
    members(c, c.P(0))


def at(f, n):
    return (f.get('file'), n.get('l') or f.get('l'), f['n'])


def mains(f):
    return f['n'].split('::')[-1] == 'main'


def bad_arg(P, F, f, a):
    """why the argument a may not be kept, or None"""
    a = strip(a)
    if not a or mains(f):
        return None
    if a.get('k') == 'un' and a.get('op') == '&':
        v = F.stack(a['e'])
        if v:
            return 'the address of the local "%s"' % v
    if a.get('k') == 'call' and last(a.get('name')) in ('ref', 'cref') and a['args']:
        v = F.stack(a['args'][0])
        if v:
            return 'a reference to the local "%s"' % v
    if a.get('k') in ('call', 'ctor') and last(a.get('name')) in ('bind', 'bind_front'):
        for x in a['args']:
            r = bad_arg(P, F, f, x) if x else None
            if r:
                return r
    return None


def callbacks(c, P, f, F):
    for n, a in keepers(P, f, F):
        r = bad_arg(P, F, f, a)
        what = last(n.get('name')) or last(n.get('oc'))
        if r:
            c.viol('callback', at(f, n), '%s keeps %s' % (what, r))
            continue
        for lam in resolve_(F, a):
            c.sites += 1
            err = None
            for cap in lam.get('caps') or []:
                if mains(f):
                    continue
                if cap.get('ref') and 'init' not in cap:
                    o = F.own.get(cap['id'])
                    if o is None:
                        continue
                    if not o[1].endswith('&'):
                        err = 'the local "%s"' % cap['n']
                    elif o[0] == 'param' and not ident(o[1]):
                        err = '"%s", which belongs to the caller,' % cap['n']
                elif 'init' in cap:
                    i = strip(cap['init'])
                    if cap.get('ref'):
                        v = F.stack(i)
                        err = 'the local "%s"' % v if v else err
                    else:
                        b = bad_arg(P, F, f, i) or view_of(P, F, i)
                        err = b or err
            if err:
                c.viol('callback', (lam.get('file') or f.get('file'), lam.get('l'), f['n']),
                       'the callback kept by %s refers to %s which is gone when it runs' % (what, err))
            else:
                c.ok('callback', '%s: callback kept by %s holds what it uses' % (f['n'], what))


def kept_params(c, P, fns, seen):
    """reference and pointer parameters a function keeps: what is passed for them has to live on"""
    kept = {}
    for f in fns:
        F = None
        ps = {p['id']: i for i, p in enumerate(f.get('params') or [])}
        refs = {p['id'] for p in f.get('params') or [] if p['t'].rstrip().endswith(('&', '*'))}
        if not refs:
            continue
        F = Fn(f)
        for n, a in keepers(P, f, F):
            for lam in resolve_(F, a):
                for cap in lam.get('caps') or []:
                    if cap.get('id') in refs and 'init' not in cap:
                        p = f['params'][ps[cap['id']]]
                        if p['t'].endswith('*') or cap.get('ref'):
                            kept.setdefault(f['key'], set()).add(ps[cap['id']])
            x = strip(a)
            if x and x.get('k') == 'var' and x['id'] in refs and f['params'][ps[x['id']]]['t'].endswith('*'):
                kept.setdefault(f['key'], set()).add(ps[x['id']])
            if x and x.get('k') == 'un' and x.get('op') == '&':
                y = strip(x['e'])
                if y and y.get('k') == 'var' and y['id'] in refs:
                    kept.setdefault(f['key'], set()).add(ps[y['id']])
    # handed on by a caller
    for _ in range(3):
        more = False
        for f in fns:
            ps = {p['id']: i for i, p in enumerate(f.get('params') or [])}

            def v(n):
                nonlocal more
                if n.get('k') == 'call' and n.get('fn') in kept:
                    for i in kept[n['fn']]:
                        if i < len(n['args']) and n['args'][i]:
                            x = strip(n['args'][i])
                            if x and x.get('k') == 'un' and x.get('op') == '&':
                                x = strip(x['e'])
                            if x and x.get('k') == 'var' and x['id'] in ps and f['params'][ps[x['id']]]['t'].rstrip().endswith(('&', '*')) and \
                                    ps[x['id']] not in kept.get(f['key'], ()):
                                kept.setdefault(f['key'], set()).add(ps[x['id']])
                                more = True
            prog.visit(f['body'], v)
        if not more:
            break
    for f in fns:
        F = None

        def v(n):
            nonlocal F
            if n.get('k') == 'call' and n.get('fn') in kept and not mains(f):
                F = F or Fn(f)
                for i in kept[n['fn']]:
                    if i < len(n['args']) and n['args'][i]:
                        r = bad_arg(P, F, f, n['args'][i])
                        if not r and (P.fns[n['fn']]['params'][i]['t']).endswith('&'):
                            s = F.stack(n['args'][i])
                            r = 'the local "%s"' % s if s else None
                        if r:
                            c.viol('kept-argument', at(f, n), '%s keeps %s' % (last(n.get('name')), r))
                        else:
                            c.ok('kept-argument', '%s passes %s what lives on' % (f['n'], last(n.get('name'))))
        prog.visit(f['body'], v)


def returns(c, P, f, F):
    rt = (f.get('ret') or '').strip()
    ref, ptr, view = rt.endswith('&') and not rt.endswith('&&'), rt.endswith('*'), bool(VIEW.match(rt))
    if not (ref or ptr or view):
        return
    err = []
    num = [0]

    def outs(e):
        e = strip(e)
        if e and e.get('k') == 'cond':
            return outs(e['a']) + outs(e['b'])
        return [e] if e else []

    def v(n):
        if n.get('k') == 'lambda':
            return False
        if n.get('k') == 'ret' and n.get('e'):
            for e in outs(n['e']):
                num[0] += 1
                if view:
                    w = view_of(P, F, e)
                    if w:
                        err.append((n, w))
                elif ref:
                    if F.stack(e):
                        err.append((n, 'the local "%s"' % F.stack(e)))
                    elif is_temp(P, e):
                        err.append((n, 'a temporary'))
                elif e.get('k') == 'un' and e.get('op') == '&' and F.stack(e['e']):
                    err.append((n, 'the local "%s"' % F.stack(e['e'])))
    prog.visit(f['body'], v)
    if num[0]:
        c.sites += 1
    for n, w in err:
        c.viol('returned', at(f, n), '%s returns a reference to %s' % (f['n'].split('::')[-1], w))
    if num[0] and not err:
        c.ok('returned', '%s: what it returns lives on' % f['n'])


def views(c, P, f, F):
    def v(n):
        if n.get('k') in ('decl', 'sdecl') and n.get('init') and VIEW.match(bare(n['t']) if not n['t'].startswith('const char') else n['t']):
            w = view_of(P, F, n['init'])
            c.sites += 1
            if w and 'temporary' in w or w and n['k'] == 'sdecl':
                c.viol('view', at(f, n), '"%s" looks into %s' % (n['n'], w))
            else:
                c.ok('view', '%s: %s' % (f['n'], n['n']))
        if n.get('k') == 'asg' and strip(n['a']).get('k') in ('mem', 'gvar'):
            t = n['a'].get('t') or ''
            r = None
            if VIEW.match(bare(t)) or VIEW.match(t):
                r = view_of(P, F, n['b'])
            elif t.endswith('*'):
                b = strip(n['b'])
                if b and b.get('k') == 'un' and b.get('op') == '&' and F.stack(b['e']) and not F.stack(n['a']):
                    r = 'the local "%s"' % F.stack(b['e'])
            if r and not F.stack(n['a']):
                c.viol('view', at(f, n), 'a member or global keeps a reference to %s' % r)
    prog.visit(f['body'], v)


def vecish(t):
    t = bare(t)
    return t.startswith(('std::vector<', 'std::deque<', 'std::basic_string<', 'boost::container::flat_', 'std::unordered_'))


def walks(c, P, f, F):
    """no change of a list while walking it, unless the walk ends or continues from a valid position"""
    def leaves(chain):
        # chain: [(block, index)] from the innermost outwards, up to the loop body
        for blk, i in chain:
            for s in blk[i + 1:]:
                k = s.get('k') if isinstance(s, dict) else None
                if k in ('break', 'ret', 'throw'):
                    return True
                if k == 'ex' and strip(s.get('e') or {}) and strip(s['e']).get('k') == 'throw':
                    return True
        return False

    def reseats(chain, it):
        for blk, i in chain:
            for s in blk[i + 1:]:
                hit = []

                def v(n):
                    if n.get('k') == 'asg' and strip(n['a']).get('k') == 'var' and strip(n['a'])['id'] == it:
                        hit.append(n)
                    if n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None and strip(n['obj']).get('k') == 'var' and \
                            strip(n['obj'])['id'] == it:
                        hit.append(n)
                prog.visit(s, v)
                if hit:
                    return True
        return False

    def mutations(n, chain, f_, top=False):
        """(call, chain, used) for the calls in the statements of n"""
        if isinstance(n, list):
            for i, s in enumerate(n):
                mutations(s, [(n, i)] + chain, f_)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'lambda':
            return
        if k == 'blk':
            mutations(n.get('b') or [], chain, f_)
            return
        if k == 'call' and n.get('obj') is not None:
            f_(n, chain)
        if k == 'ret' or k == 'throw':
            return
        for v in n.values():
            if isinstance(v, list) and v and isinstance(v[0], dict) and v[0].get('k') in ('decl', 'ex', 'if', 'for', 'while', 'rfor', 'ret', 'decls', 'blk', 'try', 'sdecl', 'break'):
                mutations(v, chain, f_)
            elif isinstance(v, (dict, list)):
                if isinstance(v, dict):
                    mutations(v, chain, f_)
                else:
                    for x in v:
                        mutations(x, chain, f_)

    def v(n):
        if n.get('k') == 'rfor':
            rng = strip(n.get('r'))
            if not rng or rng.get('k') not in ('var', 'mem', 'gvar', 'idx', 'call', 'un'):
                return
            if rng.get('k') == 'call' and not (rng.get('op') in ('[]', '*', '->') or last(rng.get('name')) == 'at'):
                return
            c.sites += 1
            kk = key(rng)
            t = rng.get('t') or n.get('rt') or ''
            err = []

            def m(x, chain):
                if key(x['obj']) != kk:
                    return
                w = last(x.get('name'))
                bad = w in SHRINK or (w in GROW or x.get('op') in ('[]', '=') and bare(t).startswith('std::unordered_') or x.get('op') == '=') and (
                    vecish(t) or x.get('op') == '=')
                if w in SHRINK or bad:
                    if not leaves(chain):
                        err.append((x, w))
            mutations(n['b'], [], m)
            for x, w in err:
                c.viol('walk', at(f, x), 'the list being walked is changed by %s and the walk goes on' % w)
            if not err:
                c.ok('walk', '%s: line %s' % (f['n'], n.get('l')))
        if n.get('k') in ('for', 'while') and n.get('b'):
            c.sites += 1
            err = []

            def m(x, chain):
                if last(x.get('name')) != 'erase' or not x['args'] or not x['args'][0]:
                    return
                a = strip(x['args'][0])
                while a and a.get('k') == 'ctor' and len(a['args']) == 1:
                    a = strip(a['args'][0])
                if not a or a.get('k') != 'var' or 'iterator' not in (a.get('t') or '').lower():
                    return
                # is the position used again by the loop itself?
                again = []

                def u(y):
                    if y.get('k') == 'var' and y['id'] == a['id']:
                        again.append(y)
                prog.visit([n.get('c'), n.get('inc')], u)
                own = F.own.get(a['id'])
                if not again:
                    return
                if not chain:
                    return
                blk, i = chain[0]
                st_ = blk[i]
                # "it = list.erase(it)" and the like
                res = []

                def w(y):
                    if y.get('k') == 'asg' and strip(y['a']).get('k') == 'var' and strip(y['a'])['id'] == a['id']:
                        res.append(y)
                    if y.get('k') == 'call' and y.get('op') == '=' and y.get('obj') is not None and strip(y['obj']).get('k') == 'var' and strip(y['obj'])['id'] == a['id']:
                        res.append(y)
                prog.visit(st_, w)
                if not res and not leaves(chain) and not reseats(chain, a['id']):
                    err.append(x)
            mutations(n['b'], [], m)
            for x in err:
                c.viol('walk', at(f, x), 'the walk continues from a position that was erased')
            if not err:
                c.ok('walk', '%s: line %s' % (f['n'], n.get('l')))
    prog.visit(f['body'], v)


def members(c, P):
    """members that refer to something else"""
    for key_, r in sorted(P.recs.items(), key=lambda x: str(x[0])):
        cls = r['n']
        short = cls.split('::')[-1]
        ctors = [f for f in P.fns.values() if f.get('cls') == cls and f['n'].split('::')[-1] == short and f.get('inits') is not None]
        for fl in r['fields']:
            t = fl['t']
            if not (fl.get('ref') or t.rstrip().endswith(('*', '&')) or VIEW.match(t)):
                continue
            if ident(t.replace('std::reference_wrapper<', '').rstrip('>')) or ident(t):
                # has to be bound to the caller's object, not to a copy of it
                for f in ctors:
                    F = Fn(f)
                    for i in f['inits'] or []:
                        if i.get('f') == fl['n']:
                            c.sites += 1
                            s = F.stack(i['e']) if not t.rstrip().endswith('*') else None
                            if s:
                                c.viol('member', (f.get('file'), i.get('l') or f.get('l'), f['n']),
                                       '%s refers to "%s", a copy that ends with the constructor' % (fl['n'], s))
                            else:
                                c.ok('member', '%s::%s is bound to an object that lives on' % (short, fl['n']))
                continue
            for f in ctors:
                F = Fn(f)
                for i in f['inits'] or []:
                    if i.get('f') != fl['n']:
                        continue
                    e = strip(i['e'])
                    c.sites += 1
                    ids = []

                    def u(y):
                        if y.get('k') == 'var' and y['id'] in F.own:
                            ids.append(y)
                    prog.visit(e, u)
                    if ids and kept_class(P, cls):
                        c.viol('member', (f.get('file'), i.get('l') or f.get('l'), f['n']),
                               '%s of %s refers to the caller\'s "%s" instead of holding it' % (fl['n'], short, ids[0]['n']))
                    else:
                        c.ok('member', '%s::%s' % (short, fl['n']))


def kept_class(P, cls):
    """objects of the class live on after the call that creates them"""
    short = cls.split('::')[-1]
    hit = []
    pat = re.compile(r'(^|[^\w])%s([^\w]|$)' % re.escape(cls))

    def v(n):
        if hit:
            return False
        if n.get('k') == 'call' and last(n.get('name')) in ('make_unique', 'make_shared') and pat.search(n.get('ta') or ''):
            hit.append(n)
        if n.get('k') in ('new', 'sdecl') and pat.search(str(n.get('t'))):
            hit.append(n)
    for f in P.fns.values():
        if f.get('body') is not None:
            prog.visit(f['body'], v)
            if hit:
                return True
    return any(pat.search(g['t']) for g in P.globals.values()) or \
        any(pat.search(fl['t']) for r in P.recs.values() if r['n'] != cls for fl in r['fields']) or \
        any(b.get('n', b) == cls if isinstance(b, dict) else b == cls for r in P.recs.values() for b in r.get('bases') or []) and \
        any(kept_class(P, r['n']) for r in P.recs.values() if cls in [b.get('n') if isinstance(b, dict) else b for b in r.get('bases') or []])
