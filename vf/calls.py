"""Models of calls: repository functions (inlined through the resolved call
graph), interface calls (uninterpreted), and the standard library surface."""
import re

from .term import *
from .heap import *
from .interp import *
from .interp import Interp as Base

PURE = ('get', 'is', 'has')
DBUS_THROW = ('sdbusplus::bus::bus::call', 'sdbusplus::bus::bus::call_noreply',
              'sdbusplus::message::message::read', 'sdbusplus::message::message::unpack')
IGNORED_STREAMS = ('std::cerr', 'std::cout', 'std::clog')


def is_bus(t):
    """connections and the event loop: their identity matters, not their contents"""
    return base_t(t).startswith(('sdbusplus::bus', 'boost::asio::io_context', 'sdbusplus::asio'))


def lastcomp(n):
    d = 0
    i = len(n) - 1
    m = re.search(r'operator\s*(\(\)|\[\]|->|<=>|<<|>>|[<>=!+\-*/&|^~%]+=?)$', n)
    if m:
        return n[m.start():]
    m = re.search(r'(?<![\w])operator [A-Za-z_].*$', n)      # a conversion
    if m:
        return n[m.start():]
    while i > 0:
        c = n[i]
        if c == '>':
            d += 1
        elif c == '<':
            d -= 1
        elif c == ':' and d == 0 and n[i - 1] == ':':
            return n[i + 1:]
        i -= 1
    return n


MOVES = {'operator=', 'push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'assign'}


def method_root(P, key):
    """short name of the (base-most) virtual method"""
    m = P.mkey.get(key)
    return m[1]['n'] if m else None


READALG = frozenset(('find', 'find_if', 'find_if_not', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'min_element',
                     'max_element', 'accumulate', 'reduce', 'equal', 'distance', 'lower_bound', 'upper_bound', 'next',
                     'prev', 'begin', 'end', 'cbegin', 'cend', 'advance', 'size', 'empty', 'binary_search', 'mismatch',
                     'search', 'includes', 'is_sorted', 'adjacent_find', 'operator==', 'operator!=', 'operator<',
                     'move', 'forward', 'addressof', 'get', 'to_address', 'min', 'max', 'minmax_element', 'make_pair', 'tie'))
DESTALG = frozenset(('copy', 'copy_if', 'copy_n', 'transform', 'replace_copy', 'reverse_copy', 'merge', 'set_union',
                     'set_difference', 'set_intersection', 'partial_sum', 'inclusive_scan'))


class Calls(Base):
    def log_sink(self, l):
        return l.op == 'G' and l.a[1] in IGNORED_STREAMS

    # ---------------------------------------------------------------- dispatch
    def niebloid(self, e):
        """a call of a std::ranges algorithm object as the call of a function"""
        r = self.niebs.get(id(e))
        if r is None:
            m = (e['obj'] or {}).get('n', '').split('::')[-1] if e.get('obj') else ''
            args, proj = list(e['args']), None
            std = lambda a: a is not None and a['k'] == 'ilist' and not a.get('e') and \
                (a.get('rec') or '') in ('std::identity', 'std::less', 'std::ranges::less', 'std::equal_to', 'std::ranges::equal_to')
            k = 2 if args and 'iterator' in ((args[0] or {}).get('t') or '') else 1
            rest = args[k:]
            if rest and std(rest[-1]):
                rest.pop()
            elif len(rest) == 2 and m not in ('for_each', 'transform', 'copy_if', 'copy', 'fill'):
                proj = rest.pop()
            rest = [a for a in rest if not std(a)]
            r = dict(e, name='std::ranges::' + m, args=args[:k] + rest + ([proj] if proj is not None else []), proj=proj is not None,
                     cm=False, op=None, oc=None, oc_t=None, obj=None, fn='ranges:' + m)
            if rest and len(rest) + k < len(args):
                r['pf'] = (e.get('pf') or '')[:k] + 'v' * len(rest + [proj] * (proj is not None))
            r = (r, e)
            self.niebs[id(e)] = r
        return r[0]

    def call(self, e, st, fr):
        if e.get('op') == '()' and (e.get('oc') or '').startswith('std::ranges::__') and (e.get('obj') or {}).get('k') == 'gvar':
            e = self.niebloid(e)
        name = e.get('name')
        if not name:
            out = []
            for s, c in self.ev(e['callee'], st, fr) if e.get('callee') else [(st, self.opq('callee', e, fr))]:
                if s.sig:
                    out.append((s, None))
                    continue
                cur = self.evs(e['args'], s, fr)
                for s2, vs in cur:
                    if s2.sig:
                        out.append((s2, None))
                    else:
                        if self.pol.uninit and any(x.op == 'uninit' for x in walk(c)):
                            s2, _ = self.effect(s2, fr, e, 'call', 'through a pointer', c, vs)
                        out += self.call_clo(c, vs, s2, fr)
            return out
        op = e.get('op')
        if op == '<<' and (base_t(e.get('t')).startswith(('std::basic_ostream', 'std::basic_ofstream'))):
            return self.stream_out(e, st, fr)
        f = self.P.fns.get(e.get('fn'))
        if e.get('repo') and (f is not None or e.get('virt')):
            return self.repo_call(e, f, st, fr)
        if e.get('oc') == '' or (op == '()' and e.get('obj') is not None and 'lambda' in base_t(e.get('oc_t'))):
            return self.closure_call(e, st, fr)
        if op == '()' and e.get('obj') is not None and base_t(e.get('oc_t')).startswith('std::function'):
            return self.closure_call(e, st, fr)
        m = lastcomp(name)
        out = []
        if e.get('obj') is not None:
            objs = []
            if e.get('arrow'):
                for s, p in self.ev(e['obj'], st, fr):
                    objs += [(s, None)] if s.sig else self.deref(p, s)
            else:
                objs = self.lv(e['obj'], st, fr)
        else:
            objs = [(st, None)]
        for s, ol in objs:
            if s.sig:
                out.append((s, None))
                continue
            for s2, args in self.callargs(e, s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                if self.pol.access:
                    # what a library call is given, or called on, is read by it
                    for l in [a[1] for a in args if isinstance(a, tuple)] + ([ol] if ol is not None and m != 'operator=' else []):
                        if l.op == 'F' and l.a[1] in self.pol.access:
                            s2 = self.effect(s2, fr, e, 'rd', l.a[1], None, ())[0]
                r = self.std_call(e, name, m, ol, args, s2, fr)
                if m in MOVES:
                    for i, a in enumerate(args):
                        if isinstance(a, tuple) and a[0] == 'ref' and a[1] is not ol and moving(e['args'][i]):
                            r = [(x if x.sig else self.moved(x, a[1], e['args'][i]), y) for x, y in r]
                out += r
        return out

    def moved(self, st, l, node):
        """the local a value was moved out of is left empty"""
        if locroot(l).op != 'V':
            return st
        t = base_t(node.get('t') or '')
        if t == 'std::string' or t.startswith('std::basic_string<'):
            return st.put(l, C(''))
        if t.startswith(('std::vector<', 'std::list<', 'std::deque<', 'std::set<', 'std::unordered_set<')) or is_map(t):
            return st.put(l, T('empty'))
        if t.startswith(('std::unique_ptr', 'std::shared_ptr')):
            return st.put(l, NULL)
        return st

    def closure_call(self, e, st, fr):
        out = []
        for s, c in self.ev(e['obj'], st, fr):
            if s.sig:
                out.append((s, None))
                continue
            for s2, args in self.callargs(e, s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                out += self.call_clo(c, args, s2, fr)
        return out

    def stream_out(self, e, st, fr):
        if e.get('obj') is not None:
            left, right = e['obj'], e['args'][0]
        else:
            left, right = e['args'][0], e['args'][1]
        out = []
        for s, l in self.lv(left, st, fr):
            if s.sig:
                out.append((s, None))
                continue
            for s2, v in self.ev(right, s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                if v.op == 'fn':
                    v = C('\n') if v.a[1].endswith('endl') else C('')
                if v.op == 'c' and v.a[0] == 'i' and (right.get('t') or '').replace('const ', '').strip() == 'char':
                    v = C(chr(int(v.a[1]) & 0x7f))
                if self.log_sink(l):
                    if self.pol.keep_log == 'all':
                        s2, _ = self.effect(s2, fr, e, 'log', 'cerr', None, (v,))
                elif l.op in ('V',):
                    old = self._ld(s2, l)
                    if is_str(old) or old.op in ('cat', 'tostr', 'ite', 'phi', 'catl') or \
                            old.op in ('rd', 'sym', 'sel') and 'stringstream' in (left.get('t') or ''):
                        sv = v if self.stringy(right, v) else tostr(v)
                        s2 = s2.put(l, cat(old, sv))
                    elif self.pol.keep_log:
                        s2, _ = self.effect(s2, fr, e, 'out', 'out', l, (v if self.stringy(right, v) or old.op == 'mut' else tostr(v),))
                else:
                    if self.pol.keep_log:
                        s2, _ = self.effect(s2, fr, e, 'out', 'out', l, (v if self.stringy(right, v) else tostr(v),))
                out.append((s2, ('l', l)))
        return out

    def stringy(self, e, v):
        return is_str(v) or is_string(e.get('t')) or v.op in ('cat', 'tostr')

    # ---------------------------------------------------------------- repo functions
    def repo_call(self, e, f, st, fr):
        name = e['name']
        short = lastcomp(name)
        out = []
        isop = any(suffix(name, o) for o in self.pol.opaque)
        if e.get('obj') is not None:
            objs = []
            if e.get('arrow'):
                for s, p in self.ev(e['obj'], st, fr):
                    objs += [(s, None)] if s.sig else self.deref(p, s)
            else:
                objs = self.lv(e['obj'], st, fr)
        else:
            objs = [(st, None)]
        for s, ol in objs:
            if s.sig:
                out.append((s, None))
                continue
            for s2, args in self.callargs(e, s, fr):
                if s2.sig:
                    out.append((s2, None))
                    continue
                g, dyn = f, None
                if e.get('virt'):
                    g, dyn = self.dispatch(e, f, ol, fr)
                elif ol is not None and fr.this is ol:
                    dyn = fr.dyn
                if g is not None and g.get('defaulted') and short in ('operator==', 'operator!=') and ol is not None and len(args) == 1:
                    b = self._ld(s2, args[0][1]) if isinstance(args[0], tuple) else args[0]
                    v = eq(self._ld(s2, ol), b)
                    out += self.V_(s2, v if short == 'operator==' else lnot(v))
                    continue
                if g is not None and g.get('body') is not None and not isop:
                    r = self.inline(g, ol if not g.get('static') else None, args, s2, fr, dyn)
                    if r is not None:
                        out += r
                        continue
                out += self.opaque_call(e, short, ol, args, s2, fr)
        return out

    def dispatch(self, e, f, ol, fr):
        key = e['fn']
        cls = None
        if ol is not None:
            if ol is fr.this and fr.dyn:
                cls = fr.dyn
            elif ol.op == 'D' and ol.a[0].op == 'new':
                cls = ol.a[0].a[0]
            elif ol.op == 'V' and ol.a[0] == '#c':
                cls = fr.dyn
        if cls:
            g = self.final_over(key, cls)
            if g is not None:
                return g, cls
        ov = self.P.all_over(key)
        if not ov and f is not None and f.get('body'):
            return f, (cls or None)
        if self.pol.uninit and len(ov) == 1 and not (f is not None and f.get('body')):
            # the only implementation
            g = self.P.fns.get(next(iter(ov)))
            if g is not None:
                return g, None
        return None, None

    def final_over(self, key, cls):
        m = self.P.mkey.get(key)
        if not m:
            return None
        root = m[1]['n']
        work = [cls]
        while work:
            c = work.pop(0)
            r = self.P.recname.get(c)
            if not r:
                continue
            for mm in r['methods']:
                if mm['key'] == key or key in self.ovchain(mm['key']):
                    g = self.P.fns.get(mm['key'])
                    if g is not None:
                        return g
            work += r['bases']
        return None

    def ovchain(self, key):
        out, w = set(), [key]
        while w:
            k = w.pop()
            m = self.P.mkey.get(k)
            if m:
                for b in m[1]['ov']:
                    if b not in out:
                        out.add(b)
                        w.append(b)
        return out

    def opaque_call(self, e, short, ol, args, st, fr):
        vs = self.vals(args, st)
        obj = addr(ol) if ol is not None else NULL
        pure = (short.startswith(PURE) and short[3 if short.startswith(('get', 'has')) else 2:][:1].isupper()) or e.get('cm')
        if short in getattr(self.pol, 'impure', ()):
            pure = False
        out = []
        thr = any(suffix(e['name'], t) for t in self.pol.throws)
        if thr:
            # the call may fail instead of completing
            at = T('ok', T('call', short, obj, tuple(vs)))
            res = []
            for f, b in st.facts.fork(at):
                s = st.withf(f)
                if not b:
                    res.append((s.signal('thr', T('exc', '?', T('call', short))), None))
                else:
                    res += self._opaque2(e, short, ol, obj, args, vs, pure, s, fr)
            return res
        return self._opaque2(e, short, ol, obj, args, vs, pure, st, fr)

    def _opaque2(self, e, short, ol, obj, args, vs, pure, st, fr):
        vs = [self.argval(e, i, args, v) for i, v in enumerate(vs)]
        sn = self.pol.snap.get(short)
        if sn:
            # what these locations hold when the call is made
            st, _ = self.effect(st, fr, e, 'snap', 'snap:' + short, None, tuple(st.load(l) for l in sn))
        if pure and not self.outargs(e, args, vs):
            if short in getattr(self.pol, 'nan', ()):
                return [(st, ('v', NAN))]
            v = T('get', short, obj, tuple(vs))
            self.ln.setdefault(v, (fr.file, e.get('l'), fr.fn.get('n')))
            if (e.get('t') or '').endswith('&'):
                return [(st, ('l', T('val', v)))]
            return [(st, ('v', v))]
        s, n = st.tick(('c', short))
        s, ef = self.effect(s, fr, e, 'call', short, obj, vs)
        for i, l in self.outargs(e, args, vs):
            # an accumulator keeps what it held before the call
            old = s.load(l)
            ws = vs
            if any(x.op == 'phi' for x in walk(old)) if old is not None and old.m else False:
                ws = list(vs)
                ws[i] = T('outarg', old)
            s = s.put(l, T('out', short, i, obj, tuple(ws), n))
        return [(s, ('v', T('res', short, obj, tuple(vs), n)))]

    def argval(self, e, i, args, v):
        pf = e.get('pf') or ''
        f = pf[i] if i < len(pf) else 'v'
        if f == 'm' and isinstance(args[i], tuple):
            if args[i][1].op in ('G', 'D') and is_bus((e['args'][i] or {}).get('t')):
                return addr(args[i][1])
            return v if v.op in ('clo', 'fn') else T('outarg')
        if v.op == 'addr':
            return T('outarg') if v.a[0].op == 'V' else v
        return v

    def outargs(self, e, args, vs):
        pf = e.get('pf') or ''
        out = []
        for i, a in enumerate(args):
            f = pf[i] if i < len(pf) else 'v'
            if f == 'm' and isinstance(a, tuple):
                if '(lambda' in str((e['args'][i] or {}).get('t')) or (e['args'][i] or {}).get('k') == 'fnref' or is_bus((e['args'][i] or {}).get('t')):
                    continue
                out.append((i, a[1]))
            elif f in 'p' and not isinstance(a, tuple) and a.op == 'addr':
                out.append((i, a.a[0]))
        return out

    # ---------------------------------------------------------------- std library
    def V_(self, st, v):
        return [(st, ('v', v))]

    def L_(self, st, l):
        return [(st, ('l', l))]

    def std_call(self, e, name, m, ol, args, st, fr):
        oc = e.get('oc') or ''
        oct_ = base_t(e.get('oc_t'))
        if e.get('arrow'):
            oct_ = oct_[:-1].strip() if oct_.endswith('*') else oct_
            oct_ = base_t(oct_)
        r = None
        if name in DBUS_THROW and self.tryd > 0:
            o = self._ld(st, ol) if ol is not None else NULL
            at = T('ok', T('call', m, o if o.op in ('mut', 'newcall', 'reply') else addr(ol), tuple(
                x for x in self.vals(args, st) if x.op in ('mut', 'newcall', 'reply'))))
            out = []
            for f, b in st.facts.fork(at):
                s = st.withf(f)
                if b:
                    out += self.std_call2(e, name, m, ol, args, s, fr, oc, oct_)
                else:
                    out.append((s.signal('thr', T('exc', 'sdbusplus::exception::exception', C(m))), None))
            return out
        return self.std_call2(e, name, m, ol, args, st, fr, oc, oct_)

    def std_call2(self, e, name, m, ol, args, st, fr, oc, oct_):
        v = self.vals(args, st)
        r = None
        if ol is not None:
            if 'nlohmann' in oc:
                r = self.m_json(e, m, ol, args, v, st, fr)
            elif 'iterator' in oc or '_Node' in oc or 'iter_impl' in oc:
                r = self.m_iter(e, m, ol, args, v, st, fr)
            elif is_map(oct_) or is_seq(oct_):
                r = self.m_cont(e, m, ol, args, v, st, fr, oct_)
            elif is_string(oct_) or oc in ('std::basic_string', 'std::basic_string_view', 'std::filesystem::path'):
                r = self.m_string(e, m, ol, args, v, st, fr)
            elif 'ptr' in oc.split('::')[-1] or oc in ('std::optional', 'std::reference_wrapper') or '_Optional' in oc:
                r = self.m_ptr(e, m, ol, args, v, st, fr, oc)
            elif oc.startswith('std::chrono'):
                r = self.m_chrono(e, m, ol, args, v, st, fr, oct_)
            elif 'stream' in oc or oc.endswith('basic_ios'):
                r = self.m_stream(e, m, ol, args, v, st, fr)
            elif m == 'operator=' or oc in ('std::pair', 'std::tuple', 'std::variant'):
                r = self.m_misc(e, m, ol, args, v, st, fr, oc)
            if r is None and m == 'operator=':
                r = self.m_misc(e, m, ol, args, v, st, fr, oc)
            if r is not None:
                return r
            return self.m_other(e, name, m, ol, args, v, st, fr, oc)
        r = self.std_free(e, name, m, args, v, st, fr)
        if r is not None:
            return r
        return self.m_other(e, name, m, None, args, v, st, fr, oc)

    # -- generic object method of an unmodelled class
    def m_other(self, e, name, m, ol, args, v, st, fr, oc):
        if 'phosphor::logging' in name or name in ('fprintf', 'printf', 'fflush', 'std::flush', 'perror'):
            if self.pol.keep_log == 'all':
                st, _ = self.effect(st, fr, e, 'log', m, None, ())
            return self.V_(st, NULL)
        if e.get('nr') or name in ('exit', 'std::exit', 'abort', 'std::abort'):
            s, _ = self.effect(st, fr, e, 'exit', m, None, v)
            return [(s.signal('exit', NULL), None)]
        vs = [self.argval(e, i, args, x) for i, x in enumerate(v)]
        if oc.startswith(('sdbusplus::message', 'sdbusplus::bus')) or 'sdbusplus' in name:
            return self.m_dbus(e, name, m, ol, args, v, vs, st, fr)
        if ol is None:
            pure = not any(True for _ in self.outargs(e, args, v))
            if name.startswith('std::'):
                st = self.stirred(e, v, st, fr)
            its = [x for x in v if x.op == 'it' and isinstance(x.a[1], T) and x.a[1].op in ('V', 'F', 'D', 'G', 'I')]
            if name.startswith('std::') and its and m not in READALG:
                # an algorithm that writes through its iterators
                if m in DESTALG:
                    its = [x for x in its if x is v[-1]] or [x for x in its if x.a[1] is its[-1].a[1]]
                s = st
                for cl in dict.fromkeys(x.a[1] for x in its):
                    old = self._ld(s, cl)
                    whole = [x for x in its if x.a[1] is cl]
                    if m == 'replace' and len(whole) == 2 and whole[0].a[0] == 'begin' and whole[1].a[0] == 'end':
                        s = s.put(cl, T('mut', m, old, tuple(x for x in v if x.op != 'it')))
                    else:
                        s = s.put(cl, self.opq('std::' + m, e, fr))
                return self.V_(s, self.opq('std::' + m, e, fr))
            if m == 'zero' and not vs and name.startswith('std::chrono::'):
                return self.V_(st, ZERO)
            if name.startswith(('std::', 'boost::asio::error')) and pure or name in ('pow', 'fabs', 'sqrt'):
                return self.V_(st, T('f', m, *vs))
            s, n = st.tick(('c', m))
            s, ef = self.effect(s, fr, e, 'call', name, None, vs)
            for i, l in self.outargs(e, args, v):
                s = s.put(l, T('out', m, i, NULL, tuple(vs), n))
            return self.V_(s, T('res', m, NULL, tuple(vs), n))
        o = self._ld(st, ol)
        if oc.startswith('std::') and oc.split('<')[0].split('::')[-1] in LOCKS and o.op == 'lockguard':
            if m in ('lock', 'lock_shared') and not o.a[1]:
                for x in o.a[0]:
                    st, _ = self.effect(st, fr, e, 'lock', 'lock_shared' if o.a[2] == 'shared_lock' else 'lock', x, ())
                return self.V_(st.put(ol, T('lockguard', o.a[0], 1, o.a[2])), NULL)
            if m == 'unlock':
                return self.V_(self.unlock(st, fr, e, o).put(ol, T('lockguard', o.a[0], 0, o.a[2])), NULL)
            if m == 'release':
                return self.V_(st.put(ol, T('lockguard', (), 0, o.a[2])), T('get', 'mutex', o, ()))
        if oc.startswith('std::') and oc.split('<')[0].split('::')[-1] in MUTEXES and m in ('lock', 'unlock', 'lock_shared', 'unlock_shared'):
            st, _ = self.effect(st, fr, e, 'lock' if m.startswith('lock') else 'unlock', m, ol, ())
            return self.V_(st, NULL)
        if e.get('cm') or m in ('expiry', 'good', 'what', 'message', 'value', 'get') or m.startswith('operator bool'):
            ob = addr(ol) if ol.op in ('D', 'F', 'G', 'I') else o
            if m == 'operator bool':
                if oc == 'boost::system::error_code':
                    return self.V_(st, lnot(eq(o, ZERO)))
                return self.V_(st, T('has', o, C('#ok')))
            return self.V_(st, T('get', m, ob, tuple(vs)))
        s = st
        if ol.op == 'V' and m not in ('run', 'stop'):
            for i, l in self.outargs(e, args, v):
                s = s.put(l, T('out', m, i, o, tuple(vs), 0))
            s = s.put(ol, T('mut', m, o, tuple(vs)))
            return self.V_(s, T('res', m, o, tuple(vs), 0))
        s, n = s.tick(('c', m))
        s, ef = self.effect(s, fr, e, 'call', m, addr(ol), vs)
        for i, l in self.outargs(e, args, v):
            s = s.put(l, T('out', m, i, addr(ol), tuple(vs), n))
        return self.V_(s, T('res', m, addr(ol), tuple(vs), n))

    def m_dbus(self, e, name, m, ol, args, v, vs, st, fr):
        if m in ('new_method_call',):
            return self.V_(st, T('newcall', *v))
        if m in ('new_default', 'new_system', 'new_user', 'new_bus'):
            return self.V_(st, T('bus', m))
        if m == 'append':
            o = self._ld(st, ol)
            for x in v:
                o = T('mut', 'append', o, (x,))
            return self.V_(st.put(ol, o), NULL)
        if m in ('call', 'call_noreply', 'call_async'):
            s, n = st.tick(('c', 'call'))
            s, ef = self.effect(s, fr, e, 'dbus', m, addr(ol), v)
            return self.V_(s, T('reply', v[0]))
        if m == 'read':
            o = self._ld(st, ol)
            k = 0
            b = o
            if o.op == 'mut' and o.a[0] == 'read':
                b, k = o.a[1], int(cval(o.a[2][0]))
            s = st
            for a in args:
                if isinstance(a, tuple):
                    s = s.put(a[1], T('msgf', b, k))
                k += 1
            s = s.put(ol, T('mut', 'read', b, (C(k),)))
            return self.V_(s, NULL)
        if m == 'unpack':
            return self.V_(st, T('msgf', self._ld(st, ol), 0))
        if ol is not None and (e.get('cm') or m.startswith(PURE)):
            return self.V_(st, T('get', m, addr(ol) if ol.op != 'val' else ol.a[0], tuple(vs)))
        if ol is None:
            return self.V_(st, T('f', m, *vs))
        # server property accessors: getter without argument, setter with
        if not v:
            return self.V_(st, T('get', m, addr(ol), ())) if m not in ('emit_object_added',) else \
                self.V_(self.effect(st, fr, e, 'call', m, addr(ol), ())[0], NULL)
        s, _ = self.effect(st, fr, e, 'call', m, addr(ol), vs)
        return self.V_(s, v[0] if v else NULL)

    # -- assignment operators and tuples
    def m_misc(self, e, m, ol, args, v, st, fr, oc):
        if m == 'operator=':
            o = self._ld(st, ol)
            if o.op == 'tie':
                s = st
                src = v[0]
                for i, l in enumerate(o.a[0]):
                    f = ('first', 'second')[i] if src.op != 'rec' or src.a[0] is rec0('pair') or True else None
                    x = getf(src, f) if len(o.a[0]) == 2 and not (src.op == 'rec' and any(k == 'get0' for k, _ in src.a[1])) else getf(src, 'get%d' % i)
                    s = s.put(l, x)
                return self.L_(s, ol)
            x = v[0] if v else NULL
            if base_t(e.get('oc_t')).startswith('std::optional') and e['args'] and \
                    not base_t((e['args'][0] or {}).get('t')).startswith('std::optional') and x is not NULL and \
                    'nullopt' not in str((e['args'][0] or {}).get('t')):
                x = T('some', x)
            if dur_period(e.get('oc_t')) is not None and isinstance(args[0], tuple):
                pass
            return self.L_(self.store(st, ol, x, e, fr), ol)
        if oc == 'std::pair' and m == 'swap':
            return None
        if oc == 'std::variant' and m == 'index':
            return self.V_(st, T('vindex', self._ld(st, ol)))
        return None

    # -- smart pointers and optional
    def m_ptr(self, e, m, ol, args, v, st, fr, oc):
        o = self._ld(st, ol)
        if m in ('operator->', 'get', 'operator*', 'value') or m.startswith('operator ') and 'bool' not in m:
            if oc in ('std::optional',) or '_Optional' in oc:
                # contents of the optional live at the optional's location
                if m == 'operator->':
                    return self.V_(st, addr(T('F', ol, '#opt')))
                return self.L_(st, T('F', ol, '#opt'))
            if m in ('operator->', 'get') and 'reference' not in oc:
                return self.V_(st, o)
            out = []
            for s, l in self.deref(o, st):
                out.append((s, ('l', l)))
            return out
        if m in ('operator bool', 'has_value'):
            return self.V_(st, self.ptr_true(o))
        if m == 'operator=':
            x = v[0]
            if oc == 'std::optional' or '_Optional' in oc:
                return self.m_misc(e, m, ol, args, v, st, fr, oc)
            if oc == 'std::reference_wrapper':
                x = addr(args[0][1]) if isinstance(args[0], tuple) and x.op != 'addr' else x
            s = self.store(st, ol, x, e, fr)
            return self.L_(s, ol)
        if m == 'emplace' and len(v) == 1 and (oc == 'std::optional' or '_Optional' in oc):
            return self.L_(self.store(st, ol, T('some', v[0]), e, fr), T('F', ol, '#opt'))
        if m == 'reset':
            return self.V_(self.store(st, ol, v[0] if v else NULL, e, fr), NULL)
        if m == 'release':
            return self.V_(self.store(st, ol, NULL, e, fr), o)
        if m == 'use_count':
            return self.V_(st, T('get', 'use_count', o, ()))
        if m == 'value_or':
            return self.V_(st, ite(self.ptr_true(o), optval(o), v[0]))
        return None

    # -- iterators
    def m_iter(self, e, m, ol, args, v, st, fr):
        o = self._ld(st, ol)
        if m in ('operator*', 'operator->'):
            out = []
            for s, l in self.deref(o, st):
                if m == 'operator*':
                    out.append((s, ('l', l)))
                else:
                    out.append((s, ('v', addr(l) if l.op != 'val' else T('addr', l))))
            return out
        if m in ('operator!=', 'operator=='):
            r = self.equal(o, v[0])
            return self.V_(st, r if m == 'operator==' else lnot(r))
        if m == 'operator=':
            return self.L_(self.store(st, ol, v[0], e, fr), ol)
        if m in ('operator++', 'operator--'):
            n = self.step(o, 1 if m == 'operator++' else -1)
            s = self.store(st, ol, n, e, fr)
            return self.V_(s, n if not args else o)
        if m in ('value', 'key'):
            out = []
            for s, l in self.deref(o, st):
                if m == 'value':
                    out.append((s, ('l', l)))
                else:
                    out.append((s, ('v', o.a[3] if o.a[0] == 'json' else getf(o.a[3], 'first'))))
            return out
        return None

    # -- nlohmann::json
    def m_json(self, e, m, ol, args, v, st, fr):
        if 'iter_impl' in (e.get('oc') or ''):
            return self.m_iter(e, m, ol, args, v, st, fr)
        o = self._ld(st, ol)
        if m in ('at', 'operator[]'):
            if m == 'at' and not (v[0].op in ('ix',) or (v[0].op == 'poly')):
                return self.at_fork(st, o, v[0], ('l', T('val', getat(o, v[0]))))
            if m == 'operator[]' and e.get('cm') and v[0].op in ('c', 'cat', 'tostr'):
                # undefined behaviour when the key is not there
                return self.at_fork(st, o, v[0], ('l', T('val', getat(o, v[0]))), '#missing-key')
            return self.L_(st, T('val', getat(o, v[0])) if ol.op == 'val' or o.op in ('rd', 'sym', 'at', 'el', 'sel', 'opq', 'res', 'f', 'first') else I(ol, v[0]))
        if m in ('count',):
            return self.V_(st, ite(has(o, v[0]), C(1), ZERO))
        if m == 'contains':
            return self.V_(st, has(o, v[0]))
        if m == 'find':
            return self.V_(st, T('it', 'json', ol, o, v[0]))
        if m in ('end', 'cend'):
            return self.V_(st, T('it', 'end', ol, o, NULL))
        if m in ('begin', 'cbegin'):
            return self.V_(st, T('it', 'begin', ol, o, NULL))
        if m == 'size':
            return self.V_(st, size(o))
        if m == 'empty':
            return self.V_(st, isempty(o))
        if m == 'get' or m.startswith('operator '):
            t = e.get('t')
            return self.json_to(e, o, t, st, fr)
        if m == 'get_to':
            if isinstance(args[0], tuple):
                t = (e['args'][0] or {}).get('t')
                out = []
                l = args[0][1]
                for s, r in self.json_to(e, o, t, st, fr, l):
                    if s.sig:
                        out.append((s, None))
                    else:
                        x = r[1] if r[0] == 'v' else s.load(r[1])
                        out.append((self.store(s, l, x, e, fr) if x.op != 'done' else s, ('l', l)))
                return out
        if m == 'value':
            return self.V_(st, ite(has(o, v[0]), self.jas(getat(o, v[0]), e.get('t')), v[1]))
        if m.startswith('is_'):
            return self.V_(st, T('has', o, C('#' + m)))
        if m == 'items':
            return self.V_(st, T('items', o))
        return None

    def jas(self, j, t):
        b = base_t(t)
        if b in INTT and b != 'bool':
            return T('as', 'int', j) if INTT[b] == 64 else T('icast', b, T('as', 'int', j))
        return T('fcast', j) if b == 'float' else j

    def json_to(self, e, o, t, st, fr, dst=None):
        b = base_t(t)
        f = None
        if b.startswith('pid_control'):
            for g in self.P.find('from_json'):
                if len(g['params']) == 2 and base_t(g['params'][1]['t']) == b:
                    f = g
        if f is not None and f.get('body'):
            if dst is None:
                dst = T('V', '#j', fr.depth, self.nix(e))
                st = st.setroot(dst, self.default(b))
            r = self.inline(f, None, [('ref', T('val', o)), ('ref', dst)], st, fr)
            if r is not None:
                return [(s, None if s.sig else ('v', s.load(dst))) for s, _ in r]
        return self.V_(st, self.jas(o, t))

    # -- containers
    def at_fork(self, st, c, k, res, exc='std::out_of_range'):
        out = []
        h = has(c, k)
        for f, b in st.facts.fork(h):
            s = st.withf(f)
            if b:
                out.append((s, res))
            else:
                out.append((s.signal('thr', T('exc', exc, k)), None))
        return out

    def m_cont(self, e, m, ol, args, v, st, fr, oct_):
        c = self._ld(st, ol)
        mp, sq, sett = is_map(oct_), is_seq(oct_), is_setc(oct_)
        if m == 'operator=':
            x = v[0]
            if x.op == 'make':
                x = T('empty')
            return self.L_(self.store(st, ol, x, e, fr), ol)
        if m in ('size', 'length'):
            return self.V_(st, size(c))
        if m == 'empty':
            return self.V_(st, isempty(c))
        if m == 'clear':
            return self.V_(self.store(st, ol, T('empty'), e, fr), NULL)
        if m in ('reserve', 'shrink_to_fit', 'rehash'):
            return self.V_(st, NULL)
        if m in ('begin', 'cbegin'):
            return self.V_(st, T('it', 'begin', ol, c, NULL))
        if m in ('end', 'cend'):
            return self.V_(st, T('it', 'end', ol, c, NULL))
        if m in ('rbegin', 'rend'):
            return self.V_(st, T('it', m, ol, c, NULL))
        if m == 'front':
            return self.L_(st, T('val', getat(c, ZERO) if c.op in ('push', 'arrv') else T('front', c)))
        if m == 'back':
            return self.L_(st, T('val', c.a[1] if c.op == 'push' else T('back', c)))
        if m in ('pop_front', 'pop_back'):
            x = c.a[0] if c.op == 'push' and m == 'pop_back' else T(m, c)
            return self.V_(self.store(st, ol, x, e, fr), NULL)
        if mp:
            if m in ('operator[]', 'at', 'find', 'count', 'contains', 'erase', 'emplace', 'try_emplace', 'insert',
                     'insert_or_assign', 'value'):
                k = v[0] if v else NULL
            if m == 'operator[]':
                h = has(c, k)
                d = st.facts.decide(h)
                if d is True:
                    return self.L_(st, I(ol, k))
                et = e.get('t')
                b = base_t(et)
                if is_ptr(b):
                    # null default never dereferenced: same pointer
                    cur = getat(c, k)
                    s = st.put(ol, upd(c, k, cur)) if ol.op != 'val' else st
                    return self.L_(s, I(ol, k))
                dv = self.default(et)
                cur = dv if d is False else ite(h, getat(c, k), dv)
                s = st.put(ol, upd(c, k, cur)) if ol.op != 'val' else st
                return self.L_(s, I(ol, k) if ol.op != 'val' else T('val', cur))
            if m == 'at':
                return self.at_fork(st, c, k, ('l', I(ol, k)))
            if m == 'find':
                return self.V_(st, T('it', 'find', ol, c, k))
            if m == 'count':
                return self.V_(st, ite(has(c, k), C(1), ZERO))
            if m == 'contains':
                return self.V_(st, has(c, k))
            if m == 'erase':
                if k.op == 'it':
                    if k.a[0] == 'find':
                        # erasing end() is undefined: the key is present
                        s = self.store(st, ol, delk(c, k.a[3]), e, fr)
                        return self.V_(s, T('it', 'opq', ol, c, k))
                    if k.a[0] == 'elem':
                        s = self.store(st, ol, T('erased', c, k.a[3]), e, fr)
                        return self.V_(s, T('it', 'next', ol, c, k.a[3]))
                    return self.V_(self.store(st, ol, self.opq('erase', e, fr), e, fr), self.opq('it', e, fr))
                if e.get('t') and not is_arith(base_t(e['t'])):
                    # erase(iterator): what follows is the next entry
                    return self.V_(self.store(st, ol, T('erased', c, k), e, fr), T('itnext', k))
                return self.V_(self.store(st, ol, delk(c, k), e, fr), ite(has(c, k), C(1), ZERO))
            if m in ('emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                if m == 'try_emplace' and len(v) == 1 and k.op != 'it':
                    x = self.default(self.second_type(oct_))
                elif len(v) == 2 and v[0].op != 'it':
                    x = v[1]
                elif len(v) == 1 and v[0].op != 'it':
                    k, x = getf(v[0], 'first'), getf(v[0], 'second')
                else:
                    return self.V_(self.store(st, ol, self.opq('insert', e, fr), e, fr), self.opq('insert', e, fr))
                if k.op == 'rec' or x.op == 'rec' and False:
                    pass
                nv = x if m == 'insert_or_assign' else ite(has(c, k), getat(c, k), x)
                s = self.store(st, ol, upd(c, k, nv), e, fr)
                return self.V_(s, pair(T('it', 'find', ol, s.load(ol), k), lnot(has(c, k))))
            if m == 'swap':
                return None
            return None
        # sequences and sets
        if m in ('operator[]', 'at'):
            k = v[0]
            l = I(ol, k)
            if m == 'at':
                n = size(c)
                out = []
                for f, b in st.facts.fork(lt(k, n)):
                    s = st.withf(f)
                    out.append((s, ('l', l)) if b else (s.signal('thr', T('exc', 'std::out_of_range', k)), None))
                return out
            b = c
            while b.op == 'upd':
                b = b.a[0]
            self.inbounds(e, fr, 'element', st.facts, k, size(b))
            return self.L_(st, l)
        if m == 'data':
            return self.V_(st, addr(ol))
        if m in ('push_back', 'emplace_back', 'push_front'):
            if len(v) == 1:
                x = v[0]
            else:
                ta = oct_[oct_.find('<') + 1:]
                if ta.startswith('std::pair'):
                    x = pair(*v) if len(v) == 2 else T('make', 'elem', *v)
                else:
                    et = self.elem_type(oct_)
                    r = self.P.recname.get(et)
                    if r and r.get('agg'):
                        x = self.default_rec(r)
                        for fd, y in zip(r['fields'], v):
                            x = setf(x, fd['n'], y)
                    elif not v:
                        x = self.default(et)
                    else:
                        x = T('make', et, *v)
            x = self.conv_elem(x, oct_, e)
            nc = T('push' if m != 'push_front' else 'pushf', c, x)
            s = self.store(st, ol, nc, e, fr)
            return self.L_(s, T('val', x)) if m == 'emplace_back' else self.V_(s, NULL)
        if m in ('insert', 'emplace') and sett and len(v) == 1 and v[0].op != 'it':
            s = self.store(st, ol, upd(c, v[0], v[0]), e, fr)
            return self.V_(s, pair(T('it', 'findv', ol, s.load(ol), v[0]), lnot(has(c, v[0]))))
        if m == 'insert' and len(v) >= 2 and v[-1].op == 'it' and v[-2].op == 'it':
            b, en = v[-2], v[-1]
            if b.a[0] == 'begin' and en.a[0] == 'end' and b.a[2] is en.a[2]:
                return self.V_(self.store(st, ol, T('union', c, b.a[2]) if c.op != 'empty' else b.a[2], e, fr), NULL)
        if m == 'find':
            return self.V_(st, T('it', 'findv', ol, c, v[0]))
        if m == 'count':
            return self.V_(st, ite(has(c, v[0]), C(1), ZERO))
        if m == 'contains':
            return self.V_(st, has(c, v[0]))
        if m == 'erase':
            k = v[0]
            if k.op == 'it':
                if k.a[0] in ('findv', 'find'):
                    return self.V_(self.store(st, ol, delk(c, k.a[3]), e, fr), T('it', 'opq', ol, c, k))
                if k.a[0] == 'elem':
                    return self.V_(self.store(st, ol, T('erased', c, k.a[3]), e, fr), T('it', 'next', ol, c, k.a[3]))
                return self.V_(self.store(st, ol, self.opq('erase', e, fr), e, fr), NULL)
            if e.get('t') and not is_arith(base_t(e['t'])):
                return self.V_(self.store(st, ol, T('erased', c, k), e, fr), T('itnext', k))
            return self.V_(self.store(st, ol, delk(c, k), e, fr), ite(has(c, k), C(1), ZERO))
        if m in ('resize', 'assign'):
            if len(v) == 2 and m == 'assign' and v[0].op == 'it':
                return self.V_(self.store(st, ol, v[0].a[2], e, fr), NULL)
            return self.V_(self.store(st, ol, T('resize', c, *v), e, fr), NULL)
        return None

    def elem_type(self, t):
        b = base_t(t)
        i = b.find('<')
        d = 0
        for j in range(i + 1, len(b)):
            if b[j] == '<':
                d += 1
            elif b[j] == '>':
                if d == 0:
                    return b[i + 1:j].strip()
                d -= 1
            elif b[j] == ',' and d == 0:
                return b[i + 1:j].strip()
        return b[i + 1:-1]

    def second_type(self, t):
        """what a map maps to"""
        b = base_t(t)
        i = b.find('<')
        f = self.elem_type(t)
        return self.elem_type('x<' + b[b.index(f, i) + len(f):].lstrip(' ,'))

    def conv_elem(self, x, oct_, e):
        return x

    # -- strings
    def forked(self, st, x, f):
        """f for each case of the conditional value x"""
        if x.op != 'ite':
            return f(st, x)
        out = []
        for g, b in st.facts.fork(x.a[0]):
            out += f(st.withf(g), x.a[1] if b else x.a[2])
        return out

    def m_string(self, e, m, ol, args, v, st, fr):
        c = self._ld(st, ol)
        if m in ('c_str', 'data', 'str', 'string', 'native', 'view') or m.startswith('operator ') or m == 'operator basic_string_view':
            return self.V_(st, c)
        if m in ('empty',):
            return self.V_(st, isempty(c))
        if m in ('size', 'length'):
            return self.V_(st, size(c))
        if m in ('operator=', 'assign'):
            return self.L_(self.store(st, ol, v[0], e, fr), ol)
        if m in ('operator+=', 'append', 'push_back'):
            x = v[0]
            return self.L_(self.store(st, ol, cat(c, x), e, fr), ol)
        if m == 'clear':
            return self.V_(self.store(st, ol, C(''), e, fr), NULL)
        if m == 'compare' and len(v) == 1:
            return self.V_(st, T('strcmp', c, v[0]))
        if m in ('find', 'rfind'):
            if len(v) > 1 and not (is_num(v[1]) and cval(v[1]) in (0, 2 ** 64 - 1)):
                return self.V_(st, T('strfind', c, v[0], *v[1:]))
            x = v[0]
            if is_num(x):
                x = C(chr(int(cval(x))))
            if m == 'rfind' and len(v) > 1 and is_num(v[1]) and cval(v[1]) == 0:
                return self.V_(st, T('strfind0', c, x))
            return self.V_(st, T('strfind' if m == 'find' else 'strrfind', c, x))
        if m == 'substr':
            return self.forked(st, substr(c, *v), lambda s, x: self.V_(s, x))
        if m in ('starts_with', 'ends_with'):
            return self.V_(st, T('startswith' if m == 'starts_with' else 'endswith', c, v[0]))
        if m == 'contains':
            return self.V_(st, T('contains', c, v[0] if not is_num(v[0]) else C(chr(int(cval(v[0]))))))
        if m in ('operator==', 'operator!='):
            r = self.equal(c, v[0])
            return self.V_(st, r if m == 'operator==' else lnot(r))
        if m in ('begin', 'end'):
            return self.V_(st, T('it', m, ol, c, NULL))
        if m in ('back', 'front'):
            return self.V_(st, T(m, c))
        if m in ('operator[]', 'at'):
            return self.V_(st, getat(c, v[0]))
        if m in ('filename', 'stem', 'parent_path', 'extension'):
            return self.V_(st, T('f', m, c))
        if m == 'operator/=':
            return self.L_(self.store(st, ol, cat(c, C('/'), v[0]), e, fr), ol)
        if m in ('reserve', 'shrink_to_fit'):
            return self.V_(st, NULL)
        if m in ('pop_back', 'erase', 'insert', 'replace', 'resize'):
            if m == 'erase' and len(v) == 2 and v[0] is ZERO:
                # without its first characters
                return self.forked(st, substr(c, v[1]), lambda s, x: self.L_(self.store(s, ol, x, e, fr), ol))
            if m == 'erase' and len(v) == 1 and v[0].op != 'it' or m == 'resize' and len(v) == 1:
                return self.L_(self.store(st, ol, substr(c, ZERO, v[0]), e, fr), ol)
            return self.V_(self.store(st, ol, T('strmut', m, c, *v), e, fr), NULL)
        return None

    # -- chrono
    def m_chrono(self, e, m, ol, args, v, st, fr, oct_):
        if m == 'now' or (e.get('sm') and m == 'now'):
            return None
        o = self._ld(st, ol) if ol is not None else None
        if m == 'count':
            p = dur_period(oct_)
            return self.V_(st, div(o, C(p)) if p else T('opq', 'count'))
        if m == 'time_since_epoch':
            return self.V_(st, o)
        if m in ('operator+=', 'operator-='):
            x = add(o, v[0]) if m == 'operator+=' else sub(o, v[0])
            return self.L_(self.store(st, ol, x, e, fr), ol)
        if m == 'operator=':
            return self.L_(self.store(st, ol, v[0], e, fr), ol)
        if m == 'zero':
            return self.V_(st, ZERO)
        return None

    # -- streams
    def extract(self, st, l, to, t=None):
        """stream l >> to"""
        local = l.op == 'V'
        o = self._ld(st, l)
        v = T('fread', o if local else addr(l), 0)
        b = base_t(t) if t else ''
        if b in INTT and b != 'bool' and not any(x in b for x in ('long', '64', 'size_t', 'char')):
            v = T('icast', b, v)
        old = self._ld(st, to)
        if not self.pol.uninit and not any(x.op == 'rd' and x.a[0].op == 'G' for x in walk(old)):
            old = NULL
        if local:
            o = T('mut', 'read', o, ())
            st = st.put(l, o)
        if any(x.op in ('uninit', 'rd') for x in walk(old)):
            # a stream that is not good leaves its target alone
            v = ite(T('has', T('get', 'good', o if local else addr(l), ()), C('#ok')), v, old)
        return st.put(to, v)

    def m_stream(self, e, m, ol, args, v, st, fr):
        o = self._ld(st, ol)
        local = ol.op == 'V'
        if m == 'str':
            return self.V_(st, o)
        if m in ('operator bool', 'good', 'is_open', 'operator!', 'fail', 'eof', 'bad'):
            x = T('get', 'good' if m in ('operator bool', 'good', 'fail', 'operator!') else m, o if local else addr(ol), ())
            b = T('has', x, C('#ok'))
            return self.V_(st, b if m in ('operator bool', 'good', 'is_open') else lnot(b))
        if m == 'operator>>':
            a = args[0]
            if isinstance(a, tuple):
                return self.L_(self.extract(st, ol, a[1], e['args'][0].get('t')), ol)
            return self.L_(st, ol)
        if m in ('open', 'close', 'operator=', 'flush', 'write', 'precision', 'setf', 'clear', 'exceptions'):
            if m == 'operator=':
                if not local and self.pol.keep_log:
                    st, _ = self.effect(st, fr, e, 'file', m, ol, v)
                return self.L_(st.put(ol, v[0]), ol)
            if local:
                s = st.put(ol, T('mut', m, o, tuple(v[:1])))
                if self.pol.keep_log:
                    s, _ = self.effect(s, fr, e, 'file', m, ol, v)
                return self.V_(s, NULL)
            if self.pol.keep_log:
                st, _ = self.effect(st, fr, e, 'file', m, ol, v)
            return self.V_(st, NULL)
        return None

    # -- free functions
    def std_named(self, name, v, st, fr):
        m = lastcomp(name)
        v = [self._ld(st, a[1]) if isinstance(a, tuple) else a for a in v]
        r = self.pure_fn(m, v, {})
        return r if r is not None else T('f', m, *v)

    def pure_fn(self, m, v, e):
        if m == 'max' and len(v) == 2:
            return self.mx(v[0], v[1], True)
        if m == 'min' and len(v) == 2:
            return self.mx(v[0], v[1], False)
        if m in ('max', 'min') and len(v) == 1 and v[0].op == 'arrv':
            r = v[0].a[0][0]
            for x in v[0].a[0][1:]:
                r = self.mx(r, x, m == 'max')
            return r
        if m == 'clamp' and len(v) == 3:
            return ite(lt(v[0], v[1]), v[1], ite(lt(v[2], v[0]), v[2], v[0]))
        if m in ('isfinite',):
            return self.isfin(v[0])
        if m == 'isnan':
            return self.isnan(v[0])
        if m == 'isinf':
            return ite(self.isfin(v[0]), FALSE, lnot(self.isnan(v[0])))
        if m in ('abs', 'fabs') and len(v) == 1:
            return ite(lt(v[0], ZERO), neg(v[0]), v[0])
        if m in ('pow', 'powf') and len(v) == 2:
            if v[1].op == 'c' and v[1].a[1] in (0, 1):
                return C(1) if v[1].a[1] == 0 else v[0]
            return T('pow', v[0], v[1])
        if m in ('floor', 'trunc', 'round', 'ceil', 'sqrt', 'exp', 'log'):
            return T('f', m, v[0])
        if m == 'to_string':
            return tostr(v[0])
        return None

    def mx(self, a, b, big):
        # std::max(a,b): (a < b) ? b : a ; std::min(a,b): (b < a) ? b : a
        if a.op == 'inf' and len(a.a) > 1 and ((a.a[0] < 0) == big):
            return b if b is not NAN else a
        if b.op == 'inf' and len(b.a) > 1 and ((b.a[0] < 0) == big):
            return a
        c = self.cmp('<', a, b) if big else self.cmp('<', b, a)
        return ite(c, b, a)

    def isfin(self, x):
        if x is NAN or x.op == 'inf' and len(x.a) == 1:
            return FALSE
        if is_num(x) or x.op == 'inf':
            return TRUE
        if x.op == 'ite':
            return ite(x.a[0], self.isfin(x.a[1]), self.isfin(x.a[2]))
        return T('isfin', x)

    def isnan(self, x):
        if x is NAN:
            return TRUE
        if is_num(x) or x.op == 'inf':
            return FALSE
        if x.op == 'ite':
            return ite(x.a[0], self.isnan(x.a[1]), self.isnan(x.a[2]))
        return T('isnan', x)

    def std_free(self, e, name, m, args, v, st, fr):
        op = e.get('op')
        r = self.pure_fn(m, v, e) if not op else None
        if r is not None:
            return self.V_(st, r)
        if name.startswith('std::chrono') or any(dur_period((a or {}).get('t')) is not None for a in e.get('args') or ()):
            r = self.f_chrono(e, name, m, args, v, st, fr)
            if r is not None:
                return r
        if m == 'now' or name.endswith('::now'):
            s, n = st.tick('now')
            return self.V_(s, T('now', n))
        if op in ('==', '!=', '<', '>', '<=', '>=', '<=>') and len(v) == 2:
            if op == '<=>':
                return self.V_(st, T('spaceship', v[0], v[1]))
            return self.V_(st, self.cmp(op, v[0], v[1]))
        if op == '+' and len(v) == 2:
            return self.V_(st, cat(*[x if not is_num(x) else C(chr(int(cval(x)))) for x in v]))
        if op == '/' and 'filesystem' in name:
            return self.V_(st, cat(v[0], C('/'), v[1]))
        if m == 'back_inserter' and isinstance(args[0], tuple):
            return self.V_(st, T('it', 'into', args[0][1], FALSE))
        if m in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'launder'):
            if m in ('ref', 'cref', 'addressof'):
                return self.V_(st, addr(args[0][1]) if isinstance(args[0], tuple) else v[0])
            if isinstance(args[0], tuple):
                return self.L_(st, args[0][1])
            return self.V_(st, v[0])
        if m == 'swap' and len(args) == 2 and all(isinstance(a, tuple) for a in args):
            s = st.put(args[0][1], v[1]).put(args[1][1], v[0])
            return self.V_(s, NULL)
        if m == 'exchange' and len(args) == 2 and isinstance(args[0], tuple):
            return self.V_(st.put(args[0][1], v[1]), v[0])
        if m in ('make_pair',):
            return self.V_(st, pair(v[0], v[1]))
        if m == 'tie':
            if all(isinstance(a, tuple) for a in args):
                return self.V_(st, T('tie', tuple(a[1] for a in args)))
        if m in ('make_tuple', 'forward_as_tuple'):
            r = rec0('tuple')
            for i, x in enumerate(v):
                r = setf(r, 'get%d' % i, x)
            return self.V_(st, r)
        if m in ('make_unique', 'make_shared', 'allocate_shared'):
            return self.f_make(e, m, args, v, st, fr)
        if m == 'get' and len(v) == 1:
            ta = e.get('ta') or ''
            t0 = base_t((e['args'][0] or {}).get('t'))
            if t0.startswith('std::variant'):
                x = self.vget(ta, v[0], e.get('t'))
                # a reference to the value held
                return self.L_(st, T('val', x)) if isinstance(args[0], tuple) else self.V_(st, x)
            if t0.startswith(('std::pair', 'std::tuple')):
                i = int(re.match(r'(\d+)', ta).group(1)) if re.match(r'\d', ta) else 0
                f = ('first', 'second')[i] if t0.startswith('std::pair') else 'get%d' % i
                if isinstance(args[0], tuple):
                    return self.L_(st, F(args[0][1], f))
                return self.V_(st, getf(v[0], f))
        if m == 'get_if':
            p = v[0]
            src = st.load(p.a[0]) if p.op == 'addr' else T('rd', mkD(p))
            ty = base_t(e.get('t')).rstrip('*').strip()
            ty = base_t(ty)
            x = self.vget(ty, src, ty)
            return self.V_(st, ite(self.vis(ty, src), T('addr', T('val', x)), NULL))
        if m == 'holds_alternative':
            ty = (e.get('ta') or '').split(', ')[0]
            return self.V_(st, self.vis(ty, v[0]))
        if m == 'visit' and len(v) == 2:
            return self.f_visit(e, args, v, st, fr)
        if m in ('stod', 'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof'):
            x = T('f', 'parse', v[0])
            if self.tryd > 0:
                out = []
                for f, b in st.facts.fork(T('ok', T('call', 'parse', v[0]))):
                    s = st.withf(f)
                    out.append((s, ('v', x)) if b else (s.signal('thr', T('exc', 'std::invalid_argument', v[0])), None))
                return out
            return self.V_(st, x)
        if m == 'format' and v and is_str(v[0]):
            parts = re.split(r'\{[^}]*\}', cval(v[0]))
            out = [C(parts[0])]
            for x, p, a in zip(v[1:], parts[1:], e['args'][1:]):
                out += [x if is_string((a or {}).get('t')) or is_str(x) else tostr(x), C(p)]
            return self.V_(st, cat(*out))
        if name == 'std::getline' and len(args) >= 2:
            s = st.put(args[1][1], T('fread', v[0], 0)) if isinstance(args[1], tuple) else st
            return self.L_(s, args[0][1]) if isinstance(args[0], tuple) else self.V_(s, NULL)
        if op == '>>' and len(args) == 2 and isinstance(args[1], tuple) and isinstance(args[0], tuple):
            l = args[0][1]
            if 'nlohmann' in name:
                out = []
                for f, b in st.facts.fork(T('ok', T('call', 'json::parse', v[0]))):
                    s = st.withf(f)
                    out.append((s.put(args[1][1], T('json', v[0])), ('l', l)) if b else
                               (s.signal('thr', T('exc', 'nlohmann::json::parse_error', v[0])), None))
                return out
            return self.L_(self.extract(st, l, args[1][1], e['args'][1].get('t')), l)
        if m in ('begin', 'cbegin', 'end', 'cend') and len(v) == 1 and isinstance(args[0], tuple):
            return self.V_(st, T('it', 'begin' if 'begin' in m else 'end', args[0][1], v[0], NULL))
        if m in ('size', 'ssize') and len(v) == 1:
            return self.V_(st, size(v[0]))
        if m == 'empty' and len(v) == 1:
            return self.V_(st, isempty(v[0]))
        if m == 'next' and v and v[0].op == 'it':
            return self.V_(st, self.step(v[0], 1))
        if name.endswith('json_abi_v3_11_2::basic_json<>::parse') or name.endswith('basic_json<>::parse') and 'nlohmann' in name:
            x = T('json', v[0])
            if len(v) > 3 and v[3] is TRUE:
                x = T('json', T('mut', 'comments', v[0], ()))
            if len(v) > 2 and v[2] is FALSE:
                return self.V_(st, x)
            out = []
            for f, b in st.facts.fork(T('ok', T('call', 'json::parse', v[0]))):
                s = st.withf(f)
                out.append((s, ('v', x)) if b else (s.signal('thr', T('exc', 'nlohmann::json::parse_error', v[0])), None))
            return out
        if m == 'exists' and 'filesystem' in name:
            return self.V_(st, T('has', T('fs'), v[0]))
        r = self.f_algo(e, name, m, args, v, st, fr)
        if r is not None:
            return r
        if m in ('quiet_NaN', 'signaling_NaN'):
            return self.V_(st, NAN)
        return None

    # chrono helpers: durations and time points are values in seconds
    def f_chrono(self, e, name, m, args, v, st, fr):
        if m == 'now' or name.endswith('::now'):
            s, n = st.tick('now')
            return self.V_(s, T('now', n))
        if m in ('duration_cast', 'time_point_cast', 'floor'):
            p = dur_period(e.get('t'))
            q = dur_period((e['args'][0] or {}).get('t'))
            if p is None:
                return None
            if q is not None and q % p == 0 or 'double' in base_t(e.get('t')):
                return self.V_(st, v[0])
            x = div(v[0], C(p))
            if is_num(x):
                return self.V_(st, mul(C(int(cval(x))), C(p)))
            return self.V_(st, mul(T('dcast', str(p), x), C(p)))
        op = e.get('op')
        if e.get('udl'):
            p = dur_period(e.get('t'))
            return self.V_(st, mul(v[0], C(p))) if p and v else self.V_(st, T('opq', 'literal'))
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(v) == 2:
            return self.V_(st, self.cmp(op, v[0], v[1]))
        if op == '<=>':
            return self.V_(st, T('spaceship', v[0], v[1]))
        if op == '+' and len(v) == 2:
            return self.V_(st, add(v[0], v[1]))
        if op == '-' and len(v) == 2:
            return self.V_(st, sub(v[0], v[1]))
        if op in ('*', '/') and len(v) == 2:
            if op == '/' and dur_period(e.get('t')) is None:
                return self.V_(st, T('int', div(v[0], v[1])))
            return self.V_(st, mul(v[0], v[1]) if op == '*' else div(v[0], v[1]))
        return None

    def vtype(self, t):
        t = base_t(t)
        return {'std::basic_string<char>': 'std::string'}.get(t, t)

    def vget(self, ta, x, t):
        if x.op == 'ite':
            return ite(x.a[0], self.vget(ta, x.a[1], t), self.vget(ta, x.a[2], t))
        return T('vget', self.vtype(t), x)

    def vis(self, ty, x):
        return T('has', T('alt', x), C(self.vtype(ty)))

    def f_visit(self, e, args, v, st, fr):
        f, x = v
        t = base_t((e['args'][0] or {}).get('t'))
        if f.op == 'clo':
            return self.V_(st, T('visit', 'lambda', x))
        n = t.split('::')[-1] or 'visitor'
        return self.V_(st, T('visit', n, x))

    def f_make(self, e, m, args, v, st, fr):
        t = base_t(e.get('t'))
        i = t.find('<')
        cls = t[i + 1:-1] if i > 0 else t
        cls = re.sub(r', std::default_delete<.*$', '', cls)
        p = T('new', cls, self.nix(e), fr.depth)
        s, n = st.tick(('new', cls))
        if self.loopd:
            p = T('new', cls, self.nix(e), fr.depth, self.loopd)
        r = self.P.recname.get(cls)
        if r:
            cands = [g for g in self.P.find(cls + '::' + cls.split('::')[-1]) if g.get('kind') == 'ctor' and g['cls'] == cls and
                     len(g['params']) == len(args)]
            if not cands:
                # trailing parameters left to their default values
                cands = [g for g in self.P.find(cls + '::' + cls.split('::')[-1]) if g.get('kind') == 'ctor' and g['cls'] == cls and
                         len(g['params']) > len(args) and all(p.get('dv') for p in g['params'][len(args):])]
                if len(cands) == 1:
                    args, v = list(args), list(v)
                    for q in cands[0]['params'][len(args):]:
                        rs = self.ev(q['dv'], s, fr)
                        if len(rs) != 1 or rs[0][0].sig:
                            cands = []
                            break
                        s = rs[0][0]
                        args.append(rs[0][1])
                        v.append(rs[0][1])
                else:
                    cands = []
            if len(cands) >= 1 and not any(suffix(cls, o) for o in self.pol.opaque):
                g = cands[0]
                s = s.setroot(T('D', p), self.raw(cls))
                # by-value parameters take the value, reference ones the location
                a2 = []
                for pr, a, val in zip(g['params'], args, v):
                    a2.append(a if pr['t'].endswith('&') else val)
                rr = self.inline(g, T('D', p), a2, s, fr, dyn=cls)
                if rr is not None:
                    out = []
                    for s2, _ in rr:
                        if s2.sig:
                            out.append((s2, None))
                        else:
                            s2, _ = self.effect(s2, fr, e, 'make', cls, p, v)
                            out.append((s2, ('v', p)))
                    return out
            if not args:
                s = s.setroot(T('D', p), self.default_rec(r))
                return self.V_(s, p)
            if r.get('agg') and args:
                x = self.default_rec(r)
                for fd, y in zip(r['fields'], v):
                    x = setf(x, fd['n'], y)
                s = s.setroot(T('D', p), x)
                return self.V_(s, p)
        q = T('make', cls, *[self.argval(e, i, args, x) if not (isinstance(args[i], tuple) and (e.get('pf') or '')[i:i+1] == 'm')
                             else addr(args[i][1]) for i, x in enumerate(v)])
        s, _ = self.effect(s, fr, e, 'make', cls, None, v)
        return self.V_(s, q)

    # -- algorithms over a whole container
    def rng(self, a, b):
        """(cloc, container) if [a,b) is a whole container"""
        if a.op == 'it' and b.op == 'it' and a.a[0] == 'begin' and b.a[0] == 'end' and a.a[2] is b.a[2]:
            return a.a[1], a.a[2]
        return None

    def pred(self, clo, els, st, fr):
        """value of a side-effect free callable on given element values, or None"""
        self.loopd += 1
        try:
            rs = self.call_clo(clo, els, st, fr)
        finally:
            self.loopd -= 1
        base = st.facts.lits
        ps = []
        for s, r in rs:
            if s.sig or s.eff != st.eff:
                return None
            for k, x in s.store.items():
                if k.op != 'V' and st.store.get(k, T('rd', k)) is not x:
                    return None
                if k.op == 'V' and k in st.store and st.store[k] is not x:
                    return None
            v = r[1] if r[0] == 'v' else s.load(r[1])
            ps.append(({a: b for a, b in s.facts.lits.items() if a not in base}, v))
        return bdd(dtree(ps))

    def mkdom(self, c, ty=''):
        kind = 'map' if is_map(ty) else 'seq'
        return T('dom', kind, c, self.loopd + 1)

    def fuse(self, dom):
        """(dom, element value, guard) looking through filters/maps"""
        c = dom.a[1]
        if c.op == 'comp' and c.a[3].op == 'empty' and dom.a[0] == 'seq':
            d0 = c.a[0]
            nd = T('dom', d0.a[0], d0.a[1], dom.a[2])
            ren = lambda t: self.redom(t, d0, nd)
            return nd, ren(c.a[2]), ren(c.a[1])
        return dom, T('el', dom), TRUE

    def redom(self, t, d0, d1):
        if d0 is d1:
            return t
        e0, e1, i0, i1 = T('el', d0), T('el', d1), T('ix', d0), T('ix', d1)

        def f(x):
            if x is e0:
                return e1
            if x is i0:
                return i1
            if x.op in BIND and x.a and x.a[0] is d0:
                return x
            return None
        return subst(t, f)

    def f_algo(self, e, name, m, args, v, st, fr):
        if not name.startswith('std::'):
            return None
        ranges = 'ranges' in name
        proj = None
        if e.get('proj'):
            proj, v, args = v[-1], list(v[:-1]), args[:-1]
        if ranges and v and isinstance(args[0], tuple) and v[0].op != 'it':
            ty = (e['args'][0] or {}).get('t')
            r = (args[0][1], v[0])
            rest = list(v[1:])
        else:
            if m == 'copy_n' and len(v) == 3 and v[0].op == 'it' and v[0].a[0] == 'begin' and v[1] is size(v[0].a[2]):
                return self.copyto(e, st, fr, v[0].a[2], '', v[2], args[-1])
            r = self.rng(v[0], v[1]) if len(v) >= 2 else None
            ty = ''
            if r and v:
                t0 = (e['args'][0] or {}).get('t') or ''
                ty = 'std::map<' if ('_Rb_tree' in t0 or '_Node' in t0) and 'pair<const' in t0 else 'std::vector<'
            rest = list(v[2:])
        if r is None:
            return None
        cl, c = r
        def state(rs):
            return [q for q, _ in rs]
        if m == 'for_each' and len(rest) == 1:
            pt = self.param_t(rest[0])
            if '&' not in pt:
                pt = 'const ' + pt
            return [(q, None if q.sig else ('v', rest[0])) for q in self.algo_loop(
                e, cl, c, ty, pt, lambda q, f, a: state(self.call_clo(rest[0], [a], q, f)), st, fr)]
        if m in ('transform', 'copy_if', 'copy') and rest and rest[0].op == 'it' and rest[0].a[0] == 'into' and \
                len(rest) == (1 if m == 'copy' else 2):
            into = rest[0].a[1]
            sets = rest[0].a[2] is TRUE

            def add(q, x):
                o = self._ld(q, into)
                return self.store(q, into, upd(o, x, TRUE) if sets else T('push', o, x), e, fr)

            def val(q, r):
                return r[1] if r[0] == 'v' else q.load(r[1])

            def put(q, f, a):
                x = self._ld(q, a[1]) if isinstance(a, tuple) else a
                if m == 'copy':
                    return [add(q, x)]
                out = []
                for q2, r in self.call_clo(rest[1], [a], q, f):
                    if q2.sig:
                        out.append(q2)
                    elif m == 'transform':
                        out.append(add(q2, val(q2, r)))
                    else:
                        for fs, b in q2.facts.fork(self.truth(val(q2, r))):
                            out.append(add(q2.withf(fs), x) if b else q2.withf(fs))
                return out
            if not sets:
                return [(q, None if q.sig else ('v', rest[0])) for q in self.algo_loop(
                    e, cl, c, ty, 'const auto &', put, st, fr)]
        if m == 'accumulate' and len(rest) == 2:
            acc = T('V', '#acc', fr.depth, '#acc%d' % self.nix(e))

            def step(q, f, a):
                out = []
                for q2, r in self.call_clo(rest[1], [q.load(acc), a], q, f):
                    out.append(q2 if q2.sig else q2.setroot(acc, r[1] if r[0] == 'v' else q2.load(r[1])))
                return out
            out = []
            for q in self.algo_loop(e, cl, c, ty, 'const auto &', step, st.setroot(acc, rest[0]), fr):
                if q.sig:
                    out.append((q, None))
                    continue
                y = q.load(acc)
                q = q.cp()
                q.store = {k: z for k, z in q.store.items() if k is not acc}
                out.append((q, ('v', y)))
            return out
        if m == 'copy' and len(rest) == 1:
            return self.copyto(e, st, fr, c, ty, rest[0], args[-1])
        if m == 'fill' and len(rest) == 1 and cl is not None:
            n = self.arrlen((e['args'][0] or {}).get('at') or '')
            old = self._ld(st, cl)
            if n is not None:
                d = T('dom', 'range', T('rng', ZERO, C(n)), self.loopd + 1)
                return self.V_(self.store(st, cl, T('mcomp', d, TRUE, T('el', d), rest[0], old), e, fr), NULL)
            return None
        dom, el, g0 = self.fuse(self.mkdom(c, ty))
        pel = el
        if proj is not None:
            if m in ('accumulate', 'for_each', 'fill', 'copy', 'transform', 'copy_if'):
                return None
            pel = self.pred(proj, [el], st, fr)
            if pel is None or any(y.op == 'opq' for y in walk(pel)):
                return self.V_(self.stirred(e, rest, st, fr), self.opq('projection of ' + m, e, fr))
        if m == 'contains' and len(rest) == 1:
            return self.V_(st, mkany(dom, bdd(ite(g0, self.equal(pel, rest[0]), FALSE))))
        if m == 'find' and len(rest) == 1 and proj is not None:
            h = mkany(dom, bdd(ite(g0, self.equal(pel, rest[0]), FALSE)))
            if h.op == 'has' and el.op == 'el':
                return self.V_(st, T('it', 'find' if dom.a[0] == 'map' else 'findv', cl, h.a[0], h.a[1]))
            return self.V_(st, self.opq('projected find', e, fr))
        if m == 'find' and len(rest) == 1:
            return self.V_(st, T('it', 'findv', cl, c, rest[0]))
        el0, el = el, pel
        if m == 'count' and len(rest) == 1:
            g = bdd(ite(g0, self.equal(el, rest[0]), FALSE))
            return self.V_(st, red(dom, 'sum', g, C(1), ZERO, None))
        if m in ('find_if', 'any_of', 'all_of', 'none_of', 'find_if_not', 'count_if') and len(rest) == 1:
            p = self.pred(rest[0], [el], st, fr)
            if p is None:
                return self.V_(self.stirred(e, rest, st, fr), self.opq('predicate of ' + m, e, fr))
            el = el0
            p = self.truthv(p)
            if m in ('all_of', 'find_if_not'):
                p = lnot(p)
            g = bdd(ite(g0, p, FALSE))
            if m == 'count_if':
                return self.V_(st, red(dom, 'sum', g, C(1), ZERO, None))
            a = mkany(dom, g)
            if m in ('any_of',):
                return self.V_(st, a)
            if m in ('none_of', 'all_of'):
                return self.V_(st, lnot(a))
            h = mkany(dom, g)
            if h.op == 'has' and el.op == 'el':
                return self.V_(st, T('it', 'find' if dom.a[0] == 'map' else 'findv', cl, h.a[0], h.a[1]))
            w = T('first', dom, g)
            return self.V_(st, T('it', 'val', cl, c, w if el.op == 'el' else el_subst(el, dom, w)) if el.op == 'el' else
                           T('it', 'pred', cl, el_subst(el, dom, w), h))
        if m in ('max_element', 'min_element', 'max', 'min'):
            val, el = el, el0
            if rest:
                d2 = T('dom', dom.a[0], dom.a[1], 99)
                e2 = self.redom(el, dom, d2)
                p = self.pred(rest[0], [pel, self.redom(pel, dom, d2)], st, fr)
                if p is None:
                    return self.V_(self.stirred(e, rest, st, fr), self.opq('comparator of ' + m, e, fr))
                # comparator must be key(x) < key(y)
                k = self.keyof(p, el, e2)
                if k is None:
                    return self.V_(self.stirred(e, rest, st, fr), self.opq('comparator of ' + m, e, fr))
                val, flip = k
                big = (m.startswith('max')) != flip
            else:
                big = m.startswith('max')
            a = T('arg', dom, 'max' if big else 'min', g0, val)
            if val is el:
                a = ext(dom, 'max' if big else 'min', g0, el)
            return self.V_(st, T('it', 'val', cl, c, a) if 'element' in m else a)
        if m == 'accumulate' and rest:
            if len(rest) == 1:
                return self.V_(st, red(dom, 'sum', g0, el, rest[0], None))
            return None
        return None

    def algo_loop(self, e, cl, c, ty, pt, body, st, fr):
        """a call of an algorithm read as a loop: body(state, frame, element) for every element -> states"""
        x = self.algox.get(id(e))
        if x is None:
            v = {'k': 'var', 'id': '#el%d' % self.nix(e), 'n': '#el', 'ref': True, 't': pt}
            x = {'k': 'rfor', 'v': v, 'b': {'k': '#py', 'l': e.get('l')}, 'rt': ty, 'l': e.get('l')}
            self.algox[id(e)] = x
        d = T('V', '#el', fr.depth, x['v']['id'])

        def run(s, f):
            r = s.store.get(d)
            a = ('ref', r.a[0]) if r is not None and r.op == 'ref' else r
            return body(s, f, a)
        x['b']['f'] = run
        out = []
        for s2, c2 in self.split_c(st, c):
            out += self.rfor1(x, cl if cl is not None else T('val', c2), c2, s2, fr)
        return self.merge(out)

    def param_t(self, clo, i=0):
        """the type a callable takes its i-th argument as"""
        ps = ()
        if clo.op == 'clo' and clo.a[0] in self.lams:
            ps = self.lams[clo.a[0]][0]['params']
        elif clo.op == 'fn' and self.P.fns.get(clo.a[0]):
            ps = self.P.fns[clo.a[0]]['params']
        return ps[i]['t'] if i < len(ps) else 'const auto &'

    def stirred(self, e, v, st, fr):
        """an algorithm that is not modelled was given callables: what they may change is unknown"""
        for clo in v:
            if clo.op != 'clo' or clo.a[0] not in self.lams:
                continue
            n = len(self.lams[clo.a[0]][0]['params'])
            self.loopd += 1
            try:
                rs = self.call_clo(clo, [self.opq('argument', e, fr) for _ in range(n)], st, fr)
            finally:
                self.loopd -= 1
            for s, _ in rs:
                for k, y in s.store.items():
                    if st.store.get(k, T('rd', k)) is y or k.op == 'V' and k not in st.store:
                        continue
                    st = st.setroot(k, self.opq('changed by a callable', e, fr))
                if s.eff != st.eff:
                    st, _ = self.effect(st, fr, e, 'call', 'callable', None, (self.opq('callable', e, fr),))
        return st

    def arrlen(self, t):
        r = re.search(r'\[(\d+)\]', t)
        return int(r.group(1)) if r else None

    def copyto(self, e, st, fr, c, ty, dv, da):
        """std::copy of a whole container onto an array or the start of a container"""
        if is_map(ty):
            return None
        if dv.op == 'it' and dv.a[0] == 'begin' and isinstance(dv.a[1], T):
            dl = dv.a[1]
        elif isinstance(da, tuple) and self.arrlen((e['args'][-1] or {}).get('t') or '') is not None:
            dl = da[1]
            self.inbounds(e, fr, 'size', st.facts, size(c), C(self.arrlen(e['args'][-1]['t'])))
        else:
            return None
        d = T('dom', 'seq', c, self.loopd + 1)
        old = self._ld(st, dl)
        from .exec import mkmcomp
        return self.V_(self.store(st, dl, mkmcomp(d, TRUE, T('ix', d), T('el', d), old), e, fr), NULL)

    def truthv(self, v):
        return self.truth(v)

    def keyof(self, p, a, b):
        """p(a,b) == key(a) < key(b) -> (key(a), False); key(b) < key(a) -> (.., True)"""
        subs = [x for x in walk(p) if a in set(walk(x)) and b not in set(walk(x))]
        subs.sort(key=lambda x: x.id)
        for k in subs:
            if not isinstance(k, T):
                continue
            kb = subst(k, lambda x: b if x is a else None)
            if lt(k, kb) is p or bdd(lt(k, kb)) is p:
                return k, False
            if lt(kb, k) is p:
                return k, True
        return None
