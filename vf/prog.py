"""The resolved program: functions, records, globals merged over all units."""
import re
from . import extract

_TK = {'t', 'ft', 'oc_t', 'rt', 'et', 'ret', 'at'}


def tname(s):
    s = s.replace('std::__cxx11::', 'std::').replace('basic_string<char>', 'string')
    s = re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>', 'std::string', s)
    return s


def _fix(o, types):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in _TK and isinstance(v, int) and not isinstance(v, bool):
                o[k] = types[v] if v >= 0 else ''
            elif isinstance(v, (dict, list)):
                _fix(v, types)
        n = o.get('name')
        if n:
            o['name'] = n.replace('__cxx11::', '').replace('std::filesystem::__cxx11', 'std::filesystem')
        oc = o.get('oc')
        if oc:
            o['oc'] = oc.replace('__cxx11::', '')
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                _fix(v, types)


class Prog:
    def __init__(self, cfg=0, repo=None):
        self.cfg = cfg
        self.fns = {}
        self.byname = {}
        self.recs = {}
        self.recname = {}
        self.globals = {}
        self.enums = {}
        self.lambdas = {}
        self.errors = {}
        self.tus = []
        data = extract.run(cfg, repo)
        for tu in sorted(data):
            d = data[tu]
            self.tus.append(tu)
            types = [tname(t) for t in d['types']]
            for k in ('fns', 'recs', 'globals', 'enums'):
                _fix(d[k], types)
            if d.get('errors'):
                self.errors[tu] = d['errors']
            for f in d['fns']:
                old = self.fns.get(f['key'])
                if old is not None:
                    if old['n'] != 'main' or old['file'] == f['file']:
                        continue
                    f['key'] += '@' + f['file']        # another program of the package
                    if f['key'] in self.fns:
                        continue
                f['tu'] = tu
                self.fns[f['key']] = f
                self.byname.setdefault(f['n'], []).append(f)
            for r in d['recs']:
                self.recs.setdefault(r['key'], r)
                self.recname.setdefault(r['n'], r)
            for g in d['globals']:
                old = self.globals.get(g['key'])
                if old is None or ('init' in g and 'init' not in old):
                    self.globals[g['key']] = g
            for e in d['enums']:
                self.enums[e['n']] = e
        # overriders: key of base method -> keys of overriding methods
        self.over = {}
        self.mkey = {}
        for r in self.recs.values():
            for m in r['methods']:
                self.mkey[m['key']] = (r, m)
                for b in m['ov']:
                    self.over.setdefault(b, set()).add(m['key'])

    READONLY = {'find', 'end', 'begin', 'count', 'contains', 'at', 'size', 'empty', 'cbegin', 'cend', 'operator[]',
                'length', 'c_str', 'data', 'substr', 'rfind', 'starts_with', 'ends_with', 'front', 'back'}

    def frozen(self, key):
        """a variable of static storage that nothing in the program modifies"""
        if not hasattr(self, '_frozen'):
            self._frozen = {}
            ok, bad = {}, set()

            def uses(node, allowed):
                if isinstance(node, list):
                    for x in node:
                        uses(x, False)
                    return
                if not isinstance(node, dict):
                    return
                if node.get('k') == 'gvar':
                    if not allowed:
                        bad.add(node['key'])
                    return
                k = node.get('k')
                for a, v in node.items():
                    al = False
                    if k == 'call' and a == 'obj':
                        m = (node.get('name') or '').split('::')[-1]
                        al = bool(node.get('cm')) or (m in self.READONLY and not (
                            m == 'operator[]' and (node.get('oc') or '').endswith('map')))
                    elif k == 'copy' and a == 'e':
                        al = True
                    elif k == 'rfor' and a in ('r', 'range', 'e') and not ('&' in str((node.get('v') or {}).get('t', '&')) and
                                                                          'const' not in str((node.get('v') or {}).get('t', ''))):
                        al = True
                    uses(v, al)
            for f in self.fns.values():
                uses(f.get('body'), False)
                uses(f.get('inits'), False)
            self._bad = bad
        g = self.globals.get(key)
        return bool(g and g.get('init') and (g.get('const') or (g.get('sl') and key not in self._bad)))

    def rec(self, name):
        if name in self.recname:
            return self.recname[name]
        for n, r in self.recname.items():
            if n.endswith('::' + name):
                return r
        return None

    def bases(self, name):
        out = []
        r = self.recname.get(name)
        if r:
            for b in r['bases']:
                out.append(b)
                out += self.bases(b)
        return out

    def find(self, name, ta=None, n=None, optional=False):
        """functions with this (suffix-)qualified name"""
        fs = [f for q, l in self.byname.items() if q == name or q.endswith('::' + name) for f in l]
        if ta is not None:
            fs = [f for f in fs if f.get('ta') == ta]
        if n is not None:
            fs = [f for f in fs if len(f['params']) == n]
        return fs

    def fn(self, name, ta=None, n=None):
        fs = self.find(name, ta, n)
        if not fs:
            raise extract.Broken('anchor function %s not found' % name)
        return fs[0]

    def all_over(self, key):
        out = set()
        w = [key]
        while w:
            k = w.pop()
            for o in self.over.get(k, ()):
                if o not in out:
                    out.add(o)
                    w.append(o)
        return out


def visit(node, f):
    """pre-order visit of every dict node of an AST fragment"""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if f(x) is False:
                continue
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


_cache = {}


def load(cfg=0, repo=None):
    k = (cfg, repo)
    if k not in _cache:
        _cache[k] = Prog(cfg, repo)
    return _cache[k]
