"""IPMI provider, bus names and object paths, wire types of D-Bus messages."""
from ..spec import *
from ..extract import Broken
from .roles import *

ROOT = '/xyz/openbmc_project/settings/fanctrl/zone'
ZBUS = 'xyz.openbmc_project.State.FanCtrl'
HBUS = 'xyz.openbmc_project.Hwmon.external'
MODEI = 'xyz.openbmc_project.Control.Mode'
PROPS = 'org.freedesktop.DBus.Properties'


def substate(s, f):
    """copies of a path with every term rewritten"""
    fs = [Facts()]
    for a, b in s.facts.lits.items():
        fs = [g for x in fs for g in x.assume(subst(a, f), b)]
    out = []
    for x in fs:
        q = s.cp()
        q.facts = x
        q.eff = tuple(subst(e, f) for e in s.eff)
        q.val = subst(s.val, f) if s.val is not None else None
        q.store = {k: subst(v, f) for k, v in s.store.items()}
        out.append(q)
    return out


# ------------------------------------------------------------------ C29
def zone_handlers(c):
    P = c.P(0)
    buf = {}

    def bytes_of(i):
        """request fields as bytes of the request buffer"""
        b = T('rd', T('D', argsym(i)))
        off = {}
        for n in ('FanCtrlRequest', 'FanCtrlRequestSet'):
            r = P.rec('ipmi::' + n) or P.rec(n)
            for k, fl in enumerate((r or {'fields': ()})['fields']):
                if 'char' not in fl['t'] and 'bool' not in fl['t']:
                    raise Broken('%s::%s is not a byte' % (n, fl['n']))
                off[fl['n']] = k

        def f(t):
            if t.op == 'sel' and t.a[1] in off and (t.a[0] is T('at', b, ZERO) or t.a[0] is b):
                return T('at', b, C(off[t.a[1]]))
            if t.op == 'rd' and t.a[0].op in ('D', 'I') and False:
                return t
            return None
        return f, lambda k: T('at', b, C(k))

    def rule(c, f, reqi, repi, leni, cmds, disp):
        """cmds: sub-command -> (bytes needed, 'get'|'set', property)"""
        I_, ps = c.run(f, opaque={'getFanCtrlProperty', 'setFanCtrlProperty'})
        nf, B = bytes_of(reqi)
        ll, rl = T('D', argsym(leni)), T('D', argsym(repi))
        n0 = T('rd', ll)
        zget = {'getFanCtrlProperty': 'get', 'setFanCtrlProperty': 'set'}

        def r(o, s):
            if s.sig != 'ret':
                return 'the request ends in an exception'
            v = o.val(s.val)
            ac = effs(s, lambda e: e.op == 'e' and e.a[0] in ('call', 'dbus') and e.a[1].split('::')[-1] in zget)
            oth = effs(s, lambda e: e.op == 'e' and e.a[0] in ('call', 'dbus') and e.a[1].split('::')[-1] not in zget)
            if oth:
                return 'the handler also calls %s' % oth[0].a[1]
            rep, ln = s.load(rl), s.load(ll)
            if rep.op == 'rec' or rep.op == 'upd':
                rep = getat(rep, ZERO)
            orig = (T('rd', rl), T('at', T('rd', rl), ZERO))

            def quiet(what):
                if s.eff and ac:
                    return 'the zone is accessed %s' % what
                if o(eq(v, ZERO)):
                    return 'success is answered %s' % what
                if o.val(rep) not in orig or o.val(ln) is not n0:
                    return 'a reply is produced %s' % what
                return None
            if o(lt(n0, C(1 if not disp else 1))):
                # nothing of the request may be looked at
                return quiet('for an empty request')
            if disp:
                # shorter than any layout
                if o(lt(n0, C(min(x[0] for x in cmds.values())))):
                    if any(y.op == 'at' and y.a[0] is T('rd', T('D', argsym(reqi))) and
                           not (is_num(y.a[1]) and o(lt(y.a[1], n0))) for a in s.facts.lits for y in walk(a)):
                        return 'the request is read beyond its length'
                    return quiet('although the request is too short')
                k = None
                for x in cmds:
                    if o(eq(B(0), C(x))):
                        k = cmds[x]
                if k is None:
                    return quiet('for an unknown sub-command')
            else:
                k = cmds[None]
            need, kind, prop = k
            if o(lt(n0, C(need))):
                return quiet('although the request is too short')
            if len(ac) != 1:
                return 'the zone is accessed %d times' % len(ac)
            e = ac[0]
            nm = zget[e.a[1].split('::')[-1]]
            if nm != kind:
                return ('the request %ss the property' % nm, e)
            a = e.a[3]
            pv = o.val(a[2])
            if pv is not C(prop):
                if opaque(pv):
                    return ('undecided', show(pv)[:80])
                return ('property %s is accessed, required %s' % (show(pv), prop), e)
            z = c.expect(o, a[0], B(1), 'the zone accessed', e)
            if z:
                return z
            res = T('res', e.a[1], e.a[2], a, 0)
            if kind == 'set':
                w = a[1]
                if not same(o, w, lnot(eq(B(2), ZERO))):
                    return c.expect(o, w, lnot(eq(B(2), ZERO)), 'the mode written', e)
                if o.val(rep) not in orig or o.val(ln) is not n0:
                    return 'a set request changes the reply'
                x = c.expect(o, v, res, 'the answer to a set request')
                return x if x is None or not (o(eq(res, ZERO)) and o(eq(v, ZERO))) else None
            if o(eq(res, ZERO)):
                if not o(eq(v, ZERO)):
                    return 'an error is answered although the query succeeded'
                x = c.expect(o, ln, C(1), 'the length of the reply')
                if x:
                    return x
                cur = o.val(T('out', e.a[1], 1, e.a[2], a, 0))
                rep = o.val(rep)
                if rep.op == 'upd' and o.val(rep.a[1]) is ZERO:
                    rep = o.val(rep.a[2])               # written as the first element
                got = o.val(nocast(rep))
                if got is not cur and not same(o, got, ite(cur, C(1), ZERO)):
                    return c.expect(o, got, cur, 'the reply byte')
                return None
            if o(eq(v, ZERO)):
                return 'success is answered although the query failed'
            x = c.expect(o, v, res, 'the answer after a failed query')
            if x:
                return x
            if o.val(rep) not in orig or o.val(ln) is not n0:
                return 'a reply is produced although the query failed'
            return None
        c.judge('requests', I_, [q for s in ps for q in substate(s, nf)], r)

    CM = {0: (2, 'get', 'Manual'), 1: (3, 'set', 'Manual'), 2: (2, 'get', 'FailSafe')}
    f = P.fn('manualModeControl')
    req = [i for i, p in enumerate(f['params']) if 'const unsigned char *' in p['t']]
    rep = [i for i, p in enumerate(f['params']) if p['t'] == 'unsigned char *']
    ln = [i for i, p in enumerate(f['params']) if 'long' in p['t']]
    if not req or not rep or not ln:
        raise Broken('parameters of manualModeControl')
    rule(c, f, req[0], rep[0], ln[0], CM, True)
    for nm, k in (('getManualModeState', 0), ('setManualModeState', 1), ('getFailsafeModeState', 2)):
        for g in P.find('ZoneControlIpmiHandler::' + nm):
            rule(c, g, 0, 1, 2, {None: CM[k]}, False)


def nocast(t):
    while isinstance(t, T) and t.op in ('icast', 'move', 'int') and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def appended(t):
    """(newcall term, appended values) of a message value"""
    xs = []
    while t.op == 'mut' and t.a[0] == 'append':
        xs = list(t.a[2]) + xs
        t = t.a[1]
    return t, xs


def zone_access(c, paths_only=False):
    """DbusZoneControl: one message to the zone's object, errors reported"""
    P = c.P(0)
    for nm, kind in (('getFanCtrlProperty', 'get'), ('setFanCtrlProperty', 'set')):
        fs = [f for f in P.find(nm) if f.get('body')]
        if not fs:
            raise Broken('%s not found' % nm)
        for f in fs:
            I_, ps = c.run(f)

            def r(o, s, kind=kind):
                if s.sig != 'ret':
                    return 'an error of the bus is not turned into a completion code'
                es = effs(s, lambda e: e.op == 'e' and e.a[0] == 'dbus')
                tried = [a for a, b in s.facts.lits.items() if a.op == 'ok' and a.a[0].op == 'call' and
                         a.a[0].a[0].split('::')[-1].startswith('call')]
                v = o.val(s.val)
                failed = [a for a, b in s.facts.lits.items() if a.op == 'ok' and o(a) is False]
                if failed or any(a.op == 'ok' and not o(a) for a in walk(s.val)):
                    return 'success is answered although the bus reported an error' if o(eq(v, ZERO)) else None
                if len(es) != 1:
                    return '%d messages are sent' % len(es)
                e = es[0]
                m, xs = appended(o.val(e.a[3][0]))
                if m.op != 'newcall':
                    return ('undecided', show(m)[:100])
                dest, path, ifc, meth = [o.val(x) for x in m.a[:4]]
                if dest is not C(ZBUS):
                    return ('the message goes to %s' % show(dest), e) if not opaque(dest) else ('undecided', show(dest)[:80])
                x = c.expect(o, path, cat(C(ROOT), T('tostr', argsym(0))), 'the object addressed', e)
                if x:
                    return x
                if ifc is not C(PROPS):
                    return ('the message is for interface %s' % show(ifc), e)
                want = argsym(2)
                if kind == 'set':
                    if meth is not C('Set'):
                        return ('the method called is %s' % show(meth), e)
                    w = [C(MODEI), want, argsym(1)]
                    if len(xs) != 3:
                        return ('%d arguments are sent' % len(xs), e)
                    for g, h, n in zip(xs, w, ('interface', 'property', 'value')):
                        y = c.expect(o, unv(o.val(g)), h, 'the %s sent' % n, e)
                        if y:
                            return y
                    if not o(eq(v, ZERO)):
                        return 'an error is answered although the message was accepted'
                    return None
                rep = T('reply', e.a[3][0])
                if meth is C('GetAll'):
                    if [o.val(x) for x in xs] != [C(MODEI)]:
                        return ('properties of %s are queried' % show(tuple(xs))[:100], e)
                    val = T('vget', 'bool', getat(T('msgf', rep, ZERO), want))
                    val = None
                elif meth is C('Get'):
                    if [o.val(x) for x in xs] != [C(MODEI), want]:
                        return ('property %s is queried' % show(tuple(xs))[:100], e)
                    val = None
                else:
                    return ('the method called is %s' % show(meth), e)
                if not o(eq(v, ZERO)):
                    return 'an error is answered although the query succeeded'
                got = o.val(s.load(T('D', argsym(1))))
                mine = T('msgf', rep, 0)
                ok = [y for y in walk(got) if y.op == 'msgf' and y.a[0] is rep]
                if got is T('rd', T('D', argsym(1))):
                    return 'the value of the property is not delivered'
                if not ok:
                    # a property missing from the reply
                    if any(a.op == 'has' and a.a[0].op == 'msgf' and not b for a, b in o.facts.lits.items()):
                        return None
                    return ('undecided', show(got)[:100]) if opaque(got) else 'the value delivered is %s' % show(got)[:100]
                if got.op != 'vget':
                    return ('undecided', show(got)[:100]) if opaque(got) or got.op == 'ite' else 'the value delivered is %s' % show(got)[:100]
                if meth is C('GetAll') and got.a[1] is not getat(ok[0], want):
                    return 'the value delivered is that of %s' % show(got.a[1])[:120]
                return None
            c.judge('zone-access', I_, ps, r)


def is_const_(t):
    return t in (TRUE, FALSE) or is_num(t)


def unv(t):
    while isinstance(t, T) and t.op in ('variant', 'move', 'mkvar') and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


@check('C29')
def c29(c):
    zone_handlers(c)
    zone_access(c)
    # the command is answered by this handler
    P = c.P(0)
    for f in [f for f in P.fns.values() if f.get('body') and f['file'].endswith('main_ipmi.cpp') and f['n'].endswith('setupGlobalOemFanControl')]:
        I_, ps = c.run(f)

        def r(o, s):
            rs = effs(s, named('registerHandler', 'oem::Router::registerHandler'))
            if len(rs) != 1:
                return 'the command is registered %d times' % len(rs)
            a = rs[0].a[3]
            if not any(y.op == 'fn' and y.a[1].endswith('manualModeControl') for y in walk(a[-1])):
                return ('undecided', show(a[-1])[:100]) if any(y.op == 'clo' for y in walk(a[-1])) else \
                    'the command is answered by %s' % show(a[-1])[:100]
            return None
        c.judge('registration', I_, ps, r)


# ------------------------------------------------------------------ C30
def node_calls(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'call':
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def bus_globals(f, callee, at=None):
    """global variables handed as bus arguments to callee anywhere in f (or only
    those in the given argument positions)"""
    out = set()
    for n in node_calls(f.get('body')):
        if (n.get('name') or '').split('::')[-1] == callee:
            for i, a in enumerate(n.get('args') or ()):
                while isinstance(a, dict) and a.get('k') in ('cast', 'copy'):
                    a = a['e']
                if at and i not in at:
                    continue
                if isinstance(a, dict) and a.get('k') == 'gvar' and ('connection' in a.get('t', '') or 'bus' in a.get('t', '')):
                    out.add(a['n'])
    return out


@check('C30')
def c30(c):
    P = c.P(0)
    mains = [f for f in P.fns.values() if f['n'] == 'main' and f.get('body')]
    dm = [f for f in mains if any((n.get('name') or '').endswith('request_name') for n in node_calls(f['body']))]
    tool = [f for f in mains if f not in dm]
    if len(dm) != 1:
        raise Broken('the main function of the daemon')
    I_, ps = c.run(dm[0], opaque={'tryRestartControlLoops', 'startMonitoring', 'getInstance'})
    fns = [f for f in P.fns.values() if f['file'] == dm[0]['file'] and f.get('body')]
    zbus = set().union(*[bus_globals(f, 'buildZones') for f in fns])
    from .io import host_bus_param
    hp = host_bus_param(c)
    sbus = set().union(*[bus_globals(f, 'buildSensors', hp) for f in fns])

    def r(o, s):
        runs = [i for i, e in enumerate(s.eff) if e.op == 'e' and e.a[1].split('::')[-1] == 'run' and 'io' in show(e.a[2])]
        if not runs:
            return None
        nm = {}
        for i, e in enumerate(s.eff):
            if e.op == 'e' and e.a[1].split('::')[-1] == 'request_name':
                if i > runs[0]:
                    return ('a bus name is requested after the loop has run', e)
                nm.setdefault(o.val(e.a[3][0]), set()).add(show(e.a[2]).lstrip('&').split('::')[-1])
        for want, buses, what in ((ZBUS, zbus, 'zone objects'), (HBUS, sbus, 'host sensors')):
            have = nm.get(C(want))
            if not have:
                if any(opaque(k) for k in nm):
                    return ('undecided', 'requested names')
                return 'the name %s is not requested' % want
            bs = {b.split('::')[-1] for b in buses}
            if not bs:
                return ('undecided', 'bus of the %s' % what)
            if not have & bs:
                return '%s is requested on %s, the %s live on %s' % (want, sorted(have), what, sorted(bs))
        return None
    c.judge('daemon-names', I_, ps, r)
    # the paths of the zones
    from .builder import build_run, ZD, ZID
    I2, ps2 = build_run(c)
    n = 0
    for L in I2.loops:
        if L['dom'] is not ZD:
            continue
        for e, s in [(e, s) for _, s in L['norm'] for e in s.eff if e.op == 'e' and e.a[0] == 'make' and e.a[1].endswith('DbusPidZone')]:
            n += 1

            def z(o, s, e=e):
                p = [o.val(a) for a in e.a[3] if any(y is C(ROOT) or y.op == 'tostr' for y in walk(a))]
                if len(p) != 1:
                    return ('undecided', 'path of a zone')
                return c.expect(o, p[0], cat(C(ROOT), T('tostr', ZID)), 'the object path of a zone', e)
            c.judge('zone-paths', I2, [s], z, 'construction of a zone')
    if not n:
        c.undec('zone-paths', 'no zone is constructed')
    zone_access(c)
    # the set-sensor tool
    for f in tool:
        I3, ps3 = c.run(f)

        def t(o, s):
            for e in [x for y in s.eff for x in leaf_effs(y)]:
                if e.op != 'e' or e.a[0] != 'dbus':
                    continue
                m, xs = appended(o.val(e.a[3][0]))
                if m.op != 'newcall':
                    return ('undecided', show(m)[:100])
                dest, path = o.val(m.a[0]), o.val(m.a[1])
                if opaque(dest) or opaque(path) or not (is_str(path)):
                    return ('undecided', show(path)[:100])
                p = cval(path)
                if xs and o.val(xs[0]) is C(MODEI):
                    d = p[len(ROOT):] if p.startswith(ROOT) else ''
                    if dest is not C(ZBUS):
                        return ('the tool sends the mode of a zone to %s' % show(dest), e)
                    if not d.isdigit() or str(int(d)) != d:
                        return ('the tool addresses %s, which is no zone object' % p, e)
                    if o.val(xs[1]) is not C('Manual'):
                        return ('the tool sets property %s' % show(xs[1]), e)
                elif xs and o.val(xs[0]) is C('xyz.openbmc_project.Sensor.Value'):
                    if dest is not C(HBUS):
                        return ('the tool sends a host sensor value to %s' % show(dest), e)
                    if '/xyz/openbmc_project/extsensors/' not in p:
                        return ('the tool addresses %s, which is no host sensor' % p, e)
                    if o.val(xs[1]) is not C('Value'):
                        return ('the tool sets property %s' % show(xs[1]), e)
                elif xs:
                    return ('undecided', 'message of the tool')
            return None
        c.judge('tool', I3, ps3, t)
    # no conversion in between narrows the daemon's zone number
    wire(c, only=('Set',), props=True)


# ------------------------------------------------------------------ C49
METHODS = {
    (PROPS, 'Get'): ('ss', ('v',)), (PROPS, 'GetAll'): ('s', ('a{sv}',)), (PROPS, 'Set'): ('ssv', ('',)),
    ('xyz.openbmc_project.ObjectMapper', 'GetSubTree'): ('sias', ('a{sa{sas}}',)),
    ('xyz.openbmc_project.ObjectMapper', 'GetSubTreePaths'): ('sias', ('as',)),
    ('xyz.openbmc_project.ObjectMapper', 'GetObject'): ('sas', ('a{sas}',)),
    ('org.freedesktop.DBus.ObjectManager', 'GetManagedObjects'): ('', ('a{oa{sa{sv}}}',)),
}
PROPTYPE = {(MODEI, 'Manual'): 'b', ('xyz.openbmc_project.Control.FanPwm', 'Target'): 't',
            ('xyz.openbmc_project.Sensor.Value', 'Value'): 'd'}
BASIC = {'int': 'i', 'unsigned int': 'u', 'long': 'x', 'unsigned long': 't', 'long long': 'x', 'unsigned long long': 't',
         'short': 'n', 'unsigned short': 'q', 'unsigned char': 'y', 'double': 'd', 'float': 'd', 'bool': 'b',
         'std::string': 's', 'std::string_view': 's', 'sdbusplus::message::object_path': 'o', 'sdbusplus::message::signature': 'g',
         'const char *': 's', 'char *': 's'}


def targs(t):
    d, cur, out = 0, '', []
    for ch in t:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def sig(t):
    """D-Bus signature of a C++ type as sdbusplus marshals it, None when not known"""
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    while t.startswith('const ') and not t.startswith('const char'):
        t = t[6:].strip()
    if t.startswith('const char[') or t.startswith('char['):
        return 's'
    if t.startswith('std::basic_string<'):
        return 's'
    if t in BASIC:
        return BASIC[t]
    if '<' not in t or not t.endswith('>'):
        return None
    h, a = t[:t.index('<')], targs(t[t.index('<') + 1:-1])
    if h in ('std::variant',):
        return 'v'
    if h in ('std::vector', 'std::set', 'std::unordered_set', 'std::array', 'std::span', 'std::initializer_list', 'std::list', 'std::deque'):
        x = a[0]
        if x.startswith('std::pair<'):
            k, v = [sig(y) for y in targs(x[10:-1])[:2]]
            return None if None in (k, v) else 'a{%s%s}' % (k, v)
        x = sig(x)
        return None if x is None else 'a' + x
    if h in ('std::map', 'std::unordered_map', 'boost::container::flat_map'):
        k, v = sig(a[0]), sig(a[1])
        return None if None in (k, v) else 'a{%s%s}' % (k, v)
    if h in ('std::tuple', 'std::pair'):
        xs = [sig(y) for y in a]
        return None if None in xs else '(' + ''.join(xs) + ')'
    return None


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'copy', 'paren', 'bind'):
        n = n['e']
    return n


def wire(c, only=None, props=False):
    """argument and reply types of every method call in the source"""
    for cfg in ((0, 1) if c.tier != 'quick' else (0,)):
        wire_cfg(c, cfg, only, props)


def wire_cfg(c, cfg, only, props):
    P = c.P(cfg)
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f['l'])):
        if not (f.get('body') or f.get('inits')):
            continue
        msgs, replies, binds = {}, {}, {}
        where = lambda x: {'file': f['file'], 'l': x.get('l'), 'n': f['n']}

        def const(x):
            x = strip(x)
            if not isinstance(x, dict):
                return None
            if x.get('k') == 'str':
                return x['v']
            if x.get('k') == 'call' and (x.get('name') or '').endswith('c_str') and x.get('obj'):
                return const(x['obj'])
            if x.get('k') == 'var' and x.get('id') in binds:
                return const(binds[x['id']])
            if x.get('k') == 'ctor' and len(x.get('args') or ()) >= 1:
                return const(x['args'][0])
            if x.get('k') == 'gvar':
                g = P.globals.get(x['key'])
                return const(g['init']) if g and g.get('const') and g.get('init') else None
            return None

        def newcall(x):
            x = strip(x)
            if isinstance(x, dict) and x.get('k') == 'call' and (x.get('name') or '').endswith('::new_method_call'):
                a = x.get('args') or ()
                if len(a) >= 4:
                    return {'i': const(a[2]), 'm': const(a[3]), 'args': [], 'node': x, 'vals': [], 'sure': True}
            return None

        def msg_of(x):
            x = strip(x)
            if isinstance(x, dict) and x.get('k') == 'var':
                return msgs.get(x.get('id'))
            if isinstance(x, dict) and x.get('k') == 'call' and (x.get('name') or '').split('::')[-1] in ('move', 'forward') and x.get('args'):
                return msg_of(x['args'][0])
            return newcall(x)

        def reply_of(x):
            x = strip(x)
            if isinstance(x, dict) and x.get('k') == 'var':
                return replies.get(x.get('id'))
            if isinstance(x, dict) and x.get('k') == 'call' and (x.get('name') or '').split('::')[-1] in ('call', 'call_async') and \
                    x.get('args') and 'message' in (x.get('t') or ''):
                return msg_of(x['args'][0])
            return None
        reads = []
        done = []

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'decl' and x.get('init') is not None:
                go(x['init'])
                m = newcall(x['init'])
                if m:
                    msgs[x['id']] = m
                    done.append(m)
                elif 'message' in (x.get('t') or '') or x.get('ref') or True:
                    m2, r2 = msg_of(x['init']) if strip(x['init']).get('k') == 'var' else None, reply_of(x['init'])
                    if m2:
                        msgs[x['id']] = m2
                    if r2:
                        replies[x['id']] = r2
                    binds[x['id']] = x['init']
                return
            if k == 'call':
                nm = (x.get('name') or '').split('::')[-1]
                if nm == 'append' and x.get('obj') is not None:
                    go(x.get('args'))
                    m = msg_of(x['obj'])
                    if m:
                        m['args'] += [(a.get('t') or '') for a in x['args']]
                        m['vals'] += list(x['args'])
                    return
                if nm in ('read', 'unpack') and x.get('obj') is not None and 'message' in (x.get('name') or ''):
                    m = reply_of(x['obj'])
                    if m:
                        if nm == 'read':
                            reads.append((m, [(a.get('t') or '') for a in x['args']], x))
                        else:
                            reads.append((m, [x.get('t') or ''], x))
            for y in x.values():
                if isinstance(y, (dict, list)):
                    go(y)
        go(f.get('inits'))
        go(f.get('body'))
        for m in done:
            key = (m['i'], m['m'])
            if only and m['m'] not in only:
                continue
            n += 1
            want = METHODS.get(key)
            if want is None:
                c.undec('arguments', '%s:%s calls %s.%s' % (f['file'], m['node'].get('l'), m['i'], m['m']))
                continue
            ss = [sig(t) for t in m['args']]
            if None in ss:
                c.undec('arguments', '%s:%s argument types %s' % (f['file'], m['node'].get('l'), m['args']))
                continue
            if ''.join(ss) != want[0]:
                if m['args'] or not want[0]:
                    c.viol('arguments', where(m['node']), '%s is sent arguments of type "%s", it takes "%s"' % (m['m'], ''.join(ss), want[0]),
                           key='args %s %s' % (f['n'], m['m']))
                else:
                    c.undec('arguments', '%s: arguments of %s are added elsewhere' % (f['n'], m['m']))
                continue
            c.ok('arguments', '%s:%s %s(%s)' % (f['file'], m['node'].get('l'), m['m'], want[0]))
            if props and m['m'] == 'Set':
                i, p = const(m['vals'][0]), const(m['vals'][1])
                ty = strip(m['vals'][2]).get('t') or m['args'][2]
                alts = [sig(a) for a in targs(m['args'][2][m['args'][2].index('<') + 1:-1])] if '<' in m['args'][2] else [None]
                w = PROPTYPE.get((i, p))
                if p is None and i == MODEI:
                    w = 'b'
                if w is None:
                    c.undec('property-type', '%s: property %s of %s' % (f['n'], p, i))
                elif w not in alts:
                    c.viol('property-type', where(m['node']), 'property %s of %s has type "%s"; the value sent can only be "%s"'
                           % (p, i, w, '" or "'.join(str(a) for a in alts)), key='prop %s %s' % (f['n'], p))
                else:
                    c.ok('property-type', '%s sets %s.%s as %s' % (f['n'], i, p, w))
        if only:
            continue
        for m, ts, x in reads:
            want = METHODS.get((m['i'], m['m']))
            ss = [sig(t) for t in ts]
            if want is None or None in ss:
                c.undec('replies', '%s:%s reply of %s read as %s' % (f['file'], x.get('l'), m['m'], ts))
                continue
            n += 1
            if ''.join(ss) not in want[1]:
                c.viol('replies', where(x), 'the reply of %s is read as "%s", it has type "%s"' % (m['m'], ''.join(ss), want[1][0]),
                       key='reply %s %s' % (f['n'], m['m']))
            else:
                c.ok('replies', '%s:%s %s -> %s' % (f['file'], x.get('l'), m['m'], ''.join(ss)))
    c.sites += n
    return n


@check('C49')
def c49(c):
    n = wire_cfg(c, 0, None, True)
    wire_cfg(c, 1, None, True)
    # signals are read as what they carry
    P = c.P(0)
    for f in P.fns.values():
        pm = [p for p in f['params'] if 'message' in p['t']]
        st = [f.get('inits'), f.get('body')]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'lambda':
                    pm = pm + [p for p in x.get('params') or () if 'message' in p['t']]
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        for x in node_calls([f.get('inits'), f.get('body')]):
            if (x.get('name') or '').split('::')[-1] != 'read' or 'message' not in (x.get('name') or ''):
                continue
            ob = strip(x.get('obj'))
            if not (isinstance(ob, dict) and ob.get('k') == 'var'):
                continue
            if not any(p['id'] == ob.get('id') for p in pm):
                continue
            ss = [sig(a.get('t') or '') for a in x['args']]
            if None in ss:
                c.undec('signals', '%s reads %s' % (f['n'], [a.get('t') for a in x['args']]))
                continue
            t = ''.join(ss)
            if t in ('sa{sv}', 'sa{sv}as', 'oa{sa{sv}}', 'v'):
                c.ok('signals', '%s:%s %s reads a signal as %s' % (f['file'], x.get('l'), f['n'], t))
            else:
                c.viol('signals', {'file': f['file'], 'l': x.get('l'), 'n': f['n']}, 'a signal is read as "%s", which no handled signal carries' % t,
                       key='signal %s' % f['n'])
    if not n:
        c.undec('arguments', 'no method call found')
