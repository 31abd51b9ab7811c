"""The CSV logs: header against row, when a row is written, who shares a file."""
from ..spec import *
from ..extract import Broken
from .roles import *
from .loop import Loop
from .pid import pid_spec, clamp, Deg, _g
from fractions import Fraction


# ---------------------------------------------------------------- rows as columns
class Shape(Exception):
    pass


def pieces(o, v, settle):
    """the text v as literals and values"""
    v = settle(v)
    if is_str(v):
        return [v.a[1]]
    if v.op == 'cat':
        return [p for x in v.a for p in pieces(o, x, settle)]
    if v.op == 'tostr':
        x = settle(v.a[0])
        if x.op == 'ite':
            return pieces(o, T('tostr', x.a[1]) if o(x.a[0]) else T('tostr', x.a[2]), settle)
        return [x]
    if v.op == 'ite':
        return pieces(o, v.a[1] if o(v.a[0]) else v.a[2], settle)
    return [v]


def tokens(o, es, sink, settle):
    """what the effects es write into the stream: literals, values and repetitions"""
    out = []

    def keep(e):
        return e.op == 'e' and sink(e) is not None
    for e in es:
        e = filt(e, keep)
        if e is None:
            continue
        if e.op == 'e':
            out += pieces(o, sink(e), settle)
        elif e.op == 'foreach':
            got = None
            for _, leaf in cases(settle(e.a[1])):
                if leaf.op != 'effs':
                    continue
                t = tokens(o, leaf.a[0], sink, settle)
                if got is None:
                    got = t
                elif got != t:
                    if commas(got) != commas(t):
                        raise Shape('the number of columns written for an element of %s varies' % show(e.a[0].a[1]))
                    raise Undecided('the text written for one element has several forms')
            out.append(('for', e.a[0], got or []))
        else:
            raise Undecided('text written in a general loop')
    return out


def commas(ts):
    return [(commas(t[2]), t[1].a[1]) for t in ts if isinstance(t, tuple)] + [sum(t.count(',') for t in ts if isinstance(t, str))]


def columns(ts, inner=False):
    """tokens cut into columns: lists of pieces, or ('for', dom, columns)"""
    cols, cur, after, ended = [], [], False, False

    def text(t):
        nonlocal cur, after, ended
        for ch in t:
            if ended and ch:
                raise Shape('text follows the end of the line')
            if after and ch not in ',\n':
                raise Undecided('columns continue after a repetition')
            if ch == ',':
                if not after:
                    cols.append(cur)
                cur, after = [], False
            elif ch == '\n':
                if inner:
                    raise Shape('a line break inside the row')
                if not after:
                    cols.append(cur)
                cur, ended = [], True
            elif cur and isinstance(cur[-1], str):
                cur[-1] += ch
            else:
                cur.append(ch)
    for t in ts:
        if isinstance(t, str):
            text(t)
        elif isinstance(t, tuple):
            body = list(t[2])
            if not body:
                continue
            if not (isinstance(body[0], str) and body[0].startswith(',')):
                raise Undecided('a repetition does not start with a separator')
            body[0] = body[0][1:]
            if not after:
                cols.append(cur)
            cur, after = [], True
            cols.append(('for', t[1], columns([b for b in body if b != ''], True)))
        else:
            if after:
                raise Undecided('columns continue after a repetition')
            if ended:
                raise Shape('text follows the end of the line')
            cur.append(t)
    if inner:
        cols.append(cur)
    elif not ended:
        raise Shape('the line is not ended')
    return cols


def width(cols):
    n = 0
    for c in cols:
        n += 1 if isinstance(c, list) else 0
    return n


def describe(cols):
    return ' + '.join(['%d' % width(cols)] + ['%d per %s' % (len(c[2]), show(c[1].a[1])) for c in cols if isinstance(c, tuple)])


def shape(c):
    return [('for', x[1].a[1], len(x[2])) if isinstance(x, tuple) else 'col' for x in c]


def match(o, head, row, quantity):
    """None or what is wrong between a header and a row"""
    if shape(head) != shape(row):
        return 'the header has %s columns and a row %s' % (describe(head), describe(row))
    for h, r in zip(head, row):
        pairs = [(h, r, None)] if isinstance(h, list) else [(a, b, (h[1], r[1])) for a, b in zip(h[2], r[2])]
        for a, b, d in pairs:
            if len(b) != 1 and not (d is None and all(isinstance(x, str) for x in b)):
                return 'the column %s holds %d values' % (title(a), len(b))
            r_ = quantity(o, a, b[0] if b else C(''), d)
            if r_:
                return r_
    return None


def title(h):
    return ''.join(x if isinstance(x, str) else '<%s>' % show(x) for x in h)


def writes_to(loc):
    """texts the out effects put into the stream at loc"""
    return lambda e: e.a[3][0] if e.a[0] == 'out' and e.a[2] is loc else None


def ident(v):
    return v


# ---------------------------------------------------------------- the core log
class Core:
    def __init__(self, c, cfg=0):
        P = c.P(cfg)
        self.init = P.fn('LogInit')
        self.peek = P.fn('LogPeek')
        self.ctx = P.fn('LogContext')
        I_, ps = c.run(self.peek, cfg)
        self.map = None
        for s in ps:
            for t in allterms(s):
                for x in walk(t):
                    if x.op == 'has' and x.a[0].op == 'rd' and x.a[0].a[0].op == 'G':
                        self.map = x.a[0].a[0]
        self.peekI, self.peekp = I_, ps
        if self.map is None:
            raise Broken('LogPeek no longer looks a log up in a table')
        self.logrec = P.rec('PidCoreLog')
        self.ctxrec = P.rec('PidCoreContext')
        self.inforec = P.rec('pid_info_t')
        if not (self.logrec and self.ctxrec and self.inforec):
            raise Broken('PidCoreLog, PidCoreContext or pid_info_t is gone')
        fs = self.logrec['fields']
        one = lambda p, w: self._one([f['n'] for f in fs if p(f['t'])], w)
        self.last = one(lambda t: 'chrono' in t or 'duration' in t, 'time')
        self.lastctx = one(lambda t: 'PidCoreContext' in t, 'context')
        self.initI, self.initp = c.run(self.init, cfg, keep_log=True)
        self.ctxI, self.ctxp = c.run(self.ctx, cfg, keep_log=True)
        self.iname = self.par(self.init, 'string')
        self.iinfo = self.par(self.init, 'pid_info_t')
        self.clog = self.par(self.ctx, 'PidCoreLog')
        self.cctx = self.par(self.ctx, 'PidCoreContext')
        self.cnow = next((i for i, p in enumerate(self.ctx['params']) if 'chrono' in p['t'] or 'duration' in p['t']), None)
        if None in (self.iname, self.iinfo, self.clog, self.cctx, self.cnow):
            raise Broken('the parameters of LogInit or LogContext are not recognised')

    @staticmethod
    def _one(l, w):
        if len(l) != 1:
            raise Broken('the %s member of PidCoreLog is not recognised' % w)
        return l[0]

    @staticmethod
    def par(f, ty):
        l = [i for i, p in enumerate(f['params']) if ty in p['t']]
        return l[0] if len(l) == 1 else None

    def streams(self, s, I_, root=None):
        """stream locations written on path s, by their owner"""
        out = []
        for e in s.eff:
            for x in leaf_effs(e):
                if x.a[0] == 'out' and x.a[2] not in out:
                    out.append(x.a[2])
        return out


def istime(v):
    """v counts milliseconds: (1000 * seconds), possibly truncated, with a clock in it"""
    x = v
    if x.op == 'dcast':
        return x.a[0] == '1/1000' and any(y.op == 'now' for y in walk(x))
    q = mul(x, C(Fraction(1, 1000)))
    return q.op in ('sym', 'now', 'rd', 'res')


def records(c):
    """field paths of the logged records"""
    P = c.P()
    out = set()

    def go(n, pre):
        r = P.rec(n)
        for f in (r or {}).get('fields', ()):
            t = f['t'].replace('const ', '').strip()
            if P.rec(t.split('::')[-1]) and not t.startswith('std::'):
                go(t.split('::')[-1], pre + (f['n'],))
            else:
                out.add(pre + (f['n'],))
    go('PidCoreContext', ())
    go('pid_info_t', ())
    return out


@check('C38')
def c38(c):
    K = Core(c)
    have = records(c)

    def quantity(base):
        def q(o, h, v, d):
            if d is not None:
                raise Undecided('a repeated column in the core log')
            t = title(h)
            if 'epoch' in t or t in ('time', 'ms', 'time_ms', 'timestamp'):
                return None if istime(v) else 'the column %s holds %s, not the time in milliseconds' % (t, show(v)[:80])
            p = tuple(t.split('.'))
            if p not in have:
                raise Undecided('no logged quantity is called %s' % t)
            w = _g(base, *p)
            if not same(o, v, w):
                return 'the column %s holds %s' % (t, show(v)[:80])
        return q
    # header and coefficient row: written by the initialisation of a new log
    heads = {}
    name = argsym(K.iname)
    info = T('rd', T('D', argsym(K.iinfo)))

    def init(o, s):
        if s.sig != 'ret':
            return None
        known = o(has(T('rd', K.map), K_name(K, s)))
        ls = K.streams(s, K.initI)
        for l in ls:
            ts = tokens(o, s.eff, writes_to(l), ident)
            lines = split_lines(ts)
            fld_ = l.a[-1] if l.op == 'F' else None
            if fld_ is None:
                raise Undecided('the stream written is not a member of the log')
            if known:
                if len(lines) != 1:
                    return 'initialising again writes %d lines into %s' % (len(lines), fld_)
                row = columns(lines[0])
                hd = heads.get(fld_)
                if hd is None:
                    return None
                r = match(o, hd, row, quantity(info))
                if r:
                    return r
                continue
            hd = columns(lines[0])
            if not all(isinstance(x, list) and all(isinstance(y, str) for y in x) for x in hd):
                return 'the first line of %s is not a header' % fld_
            heads[fld_] = hd
            for ln in lines[1:]:
                r = match(o, hd, columns(ln), quantity(info))
                if r:
                    return r
        return None

    def shaped(g):
        def f(o, s):
            try:
                return g(o, s)
            except Shape as e:
                return str(e)
        return f
    # new logs first, so that the headers are known
    order = sorted(K.initp, key=lambda s: -len(s.eff))
    c.judge('coefficients', K.initI, order, shaped(init))
    if not heads:
        c.undec('coefficients', 'no header was recognised')
    I_ = K.ctxI

    def ctx(o, s):
        if s.sig != 'ret':
            return None
        ls = K.streams(s, I_)
        if not ls:
            return None
        if len(ls) != 1 or ls[0].op != 'F':
            return 'a row goes to %d streams' % len(ls)
        hd = heads.get(ls[0].a[-1])
        if hd is None:
            raise Undecided('the header of %s is not recognised' % ls[0].a[-1])
        lines = split_lines(tokens(o, s.eff, writes_to(ls[0]), ident))
        if len(lines) != 1:
            return '%d lines are written for one step' % len(lines)
        return match(o, hd, columns(lines[0]), quantity(argsym(K.cctx)))
    c.judge('context', I_, K.ctxp, shaped(ctx))
    context_values(c, K)
    zone_log(c, shaped)


def K_name(K, s):
    return argsym(K.iname)


def split_lines(ts):
    """tokens grouped by line, each with its end"""
    out, cur = [], []
    for t in ts:
        if isinstance(t, str):
            parts = t.split('\n')
            for p in parts[:-1]:
                cur.append(p)
                cur.append('\n')
                out.append([x for x in cur if x != ''])
                cur = []
            if parts[-1]:
                cur.append(parts[-1])
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def context_values(c, K):
    """the quantities a PID step hands to the log are the ones of that step"""
    P = c.P()
    f = P.fn('ec::pid')
    if len(f['params']) != 4:
        raise Broken('ec::pid no longer has four parameters')
    I_, ps = c.run(f, opaque={'LogInit', 'LogPeek', 'LogContext', 'LogTimestamp'})
    L = T('D', argsym(0))
    inp, sp = argsym(1), argsym(2)
    n = [0]

    def f_(o, s):
        if s.sig != 'ret':
            return None
        for e in s.eff:
            if not (e.op == 'e' and e.a[1].split('::')[-1] == 'LogContext'):
                continue
            n[0] += 1
            cx = next((a for a in e.a[3] if isinstance(a, T) and a.op in ('rec', 'rec0')), None)
            if cx is None:
                raise Undecided('the logged context is not recognised')
            info = T('rd', L)
            lo = any(x.op == 'out' and x.a[0] == 'LogInit' for x in walk(s.load(L)))
            if lo:
                info = next(x for x in walk(s.load(L)) if x.op == 'out' and x.a[0] == 'LogInit')
            g = lambda *p: _g(info, *p)
            err = sub(sp, inp)
            want = {'input': inp, 'setpoint': sp, 'error': err, 'proportionalTerm': mul(g('proportionalCoeff'), err),
                    'derivativeTerm': mul(g('derivativeCoeff'), div(sub(err, g('lastError')), g('ts'))),
                    'feedFwdTerm': mul(add(sp, g('feedFwdOffset')), g('feedFwdGain')),
                    'output': s.val}
            have = {x['n'] for x in K.ctxrec['fields']}
            for k, w in want.items():
                if k in have:
                    r = c.expect(o, getf(cx, k), w, 'the logged %s' % k, e)
                    if r:
                        return r
            if o(eq(g('integralCoeff'), ZERO)):
                i1 = ZERO
            else:
                i1 = add(g('integral'), mul(err, g('integralCoeff'), g('ts')))
            if 'integralTerm1' in have:
                r = c.expect(o, getf(cx, 'integralTerm1'), i1, 'the logged integralTerm1', e)
                if r:
                    return r
            ini = o(g('initialized'))
            for k, sl in (('minOut', 'slewNeg'), ('maxOut', 'slewPos')):
                if k in have:
                    w = ZERO
                    if ini and not o(eq(g(sl), ZERO)):
                        w = add(g('lastOutput'), mul(g(sl), g('ts')))
                    r = c.expect(o, getf(cx, k), w, 'the logged %s' % k, e)
                    if r:
                        return r
        return None
    c.judge('values', I_, ps, f_)

    def later(o, s):
        if s.sig != 'ret':
            return None
        for e in s.eff:
            if not (e.op == 'e' and e.a[1].split('::')[-1] == 'LogContext'):
                continue
            cx = next((a for a in e.a[3] if isinstance(a, T) and a.op in ('rec', 'rec0')), None)
            after = s.load(L)
            for k, w in (('integralTerm', getf(after, 'integral')),):
                if cx is not None:
                    r = c.expect(o, getf(cx, k), w, 'the logged %s' % k, e)
                    if r:
                        return r
            info = T('rd', L)
            g = lambda *p: _g(info, *p)
            try:
                err = sub(sp, inp)
                I0 = ZERO
                if not o(eq(g('integralCoeff'), ZERO)):
                    I0 = clamp(o, add(g('integral'), mul(err, g('integralCoeff'), g('ts'))), g('integralLimit', 'min'),
                               g('integralLimit', 'max'))
                r = c.expect(o, getf(cx, 'integralTerm2'), I0, 'the logged integralTerm2', e)
                if r:
                    return r
                out1 = add(mul(g('proportionalCoeff'), err), I0, mul(g('derivativeCoeff'), div(sub(err, g('lastError')), g('ts'))),
                           mul(add(sp, g('feedFwdOffset')), g('feedFwdGain')))
                out2 = clamp(o, out1, g('outLim', 'min'), g('outLim', 'max'))
                for k, w in (('output1', out1), ('output2', out2), ('output3', s.val)):
                    r = c.expect(o, getf(cx, k), w, 'the logged %s' % k, e)
                    if r:
                        return r
            except Deg:
                return None
        return None
    initd = [s for s in ps if not any(e.op == 'e' and e.a[1].split('::')[-1] == 'LogInit' for e in s.eff)]
    c.judge('values', I_, initd, later)
    if not n[0]:
        c.undec('values', 'no step hands a context to the log')


# ---------------------------------------------------------------- the zone log
def zone_log(c, shaped):
    P = c.P()
    Z = Zone(c)
    Z.need('FAN', 'TH', 'CACHE', 'MAX', 'LEAD')
    I_, ps = c.run('DbusPidZone::setOutputCache')
    outc = next((k for s in ps for k in changed(s)), None)
    if outc is None:
        raise Broken('setOutputCache changes nothing')
    caches = {Z.CACHE, outc}
    I_, hs = c.run('DbusPidZone::initializeLog', keep_log=True)
    logs = {x.a[2] for s in hs for e in s.eff for x in leaf_effs(e) if x.a[0] == 'out'}
    if len(logs) != 1:
        raise Broken('initializeLog writes %d streams' % len(logs))
    log = logs.pop()
    headers = []

    def settle(v):
        # every fan and thermal input has an entry in the caches from initializeCache on
        def g(x):
            if x.op == 'ite' and x.a[0].op == 'has' and any(
                    y.op == 'sel' and y.a[0] is T('rd', THIS) and y.a[1] in caches or
                    y.op == 'phi' and y.a[0] in {tl(k) for k in caches} for y in walk(x.a[0].a[0])):
                return subst(x.a[1], g)
            return None
        return subst(v, g)

    def hd(o, s):
        if s.sig != 'ret':
            return None
        h = columns(tokens(o, s.eff, writes_to(log), settle))
        headers.append(h)
        n = 0
        for x in h:
            if isinstance(x, tuple):
                n += 1
                el = T('el', x[1])
                if x[1].a[1] not in (Z.v('FAN'), Z.v('TH')):
                    return 'the header has columns for each element of %s' % show(x[1].a[1])
                for t in x[2]:
                    if el not in t:
                        return 'the heading %s does not name its input' % title(t)
                ts = [title(t) for t in x[2]]
            else:
                if not all(isinstance(y, str) for y in x):
                    raise Undecided('a heading is not constant')
                ts = [title(x)]
            if len(set(ts)) != len(ts):
                return 'two columns of an input have the same heading'
        return None
    c.judge('zone-header', I_, hs, shaped(hd))
    if len(headers) != 1:
        c.undec('zone-header', '%d forms of the header' % len(headers))
        return
    head = headers[0]
    I_, wl = c.run('DbusPidZone::writeLog', keep_log=True)

    def wr(o, s):
        t = tokens(o, s.eff, writes_to(log), ident)
        if t != [argsym(0)]:
            return 'writeLog does not write its argument to the zone log'
    c.judge('zone-write', I_, wl, shaped(wr))
    # the rest of a row, from the control loop
    L = Loop(c)
    tails = []

    def tick(o, s):
        if s.sig != 'ret':
            return None
        for a, v in s.facts.lits.items():
            if L.ec in set(walk(a)) and v:
                return None
        ns = [e.a[1] for e in s.eff if e.op == 'e']
        on = o(T('rd', G(P, 'loggingEnabled')))
        if 'updateFanTelemetry' not in ns:
            if 'writeLog' in ns:
                return 'a partial row is logged in a cycle that polls no fan'
            return None
        w = [e for e in s.eff if e.op == 'e' and e.a[1] == 'writeLog']
        if not on:
            return ('a row is completed although logging is off', w[0]) if w else None
        if not w:
            return 'the row started by the telemetry step is not completed'
        if any(ns.index('updateFanTelemetry') > i for i, n in enumerate(ns) if n == 'writeLog'):
            return 'the row is completed before it is started'
        t = []
        for e in w:
            t += pieces(o, e.a[3][0], ident)
        if t not in tails:
            tails.append(t)
        return None
    for cl, qs in L.body.items():
        c.judge('zone-row', L.I_, qs, tick, 'the timer handler')

    def first(o, s):
        if s.sig != 'ret':
            return None
        n = sum(1 for e in s.eff if e.op == 'e' and e.a[1] == 'initializeLog')
        if o(T('rd', T('D', argsym(2)))):
            return None
        want = 1 if o(argsym(3)) and o(T('rd', G(P, 'loggingEnabled'))) else 0
        if n != want:
            return 'the header is written %d times%s' % (n, ' at the start' if o(argsym(3)) else ' when re-arming')
    c.judge('zone-header', L.I_, L.top, first)
    if len(tails) != 1:
        c.undec('zone-row', '%d ways to end a row' % len(tails))
        return
    tail = tails[0]
    # opening the log
    ct = P.fn('DbusPidZone::DbusPidZone')
    I_, cs = c.run(ct, keep_log=True)

    def op(o, s):
        if s.sig != 'ret':
            return None
        on = o(T('rd', G(P, 'loggingEnabled')))
        es = [e for e in s.eff if e.op == 'e' and e.a[0] == 'file' and e.a[1] == 'open']
        if not on:
            return ('a log file is opened although logging is off', es[0]) if es else None
        if len(es) != 1 or es[0].a[2] is not log:
            return 'the log of the zone is not opened'
        v = es[0].a[3][0]
        z = getf(s.store.get(THIS, T('rd', THIS)), Z.ID) if Z.ID else None
        if z is not None and z not in set(walk(v)):
            return ('the log file does not depend on the zone number, so zones share it', es[0])
    c.judge('zone-open', I_, cs, op)
    I_, us = c.run('DbusPidZone::updateFanTelemetry', keep_log=True)

    def cached(v, key, fieldname, cache):
        """v is the named part of the cached entry of key"""
        if v.op == 'sel' and v.a[1] == fieldname:
            m = v.a[0]
            if m.op == 'at' and m.a[1] is key:
                for x in walk(m.a[0]):
                    if x is tf(cache) or x.op in ('phi', 'fold') and x.a[0] is tl(cache):
                        return True
        return False

    def isread(v, key, fieldname):
        """v is that part of a reading of the sensor called key"""
        return v.op == 'sel' and v.a[1] == fieldname and v.a[0].op == 'res' and v.a[0].a[0] == 'read' and \
            key in set(walk(v.a[0].a[1]))

    def row(o, s):
        if s.sig != 'ret':
            return None
        if not o(T('rd', G(P, 'loggingEnabled'))):
            t = tokens(o, s.eff, writes_to(log), settle)
            return 'a row is written although logging is off' if t else None
        r = columns(tokens(o, s.eff, writes_to(log), settle) + tail)

        def q(o, h, v, d):
            t = title(h)
            if d is None:
                if 'epoch' in t:
                    return None if istime(v) else 'the column %s holds %s' % (t, show(v)[:80])
                w = {'setpt': Z.v('MAX'), 'requester': Z.v('LEAD')}.get(t)
                if w is not None:
                    return None if same(o, v, w) else 'the column %s holds %s' % (t, show(v)[:80])
                if t == 'failsafe':
                    ok = v.op in ('get', 'res') and 'getFailSafeMode' in v.a[0]
                    return None if ok else 'the column %s holds %s' % (t, show(v)[:80])
                raise Undecided('unknown heading %s' % t)
            key = T('el', d[1])
            suf = ''.join(x for x in h if isinstance(x, str))
            want = {'': (Z.CACHE, 'scaled', 'value'), '_raw': (Z.CACHE, 'unscaled', 'unscaled'),
                    '_pwm': (outc, 'scaled', None), '_pwm_raw': (outc, 'unscaled', None)}.get(suf)
            if want is None:
                raise Undecided('unknown heading suffix %s' % suf)
            if cached(v, key, want[1], want[0]) or (want[2] and isread(v, key, want[2])):
                return None
            for x in walk(v):
                if x.op in ('opq', 'part'):
                    raise Undecided('the column %s holds %s' % (t, show(v)[:80]))
            return 'the column <input>%s holds %s' % (suf, show(v)[:100])
        return match(o, head, r, q)
    c.judge('zone-row', I_, us, shaped(row))


# ---------------------------------------------------------------- when and where the core log is written
@check('C39')
def c39(c):
    K = Core(c)
    P = c.P()
    log, now, cx = argsym(K.clog), argsym(K.cnow), argsym(K.cctx)
    lastt, lastc = getf(log, K.last), getf(log, K.lastctx)

    def step(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        should = o(eq(lastt, ZERO)) or not o(eq(lastc, cx)) or not o(lt(sub(now, lastt), C(60)))
        rows = [e for e in s.eff for x in leaf_effs(e) if x.a[0] == 'out']
        after = s.load(ploc(K.ctxI, K.clog))
        if should:
            if not rows:
                return 'a step is not logged although it differs from the last line, or that is a minute old, or there is none'
            if not same(o, getf(after, K.last), now):
                return 'the time of the line written is not kept'
            if not same(o, getf(after, K.lastctx), cx):
                return 'the quantities of the line written are not kept'
        else:
            if rows:
                return ('a step that repeats the last line is logged within a minute', rows[0])
            for k in (K.last, K.lastctx):
                if not same(o, getf(after, k), getf(log, k)):
                    return 'a step that is not logged changes %s' % k
        return None
    c.judge('throttle', K.ctxI, K.ctxp, step)
    # all fields of the context take part in the comparison
    compared(c, P, K)

    def peek(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        k = argsym(0)
        there = o(has(T('rd', K.map), k))
        v = head(o, s.val)
        if not there:
            return None if v is NULL else 'a log is found for a controller that has none'
        if not (v.op == 'addr' and v.a[0] is T('I', K.map, k)):
            return 'the log of the controller is not returned but %s' % show(v)[:80]
    c.judge('lookup', K.peekI, K.peekp, peek)
    init_rules(c, K, P)
    steps_logged(c, K, P)


def compared(c, P, K):
    """operator== of the context compares every member"""
    r = K.ctxrec
    fs = [P.fns[k] for k in P.mkey if P.mkey[k][0] is r and P.mkey[k][1].get('n', '').split('::')[-1] in ('operator==', 'operator!=') and
          k in P.fns and P.fns[k].get('body')]
    if not fs:
        c.ok('throttle', 'the context is compared member by member (defaulted)')
    for f in fs:
        ne = f['n'].endswith('!=')
        I_, ps = c.run(f)

        def g(o, s):
            if s.sig != 'ret':
                return None
            a, b = T('rd', THIS), argsym(0)
            eqs = all([same(o, getf(a, x['n']), getf(b, x['n'])) for x in r['fields']])
            if o(s.val) != (eqs != ne):
                return 'the comparison of contexts ignores or misjudges a member'
        c.judge('throttle', I_, ps, g)


def init_rules(c, K, P):
    name = argsym(K.iname)
    M = T('rd', K.map)
    on = T('rd', G(P, 'coreLoggingEnabled'))
    prefixes_ = {}
    entry = {}
    cleanf = {}

    def opened(s):
        return [e for e in s.eff if e.op == 'e' and e.a[0] == 'file' and e.a[1] == 'open']

    def cleanof(v):
        """(constant part, name part) of a file name"""
        ps = list(v.a) if v.op == 'cat' else [v]
        ps = [p for p in ps if p is not T('rd', G(P, 'loggingPath'))]
        k = ''.join(p.a[1] for p in ps if is_str(p))
        n = [p for p in ps if not is_str(p)]
        return k, n

    rowf = {x.a[2].a[1] for s in K.ctxp for e in s.eff for x in leaf_effs(e)
            if x.a[0] == 'out' and isinstance(x.a[2], T) and x.a[2].op == 'F'}
    for s in K.initp:
        for e in opened(s):
            k, n = cleanof(e.a[3][0])
            prefixes_.setdefault(k, set()).update(n)
    cleans = {x for v in prefixes_.values() for x in v}

    def init(o, s):
        if s.sig != 'ret':
            return 'fails with %s' % show(s.val)
        op = opened(s)
        after = s.store.get(K.map, M)
        touched = after is not M or any(x.a[0] in ('out', 'file') for e in s.eff for x in leaf_effs(e))
        if not o(on):
            if op:
                return ('a file is opened although core logging is off', op[0])
            return 'logs are touched although core logging is off' if touched else None
        if o(isempty(name)):
            return 'a controller without a name is logged' if touched else None
        known = o(has(M, name))
        if known:
            if op:
                return ('a file is opened again for a controller that has one', op[0])
        if op:
            for e in op:
                k, n = cleanof(e.a[3][0])
                if len(n) != 1:
                    raise Undecided('file name %s' % show(e.a[3][0])[:80])
                if not o.facts.decide(isempty(n[0])) is False and o(isempty(n[0])):
                    return ('a file is opened for a name that is unusable', e)
            ks = [cleanof(e.a[3][0])[0] for e in op]
            if len(set(ks)) != len(ks):
                return ('both logs of a controller use one file', op[-1])
        if has(after, name) is not TRUE and not o(has(after, name)):
            if touched and after is not M:
                return 'the table of logs changes although logging is refused'
            # refused: allowed only for an unusable or colliding name or a file that does not open
            if any(a.op == 'has' and a.a[1] is C('#ok') and v is False for a, v in o.facts.lits.items()):
                return None
            for n in cleans:
                if o(isempty(n)):
                    return None
            fs = [f['n'] for f in K.logrec['fields'] if 'string' in f['t']]
            el = T('el', dom(M, 'map'))
            for n in cleans:
                for f in fs:
                    if o.facts.decide(mkany(dom(M, 'map'), eq(n, getf(getf(el, 'second'), f)))) is True:
                        return None
            return 'logging is refused for a usable name that is not taken'
        if not touched and any(o(isempty(n)) for n in cleans):
            return None                               # unusable names are never in the table
        new = getat(after, name)
        if not same(o, getf(new, K.last), ZERO):
            return 'the first step after initialisation need not be logged'
        if known:
            for f in K.logrec['fields']:
                if 'stream' in f['t'] or f['n'] in (K.last, K.lastctx):
                    continue
                if not same(o, getf(new, f['n']), getf(getat(M, name), f['n'])):
                    return 'initialising again changes %s of the log' % f['n']
        else:
            if len(op) < 2:
                return 'a log is started without opening its files'
            # the file is open before it is used
            bad = [a for a, v in o.facts.lits.items() if a.op == 'has' and a.a[1] is C('#ok') and not v]
            if bad:
                return 'a log is started although a file did not open'
            for e in op:
                if not any(a.op == 'has' and a.a[1] is C('#ok') and e.a[3][0] in set(walk(a.a[0])) for a in o.facts.lits):
                    return ('whether the file opened is not tested', e)
            # which of the two files receives the time series is documented
            for f in K.logrec['fields']:
                if 'stream' not in f['t']:
                    continue
                for y in walk(o.val(getf(new, f['n']))):
                    if y.op == 'mut' and y.a[0] == 'open':
                        k = cleanof(y.a[2][0])[0]
                        w = 'core' if f['n'] in rowf else 'coeff'
                        if rowf and ('coeff' in k) != (w == 'coeff'):
                            return ('the %s goes to the file %s<name>' % (
                                'time series' if w == 'core' else 'list of coefficients', k), op[-1])
            fs = [f['n'] for f in K.logrec['fields'] if 'string' in f['t']]
            n = cleanof(op[0].a[3][0])[1][0]
            el = T('el', dom(M, 'map'))
            for f in fs:
                a = mkany(dom(M, 'map'), eq(n, getf(getf(el, 'second'), f)))
                if same(o, getf(new, f), n) and o.facts.decide(a) is False:
                    break
            else:
                if n is name:
                    pass
                elif any(x.op in ('opq', 'part', 'fold', 'while') for x in list(o.facts.lits) + [new]):
                    raise Undecided('the collision test is not recognised')
                else:
                    return ('two controllers whose names differ may get the same file', op[0])
        # no other log is affected
        bad = samemap(o, after, lambda k: (lor(eq(k, name), has(M, k)), ite(eq(k, name), new, getat(M, k))), vals=True)
        if bad is not None:
            return 'the log of another controller (%s) is affected' % show(bad)
        return None
    c.judge('start', K.initI, K.initp, init)
    if not prefixes_:
        c.undec('start', 'no log file is opened')
    allk = list(prefixes_)
    for i, a in enumerate(allk):
        for b in allk[i + 1:]:
            x, y = a.lstrip('/'), b.lstrip('/')
            if x.startswith(y) or y.startswith(x):
                c.viol('files', K.init, 'the files %s<name> and %s<name> can coincide' % (a, b))
            else:
                c.ok('files', '%s and %s differ for all names' % (a, b))
    for n in sorted(cleans, key=lambda t: t.id):
        usable(c, K, n)


def usable(c, K, n):
    """only characters safe in a file name are kept, each letter and digit is"""
    if n.op != 'catl' or len(n.a) != 3:
        c.undec('clean', 'the cleaned name is %s' % show(n)[:80])
        return
    d, cond, v = n.a
    el = T('el', d)
    if v is not el or d.a[1] is not argsym(K.iname):
        c.undec('clean', 'the cleaned name is %s' % show(n)[:80])
        return
    for code in list(range(-128, 0)) + list(range(128)):
        r = subst(cond, lambda x: C(code) if x is el else None)
        while r.op not in 'c':
            x = simplify(r)
            if x is r:
                break
            r = x
        ch = chr(code) if code >= 0 else None
        if r not in (TRUE, FALSE):
            c.undec('clean', 'character %d' % code)
            return
        if ch in ('/', '\0') and r is TRUE:
            c.viol('clean', K.init, 'the character %r reaches a file name' % ch)
            return
        if ch is not None and ch.isalnum() and r is FALSE:
            c.viol('clean', K.init, 'the character %r is dropped from names, so controllers that differ in it cannot both be logged' % ch)
            return
    c.ok('clean', '256 characters classified')


def simplify(t):
    return subst(t, lambda x: None)


def steps_logged(c, K, P):
    """every step of a controller that has a log is offered to that log"""
    f = P.fn('ec::pid')
    I_, ps = c.run(f, opaque={'LogInit', 'LogPeek', 'LogContext', 'LogTimestamp'})
    nm = argsym(3)

    def st(o, s):
        if s.sig != 'ret':
            return None
        by = {}
        for i, e in enumerate(s.eff):
            if e.op == 'e':
                by.setdefault(e.a[1].split('::')[-1], []).append((i, e))
        if o(isnull(nm)):
            bad = [e for k in ('LogInit', 'LogContext') for _, e in by.get(k, ())]
            return ('a controller without a name is logged', bad[0]) if bad else None
        me = T('rd', T('D', nm))
        ini = o(getf(T('rd', T('D', argsym(0))), 'initialized'))
        n = len(by.get('LogInit', ()))
        if n != (0 if ini else 1):
            return 'the log is initialised %d times in %s step' % (n, 'a later' if ini else 'the first')
        for _, e in by.get('LogInit', ()):
            if me not in e.a[3] or not any(isinstance(a, T) and (a is argsym(0) or a is addr(T('D', argsym(0))) or a.op == 'outarg') for a in e.a[3]):
                return ('the log is initialised for %s' % show(e.a[3][0]), e)
        pk = by.get('LogPeek', ())
        if not pk:
            return 'the log of the controller is not looked up'
        i, e = pk[-1]
        if me not in e.a[3]:
            return ('the log of %s is used' % show(e.a[3][0])[:80], e)
        if by.get('LogInit') and by['LogInit'][-1][0] > i:
            return ('the log is looked up before it is initialised', e)
        r = [x for x in o.facts.lits if x.op == 'isnull' and x.a[0].op == 'res' and x.a[0].a[0].split('::')[-1] == 'LogPeek']
        if not r:
            raise Undecided('the log found is not tested')
        none = any(o(x) for x in r)
        cx = by.get('LogContext', ())
        if none:
            return ('a step is logged without a log', cx[0][1]) if cx else None
        if len(cx) != 1:
            return 'a step is offered to its log %d times' % len(cx)
        e = cx[0][1]
        if not any(isinstance(a, T) and a.op == 'res' and a.a[0].split('::')[-1] == 'LogTimestamp' for a in e.a[3]):
            return ('the time handed to the log is not the time of the step', e)
        return None
    c.judge('step', I_, ps, st)
    # the caller names itself
    if not P.find('calPIDOutput'):
        return
    I_, ps = c.run('calPIDOutput', opaque={'LogInit', 'LogPeek', 'LogContext', 'LogTimestamp'})
    ID = ret_field(c, 'PIDController::getID') if P.find('PIDController::getID') else None
    if ID is None:
        return

    def me(o, s):
        for e in s.eff:
            if e.op == 'e' and e.a[1].split('::')[-1] in ('LogInit', 'LogPeek') and tf(ID) not in e.a[3]:
                return ('the step is logged under %s, not under the name of the controller' % show(e.a[3][0])[:80], e)
        return None
    c.judge('name', I_, ps, me)
