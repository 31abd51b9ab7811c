"""The control loop: stage order, period, re-arming, cancellation."""
from ..spec import *
from ..extract import Broken

ZONE, TIMER, CANC, FIRST, CNT = (argsym(i) for i in range(5))
CFLAG = T('rd', T('D', CANC))
STAGES = ('updateSensors', 'clearSetPoints', 'clearRPMCeilings', 'processThermals', 'determineMaxSetPointRequest')
WORK = STAGES + ('initializeCache', 'updateFanTelemetry', 'processFans')


class Loop:
    def __init__(self, c, cfg=0):
        self.c = c
        P = c.P(cfg)
        f = P.fn('pidControlLoop')
        if len(f['params']) != 5:
            raise Broken('pidControlLoop no longer has five parameters')
        self.f = f
        self.I_, self.top = c.run(f, cfg)
        self.clos = []
        for s in self.top:
            for e in s.eff:
                if e.op == 'e' and e.a[1] == 'async_wait' and e.a[3] and e.a[3][0].op in ('clo', 'fn'):
                    if e.a[3][0] not in self.clos:
                        self.clos.append(e.a[3][0])
        self.ec = T('sym', 'ec')
        self.body = {cl: c.run_clo(self.I_, cl, [self.ec], opaque={'pidControlLoop'}) for cl in self.clos}

    def aborted(self, o):
        """the wait was aborted on this path"""
        for a in list(o.facts.lits):
            if self.ec in set(walk(a)):
                return o(a)
        return None


def names(s):
    out = []
    for e in s.eff:
        if e.op == 'e':
            out.append(e.a[1])
        elif e.op in ('foreach', 'repeat'):
            out.append(e.op)
    return out


def rearm(s):
    """index of the re-arming effects in s"""
    return [i for i, e in enumerate(s.eff) if e.op == 'e' and e.a[1] in ('pidControlLoop', 'async_wait')]


def is_abort(I_, a, ec):
    """a is the test 'the wait was cancelled'"""
    return any(x is ec for x in walk(a)) and a.op in ('eqk', 'eqc') or (a.op in ('get', 'res') and ec in set(walk(a)))


def body_paths(L):
    """(closure, path, cancelled?) for every path of the timer handler"""
    for cl, ps in L.body.items():
        for s in ps:
            can = None
            for a, v in s.facts.lits.items():
                if L.ec in set(walk(a)):
                    can = v
            yield cl, s, can


def thermal_pass(seq, o=None):
    """None if the stages in seq form one thermal pass in the required order"""
    st = [n for n in seq if n in STAGES]
    need = {'updateSensors', 'clearSetPoints', 'clearRPMCeilings', 'processThermals', 'determineMaxSetPointRequest'}
    for n in sorted(need):
        if st.count(n) != 1:
            return '%s happens %d times in a thermal pass' % (n, st.count(n))
    p = {n: st.index(n) for n in need}
    for a, b in (('updateSensors', 'processThermals'), ('clearSetPoints', 'processThermals'),
                 ('clearRPMCeilings', 'processThermals'), ('processThermals', 'determineMaxSetPointRequest')):
        if p[a] > p[b]:
            return '%s comes after %s' % (a, b)
    return None


@check('C06')
def c06(c):
    L = Loop(c)
    I_ = L.I_
    n = 0

    def top(o, s):
        if s.sig != 'ret':
            return None
        seq = [x for x in names(s) if x in WORK]
        if o(CFLAG):
            return None
        if o(FIRST):
            if seq.count('initializeCache') != 1:
                return 'the first cycle initialises the cache %d times' % seq.count('initializeCache')
            if seq[0] != 'initializeCache':
                return 'the first cycle runs %s before initialising the cache' % seq[0]
            r = thermal_pass(seq)
            if r:
                return 'first cycle: ' + r
            if 'processFans' in seq:
                return 'the first cycle drives the fans before fan telemetry was polled'
        elif seq:
            return 're-arming runs %s outside the timer handler' % seq[0]
        for e in s.eff:
            if e.op == 'e' and e.a[1] in WORK and e.a[2] is not ZONE:
                return ('%s is applied to %s' % (e.a[1], show(e.a[2])), e)
    c.judge('first', I_, L.top, top)
    if not L.clos:
        c.viol('cycle', L.f, 'no timer handler is installed')
    # order of one cycle
    nt = T('get', 'getUpdateThermalsCycle', ZONE, ())
    ni = T('get', 'getCycleIntervalTime', ZONE, ())

    for cl, ps in L.body.items():
        def cyc(o, s):
            if s.sig != 'ret':
                return None
            for a, v in s.facts.lits.items():
                if L.ec in set(walk(a)) and v:
                    return None
            if o(getter('getManualMode', ZONE)):
                return None
            if not any(L.ec in set(walk(a)) for a in o.facts.lits) and not any(x in WORK for x in names(s)):
                return None
            seq = [x for x in names(s) if x in WORK]
            if seq.count('updateFanTelemetry') != 1 or seq[0] != 'updateFanTelemetry':
                return 'a cycle does not start by polling fan telemetry once (%s)' % ', '.join(seq)
            if seq.count('processFans') != 1 or seq[-1] != 'processFans':
                return 'a cycle does not end by driving the fans once (%s)' % ', '.join(seq)
            if 'initializeCache' in seq:
                return 'the cache is initialised again'
            cnt = CNT
            due = not o(lt(cnt, nt))
            mid = [x for x in seq if x in STAGES]
            if due:
                r = thermal_pass(mid)
                if r:
                    return r
                cnt = sub(cnt, nt)
            elif mid:
                return 'a thermal pass runs although the accumulated time has not reached the thermal period'
            for e in s.eff:
                if e.op == 'e' and e.a[1] in WORK and e.a[2] is not ZONE:
                    return ('%s is applied to %s' % (e.a[1], show(e.a[2])), e)
            ra = [e for e in s.eff if e.op == 'e' and e.a[1] == 'pidControlLoop']
            if ra:
                e = ra[0]
                got = e.a[3][4]
                r = c.expect(o, e.a[3][3], FALSE, 'the first-cycle flag of the next cycle', e)
                return r or c.expect(o, got, add(cnt, ni), 'the accumulated time of the next cycle', e)
            aw = [e for e in s.eff if e.op == 'e' and e.a[1] == 'async_wait']
            if aw:
                return ('undecided', 'the next cycle is scheduled without pidControlLoop')
            return None      # C07 reports a missing re-arm
        c.judge('cycle', I_, ps, cyc, 'timer handler')


@check('C07')
def c07(c):
    L = Loop(c)
    I_ = L.I_

    def top(o, s):
        if s.sig != 'ret':
            return 'can fail with %s' % show(s.val)
        if o(CFLAG):
            if s.eff:
                return ('a cancelled loop still performs %s' % show(s.eff[0]), s.eff[0])
            return None
        aw = [e for e in s.eff if e.op == 'e' and e.a[1] == 'async_wait']
        ex = [e for e in s.eff if e.op == 'e' and e.a[1] in ('expires_at', 'expires_after')]
        if len(aw) != 1:
            return 'the timer is armed %d times' % len(aw)
        if aw[0].a[2] is not TIMER:
            return ('the wait is on %s' % show(aw[0].a[2]), aw[0])
        if not ex or ex[-1].a[2] is not TIMER:
            return 'the next deadline is not set'
        if s.eff.index(ex[-1]) > s.eff.index(aw[0]):
            return ('the deadline is set after the wait was started', ex[-1])
        got = ex[-1].a[3][0]
        iv = mul(C(Fraction(1, 1000)), getter('getCycleIntervalTime', ZONE))
        if ex[-1].a[1] == 'expires_after':
            if o(FIRST):
                return c.expect(o, got, iv, 'the first interval', ex[-1])
            return ('the deadline is relative to now, not to the previous deadline', ex[-1])
        if o(FIRST):
            d = o.val(sub(got, iv))
            if d.op != 'now':
                return ('the first deadline is %s, not one interval from now' % show(got), ex[-1])
            return None
        return c.expect(o, got, add(getter('expiry', TIMER), iv), 'the next deadline', ex[-1])
    c.judge('arm', I_, L.top, top)
    for cl, ps in L.body.items():
        seen_abort = [False]

        def handler(o, s):
            if s.sig != 'ret':
                return None
            ab = None
            for a, v in s.facts.lits.items():
                if L.ec in set(walk(a)):
                    if a.op in ('eqk', 'eqc') and 'operation_aborted' in show(a) or a.op in ('get', 'res', 'eqk'):
                        ab = bool(v) if ab is None else ab
            if ab:
                seen_abort[0] = True
                if s.eff:
                    return ('an aborted wait still leads to %s' % show(s.eff[0]), s.eff[0])
                return None
            ra = [e for e in s.eff if e.op == 'e' and e.a[1] == 'pidControlLoop']
            aw = [e for e in s.eff if e.op == 'e' and e.a[1] == 'async_wait']
            if len(ra) + len(aw) != 1:
                return 'a completed cycle re-arms %d times' % (len(ra) + len(aw))
            if ra:
                a = ra[0].a[3]
                for i, (g, w, nm) in enumerate(((a[0], ZONE, 'zone'), (a[1], TIMER, 'timer'), (a[2], CANC, 'cancel flag'))):
                    if not same(o, g, w):
                        return ('the next cycle gets another %s: %s' % (nm, show(g)), ra[0])
                r = c.expect(o, a[3], FALSE, 'the first-cycle flag of the next cycle', ra[0])
                if r:
                    return r
                if s.eff[-1] is not ra[0] and any(e.op == 'e' and e.a[1] in WORK for e in s.eff[s.eff.index(ra[0]):]):
                    return ('work continues after re-arming', ra[0])
            else:
                return ('undecided', 're-armed without pidControlLoop')
        c.judge('handler', I_, ps, handler, 'timer handler')
        if not seen_abort[0]:
            c.viol('abort', L.f, 'the handler does not distinguish an aborted wait')
    if not L.clos:
        c.viol('arm', L.f, 'no handler is installed')


def manual_hands_off(c, rule):
    L = Loop(c)
    man = getter('getManualMode', ZONE)
    for cl, ps in L.body.items():
        seen = [0]

        def f(o, s):
            if any(x in WORK for x in names(s)):
                if o.facts.decide(man) is None:
                    return 'sensors or controllers run without looking at manual mode'
            if o.facts.decide(man) is True:
                seen[0] += 1
                w = [e for e in s.eff if e.op == 'e' and e.a[1] in WORK]
                if w:
                    return ('%s runs in manual mode' % w[0].a[1], w[0])
        c.judge(rule, L.I_, ps, f, 'timer handler')
    if not L.clos:
        c.viol(rule, L.f, 'no handler is installed')


def first_init(c, rule):
    L = Loop(c)

    def top(o, s):
        if s.sig != 'ret' or o(CFLAG) or not o(FIRST):
            return None
        seq = [x for x in names(s) if x in WORK]
        if not seq or seq[0] != 'initializeCache':
            return 'a starting loop runs %s before every input was put into failsafe' % (seq[0] if seq else 'nothing')
    c.judge(rule, L.I_, L.top, top)
