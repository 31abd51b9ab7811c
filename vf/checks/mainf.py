"""Start, reload and shutdown of the daemon (main.cpp) and the event that asks
for a reload."""
from ..spec import *
from ..extract import Broken
from .io import cls_of  # noqa

ABORTED = C(125)
START = ('buildSensors', 'buildZones', 'buildFailsafeLoggers', 'pidControlLoop')
HELPERS = {'stopControlLoops', 'searchConfigurationPath', 'parseValidateJson', 'buildSensorsFromJson',
           'buildPIDsFromJson', 'init'} | set(START)
TRY, TERM = 'tryRestartControlLoops', 'tryTerminateControlLoops'


def main_globals(c, cfg=0):
    """locations of the daemon's state, found by type"""
    P = c.P(cfg)
    rs = P.fn('restartControlLoops')
    out = {}
    for k, g in P.globals.items():
        if g.get('file') != rs['file'] or g.get('sl'):
            continue
        t = g['t']
        key = None
        if 'SensorManager' in t:
            key = 'mgmr'
        elif 'ZoneInterface' in t:
            key = 'zones'
        elif t.startswith('std::vector') and 'waitable_timer' in t:
            key = 'timers'
        elif t == 'bool':
            key = 'cancel'
        elif 'io_context' in t:
            key = 'io'
        elif 'signal_set' in t:
            key = 'signals'
        elif 'conf::SensorConfig' in t:
            key = 'sconf'
        elif 'conf::ControllerInfo' in t:
            key = 'pconf'
        elif 'conf::ZoneConfig' in t:
            key = 'zconf'
        if key:
            if key in out:
                raise Broken('two candidates for the daemon state "%s"' % key)
            out[key] = T('G', k, g['n'])
            out[key + '#l'] = g
    for k in ('mgmr', 'zones', 'timers', 'cancel', 'sconf', 'pconf', 'zconf'):
        if k not in out:
            raise Broken('daemon state "%s" not found in %s' % (k, rs['file']))
    return out


def sensors_outlive(c, rule):
    """static objects are destroyed in reverse order of definition: either the
    sensors are destroyed after the zones that use them, or no zone is left
    whenever the process leaves"""
    g = main_globals(c, 1)
    c.sites += 1
    z, m = g['zones#l'], g['mgmr#l']
    if z['file'] == m['file'] and m['l'] < z['l']:
        c.ok(rule, '%s is destroyed after %s' % (m['n'], z['n']))
        return
    I_, ps = c.run('restartControlLoops', 1, opaque=HELPERS - {'stopControlLoops'})

    def f(o, s):
        v = s.load(g['zones'])
        if v.op == 'empty' or o(isempty(v)):
            return None
        return 'the process leaves with zones alive whose sensors are destroyed before them'
    c.judge(rule, I_, I_.exits, f, 'leaving from restartControlLoops')
    if not I_.exits:
        c.ok(rule, 'a restart never leaves the process')


def sched(s):
    """(index, effect, closure, delayed?) of every handler scheduled on a path"""
    out = []
    for i, e in enumerate(s.eff):
        if e.op == 'e' and e.a[1].split('::')[-1] in ('async_wait', 'post', 'defer', 'dispatch'):
            for a in e.a[3]:
                if isinstance(a, T) and a.op in ('clo', 'fn'):
                    out.append((i, e, a, e.a[1].split('::')[-1] == 'async_wait'))
    return out


def armed(s, i):
    """None when the wait at effect i follows setting its timer's expiry to a
    positive delay"""
    obj = s.eff[i].a[2]
    ex = [(j, e) for j, e in enumerate(s.eff) if e.op == 'e' and e.a[1].startswith('expires_') and e.a[2] is obj]
    if not ex:
        return 'the timer is waited for without setting when it expires'
    if min(j for j, _ in ex) > i:
        return 'the expiry is set after the wait began, which cancels it'
    j, e = [x for x in ex if x[0] < i][-1]
    if any(j2 > i for j2, _ in ex):
        return 'setting the expiry again cancels the wait'
    v = e.a[3][0]
    if is_num(v) and cval(v) <= 0:
        return 'the delay is %s' % show(v)
    return None


def handler(c, rule, I_, e, clo, delayed, fn, name, **pol):
    """judge every path of a handler: fn(o, q, ec) with ec None for posted ones"""
    ec = T('sym', 'ec')
    if clo.op == 'fn':
        f = I_.P.fns.get(clo.a[0])
        if f is None or not f.get('body'):
            raise Broken('handler %s has no body' % clo.a[1])
        I2, qs = c.run(f, args=[ec][:1] if delayed else None, **pol)
        I_ = I2
    else:
        qs = c.run_clo(I_, clo, [ec] if delayed else [], **pol)
    at = I_.ln.get(e, (I_.f['file'], I_.f['l'], I_.f['n']))
    c.judge(rule, I_, qs, lambda o, q: fn(o, q, ec if delayed else None), name, at)


def calls(s, *ns):
    return [e for e in s.eff if e.op == 'e' and e.a[1].split('::')[-1] in ns]


def attempts(o, s, name):
    """(how often `name` was attempted on the path, did it succeed)"""
    n, good = len(calls(s, name)), True
    for a, v in s.facts.lits.items():
        if a.op == 'ok' and a.a[0].op == 'call' and a.a[0].a[0].split('::')[-1] == name and not v:
            n, good = n + 1, False
    return n, good


def deep(s, *ns):
    return [x for e in s.eff for x in leaf_effs(e) if x.op == 'e' and x.a[1].split('::')[-1] in ns]


def state_of(o, ec):
    """'ok' | 'aborted' | 'other' outcome of a wait"""
    if ec is None or o(eq(ec, ZERO)):
        return 'ok'
    return 'aborted' if o(eq(ec, ABORTED)) else 'other'


def retry_rule(c, fn, work, last=None):
    """fn schedules exactly one attempt at `work`; an attempt that fails is
    scheduled again with a delay; `last` happens only after a success"""
    I_, ps = c.run(fn, opaque={fn, work})
    seen = {}
    for s in ps:
        if s.sig != 'ret':
            continue
        for i, e, clo, dl in sched(s):
            seen[(clo, dl)] = e

    def top(o, s):
        if s.sig != 'ret':
            return 'requesting %s throws' % work
        h = sched(s)
        if calls(s, work):
            return ('%s is done at once inside the request' % work, calls(s, work)[0])
        if len(h) != 1:
            return '%d attempts are scheduled by one request' % len(h)
        i, e, clo, dl = h[0]
        first = o(argsym(0)) if I_.f['params'] else True
        if not first and not dl:
            return ('a retry is scheduled without a delay', e)
        if dl:
            r = armed(s, i)
            if r:
                return (r, e)
        return None
    c.judge('request', I_, ps, top)

    def att(o, q, ec):
        st = state_of(o, ec)
        w = calls(q, work)
        n, good = attempts(o, q, work)
        if st == 'aborted':
            return None if not n else 'a superseded attempt still runs %s' % work
        if st == 'other':
            return None
        if n != 1:
            return 'an attempt runs %s %d times' % (work, n)
        again = calls(q, fn) + [x[1] for x in sched(q)]
        if good:
            if q.sig != 'ret':
                return 'a successful attempt throws'
            if again:
                return ('a successful attempt schedules another', again[0])
            if last and len(calls(q, last)) != 1:
                return 'the event loop is stopped %d times after success' % len(calls(q, last))
            if last and q.eff.index(calls(q, last)[0]) < q.eff.index(w[0]):
                return ('the event loop is stopped before %s' % work, calls(q, last)[0])
            return None
        if last and calls(q, last):
            return ('the event loop is stopped although %s failed' % work, calls(q, last)[0])
        if q.sig == 'thr':
            return 'a failing %s is not caught' % work
        if len(again) != 1:
            return 'a failed attempt is retried %d times' % len(again)
        if again[0].a[1].split('::')[-1] == fn and again[0].a[3] and o(again[0].a[3][0]):
            return ('a failed attempt is retried without a delay', again[0])
        return None
    for (clo, dl), e in seen.items():
        handler(c, 'attempt', I_, e, clo, dl, att, '%s %s attempt' % (fn, 'delayed' if dl else 'immediate'),
                opaque={fn, work}, throws={work})
    if not seen:
        c.viol('request', I_.f, '%s schedules nothing' % fn)


@check('C31')
def c31(c):
    """reload and shutdown"""
    g = main_globals(c)
    zones, timers, cancel, mgmr = (T('rd', g[k]) for k in ('zones', 'timers', 'cancel', 'mgmr'))
    P = c.P()
    # ---- stopping
    I_, ps = c.run('stopControlLoops')
    zd = T('dom', 'map', zones, 1)
    busy = mkany(zd, T('gt', T('get', 'use_count', T('sel', T('el', zd), 'second'), ()), 1))

    def stop(o, s):
        can = [e for e in s.eff if e.op == 'foreach' and any(x.a[1] == 'cancel' for x in leaf_effs(e) if x.op == 'e')]
        ok = False
        for e in can:
            d = e.a[0]
            if d.a[1] is timers and len(e.a) == 2 and e.a[1].op == 'effs' and \
                    any(x.op == 'e' and x.a[1] == 'cancel' and x.a[2] in (T('el', d), addr(T('D', T('el', d)))) for x in e.a[1].a[0]):
                ok = True
        for e in s.eff:
            # taken off one end, one by one, until none is left
            if e.op == 'repeat' and len(e.a) == 4 and e.a[0].op == 'not' and e.a[0].a[0].op == 'isempty':
                ph = e.a[0].a[0].a[0]
                for m, end in (('pop_back', 'back'), ('pop_front', 'front')):
                    if (g['timers'], T(m, ph)) in e.a[1] and (g['timers'], timers) in e.a[2] and e.a[3].op == 'effs' and \
                            any(x.op == 'e' and x.a[1] == 'cancel' and x.a[2] is T(end, ph) for x in e.a[3].a[0]):
                        ok = True
        if not ok and not o(isempty(timers)):
            if opaque(tuple(s.eff)) or any(e.op == 'repeat' and any(x.op == 'e' and x.a[1] == 'cancel' for x in leaf_effs(e)) for e in s.eff):
                return ('undecided', 'timers')
            return 'not every loop timer is cancelled'
        z1, t1, c1, m1 = (s.load(g[k]) for k in ('zones', 'timers', 'cancel', 'mgmr'))
        if t1.op != 'empty' and not o(isempty(t1)):
            return 'the loop timers are kept'
        # the condition is judged on the whole set of zones
        used = [a for a in s.facts.lits if any(x.op == 'get' and x.a[0] == 'use_count' for x in walk(a))]
        b = None
        if not used or any(a is busy for a in used):
            b = o(busy)
        elif not opaque(tuple(used)):
            for a in used:
                o(a)
            return 'dropping the zones depends on %s, required that no zone is referenced elsewhere' % show(used[0])[:160]
        else:
            return ('undecided', show(used[0])[:160])
        if s.sig == 'thr':
            if not b:
                return 'stopping fails although no zone is in use'
            if z1 is not zones:
                return 'zones still in use are dropped'
            if m1 is not mgmr:
                return 'the sensors of zones still in use are dropped'
            return None if o(c1) else 'the cancel flag is not up while waiting for the loops to leave'
        if b:
            return 'stopping succeeds although a zone is still referenced elsewhere'
        if z1.op != 'empty' and not o(isempty(z1)):
            return 'the zones are kept'
        if o(c1):
            return 'the cancel flag stays up: loops started later would end at once'
        return None
    c.judge('stop', I_, ps, stop)
    # stopping leaves no sensors behind
    emptied = all(gone(None, s.load(g['mgmr'])) for s in ps if s.sig != 'thr')
    # ---- restarting
    I_, ps = c.run('restartControlLoops', opaque=HELPERS, snap={'buildSensors': (g['mgmr'], g['sconf']), 'buildZones': (g['pconf'], g['zconf'], g['mgmr'])}, throws={'stopControlLoops', 'buildSensors', 'buildZones', 'init'})

    def rest(o, s):
        st = calls(s, 'stopControlLoops')
        begun = deep(s, *START)
        n, good = attempts(o, s, 'stopControlLoops')
        if n != 1:
            return 'a restart stops the running loops %d times' % n
        if not good:
            if s.sig != 'thr':
                return 'a restart goes on although stopping failed'
            return ('a restart builds although stopping failed', begun[0]) if begun else None
        k = s.eff.index(st[0])
        for i, e in enumerate(s.eff[:k]):
            for x in leaf_effs(e):
                if x.op == 'e' and x.a[1].split('::')[-1] in START:
                    return ('%s happens before the old loops are stopped' % x.a[1], x)
        if s.sig != 'ret':
            return None
        for e in calls(s, 'init'):
            r = [a for a in s.facts.lits if a.op == 'res' and a.a[0] == 'init']
            if not r:
                return ('whether the configuration is ready is ignored', e)
            if not o(r[0]):
                return ('%s although the configuration is not ready' % begun[0].a[1], begun[0]) if begun else None
        order = [x.a[1].split('::')[-1] for x in begun]
        need = ['buildSensors', 'buildZones', 'buildFailsafeLoggers', 'pidControlLoop']
        for n in need:
            if order.count(n) != 1:
                return 'a restart does %s %d times' % (n, order.count(n))
        if order.index('buildSensors') > order.index('buildZones'):
            return 'zones are built before the sensors'
        if order.index('buildZones') > order.index('buildFailsafeLoggers'):
            return 'failsafe loggers are built before the zones'
        # a sensor published on the bus occupies its object path until it is destroyed
        for e in s.eff:
            if e.op == 'e' and e.a[0] == 'snap':
                for w, v in zip(('', 'sconf') if e.a[1].endswith('buildSensors') else ('pconf', 'zconf'), e.a[3]):
                    v = o.val(v)
                    if w and not opaque(v) and any(x is T('rd', g[w]) for x in walk(v)):
                        return 'the %s configuration of the previous load is used' % \
                            {'sconf': 'sensor', 'pconf': 'controller', 'zconf': 'zone'}[w]
            if e.op == 'e' and e.a[0] == 'snap' and e.a[1].endswith('buildSensors') and not emptied:
                v = o.val(e.a[3][0])
                if not gone(o, v):
                    return ('undecided', show(v)[:100]) if v is not mgmr else \
                        ('the new sensors are built while the old ones still occupy their object paths', begun[order.index('buildSensors')])
        m1, z1, t1 = (s.load(g[k]) for k in ('mgmr', 'zones', 'timers'))
        res = {n: [x for x in walk(m1 if n == 'buildSensors' else z1) if x.op == 'res' and x.a[0] == n] for n in need[:2]}
        kept = [m1]
        if any(x.op == 'out' and x.a[0] == 'buildZones' for x in walk(m1)):        # what buildZones was given and left there
            kept += [e.a[3][2] for e in s.eff if e.op == 'e' and e.a[0] == 'snap' and e.a[1].endswith('buildZones')]
        if not any(x.op == 'res' and x.a[0] == 'buildSensors' for k in kept for x in walk(k)):
            return 'the sensors built are not the ones kept'
        if z1.op != 'res' or z1.a[0] != 'buildZones':
            return ('undecided', show(z1)[:200]) if opaque(z1) else 'the zones kept are %s' % show(z1)[:200]
        # configuration handed over is the one read by this restart
        bs, bz, bl = (begun[order.index(n)] for n in need[:3])
        for e, w, nm in ((bs, 'sconf', 'sensor'), (bz, 'pconf', 'controller')):
            v = e.a[3][0]
            if any(x is T('rd', g[w]) for x in walk(v)):
                return ('the %s configuration of the previous load is used' % nm, e)
            if not any(x.op in ('res', 'out') for x in walk(v)) and not opaque(v):
                return ('the %s configuration used is %s' % (nm, show(v)[:160]), e)
        if bl.a[3][0] is not z1:
            return ('failsafe loggers are built for %s' % show(bl.a[3][0])[:160], bl)
        # one loop with a timer of its own per zone
        fe = [e for e in s.eff if e.op == 'foreach' and any(x.op == 'e' and x.a[1].split('::')[-1] == 'pidControlLoop' for x in leaf_effs(e))]
        if len(fe) != 1 or fe[0].a[0].a[1] is not z1 or len(fe[0].a) != 2:
            return ('undecided', 'loop start')
        d = fe[0].a[0]
        if fe[0].a[1].op != 'effs':
            return 'a control loop is not started for every zone'
        pl = [x for x in fe[0].a[1].a[0] if x.op == 'e' and x.a[1].split('::')[-1] == 'pidControlLoop']
        if len(pl) != 1:
            return '%d control loops are started per zone' % len(pl)
        a = pl[0].a[3]
        if a[0] is not T('sel', T('el', d), 'second'):
            return ('the loop is started for %s' % show(a[0])[:160], pl[0])
        if not any(x in (T('el', d), T('ix', d)) or x.op in ('make', 'new', 'newobj') for x in walk(a[1])):
            return ('the timer of a loop is shared: %s' % show(a[1])[:160], pl[0])
        if a[2] is not addr(g['cancel']):
            return ('the loop watches %s instead of the cancel flag' % show(a[2])[:160], pl[0])
        # the timer is kept so that stopping finds it
        if t1.op == 'push' and t1.a[0].op in ('rd', 'empty') and t1.a[1] is a[1]:
            return ('the loops share one timer', pl[0])
        if not (t1.op == 'comp' and t1.a[0] is d and t1.a[1] is TRUE and t1.a[2] is a[1]):
            if opaque(t1) or t1.op not in ('comp', 'rd', 'empty'):
                return ('undecided', show(t1)[:160])
            return 'the timer of a started loop is not kept for cancelling'
        return None
    c.judge('restart', I_, ps, rest)

    def leave(o, s):
        if not attempts(o, s, 'buildZones')[0]:
            return None
        z1 = s.load(g['zones'])
        return None if o(isempty(z1)) else 'the process gives up although zones were built'
    c.judge('restart', I_, I_.exits, leave, 'leaving from restartControlLoops')
    # ---- retry
    retry_rule(c, TRY, 'restartControlLoops')
    retry_rule(c, TERM, 'stopControlLoops', 'stop')
    # ---- who may stop the event loop or drop the state
    zloc = g['zones']
    for key, f in P.fns.items():
        if f.get('file') != P.fn('restartControlLoops')['file']:
            continue
    I_, ps = c.run('signalHandler', opaque={TRY, TERM})

    def sig(o, s):
        if s.sig != 'ret' or not o(eq(argsym(0), ZERO)):
            return None
        t = calls(s, TERM)
        r = calls(s, TRY)
        if o(eq(argsym(1), C(15))):
            if len(t) != 1:
                return 'a termination request schedules the shutdown %d times' % len(t)
            return ('a termination request reloads', r[0]) if r else None
        return ('a reload request shuts down', t[0]) if t else None
    c.judge('signals', I_, ps, sig)
    # a cancelled loop stops by itself
    c.include('C07', 'arm')


def gone(o, v):
    """an optional without a value"""
    return v is NULL or v.op == 'c' and v is ZERO or 'nullopt' in show(v)[:40] or \
        o is not None and v.op == 'rd' and o(eq(v, NULL)) is True


@check('C32')
def c32(c):
    """reload requests are debounced and never lost"""
    P = c.P()
    # ---- the signal handler
    I_, ps = c.run('signalHandler', opaque={TRY, TERM})
    g = main_globals(c)
    sg = addr(g['signals'])
    seen = {}

    def sig(o, s):
        if not o(eq(argsym(0), ZERO)):
            return None
        if s.sig != 'ret':
            return None
        h = sched(s)
        re = [x for x in h if x[1].a[2] is sg and x[2].op == 'fn' and x[2].a[1].split('::')[-1] == 'signalHandler']
        if len(re) != 1:
            return 'the signal handler re-arms itself %d times' % len(re)
        tm = [x for x in h if x not in re]
        if o(eq(argsym(1), C(15))):
            return ('a termination signal requests a reload', tm[0][1]) if tm else None
        if calls(s, TRY):
            return ('a reload signal restarts at once, without the delay', calls(s, TRY)[0])
        if len(tm) != 1 or not tm[0][3]:
            return 'a reload signal starts %d delays' % len(tm)
        r = armed(s, tm[0][0])
        if r:
            return (r, tm[0][1])
        root = tm[0][1].a[2]
        while root.op in ('addr', 'F', 'D', 'I') and isinstance(root.a[0], T):
            root = root.a[0]
        if root.op in ('make', 'new', 'newobj', 'V'):
            return ('every signal waits on a timer of its own, so an earlier one is not superseded', tm[0][1])
        seen[tm[0][2]] = (I_, tm[0][1])
        return None
    c.judge('signal', I_, ps, sig)

    def fire(o, q, ec):
        st = state_of(o, ec)
        w = calls(q, TRY)
        if st == 'aborted':
            return ('a superseded event still restarts', w[0]) if w else None
        if st == 'ok' and len(w) != 1:
            return 'the elapsed delay requests %d restarts' % len(w)
        return None
    for clo, (J, e) in seen.items():
        handler(c, 'elapsed', J, e, clo, True, fire, 'signal delay', opaque={TRY, TERM})
    if not seen:
        c.undec('elapsed', 'no delay handler found for signals')
    # ---- configuration events
    I_, ps = c.run('eventHandler', opaque={TRY})
    seen2 = {}
    SK = ('xyz.openbmc_project.Association', 'xyz.openbmc_project.Association.Definitions')

    def ev(o, s):
        if s.sig == 'thr':
            if o(isnull(argsym(0))) or o(isnull(argsym(1))):
                return None
            return ('undecided', 'event handling may throw')
        mem = [x for t in allterms(s) for x in walk(t) if x.op == 'get' and x.a[0] == 'get_member']
        data = [x for t in s.facts.lits for x in walk(t) if x.op == 'msgf']
        added = mem and o(eq(mem[0], C('InterfacesAdded')))
        only = False
        if added and data:
            D = [x for x in data if x.a[1] == 1] or data
            D = D[0]
            if any(x.op in ('any', 'red', 'first') for t in s.facts.lits for x in walk(t)):
                return ('undecided', 'associations recognised by a search')
            def dels(x):
                n = 0
                while x.op == 'del' and x.a[1] in [C(k) for k in SK]:
                    x, n = x.a[0], n + 1
                return n if x is D else 0
            if any(v and a.op == 'isempty' and dels(a.a[0]) for a, v in s.facts.lits.items()):
                only = True
            else:
                t = D
                for k in SK:
                    if o(has(D, C(k))):
                        t = delk(t, C(k))
                only = t is not D and o(isempty(t))
        h = sched(s)
        if calls(s, TRY):
            return ('a configuration event restarts at once, without the delay', calls(s, TRY)[0])
        if only:
            return ('an event that only concerns associations starts a reload', h[0][1]) if h else None
        if len(h) != 1 or not h[0][3]:
            return 'a configuration event starts %d delays' % len(h)
        i, e, clo, dl = h[0]
        if e.a[2] is not argsym(1):
            return ('the delay runs on %s, not on the timer of the match' % show(e.a[2])[:100], e)
        r = armed(s, i)
        if r:
            return (r, e)
        seen2[clo] = (I_, e)
        return None
    c.judge('event', I_, ps, ev)
    for clo, (J, e) in seen2.items():
        handler(c, 'elapsed', J, e, clo, True, fire, 'configuration delay', opaque={TRY, TERM})
    if not seen2:
        c.undec('elapsed', 'no delay handler found for events')
    # ---- match registration
    I_, ps = c.run('createMatches')
    WANT = [("member='PropertiesChanged'", "'%s'" % n) for n in (
        'xyz.openbmc_project.Control.ThermalMode', 'xyz.openbmc_project.Configuration.Pid',
        'xyz.openbmc_project.Configuration.Pid.Zone', 'xyz.openbmc_project.Configuration.Stepwise')] + [
        ("member='InterfacesAdded'", "'/xyz/openbmc_project/sensors/'"),
        ("member='InterfacesRemoved'", "'/xyz/openbmc_project/sensors/'")]

    def reg(o, s):
        if s.sig != 'ret':
            return None
        ms = [(l, v) for l, v in s.store.items() if l.op == 'G']
        if not ms:
            # nothing registered: only right when there are matches already
            old = [x for a in s.facts.lits for x in walk(a) if x.op == 'isempty']
            if old and not o(old[0]):
                return None
            return 'no match is registered' if old else ('undecided', 'matches')
        l, v = ms[0]
        old = T('rd', l)
        first = o(isempty(old))
        v = o.val(v)
        if not first:
            return None if v is old else 'matches are registered again'
        els = []
        while v.op == 'push':
            els.append(v.a[1])
            v = v.a[0]
        if v is not old and v.op != 'empty':
            return ('undecided', show(v)[:200])
        texts = []
        for e in els:
            if not (e.op == 'make' and len(e.a) >= 5):
                return ('undecided', show(e)[:200])
            bus, txt, fn, tm = e.a[1:5]
            if txt.op != 'c':
                return ('undecided', show(txt)[:100])
            texts.append(str(txt.a[1]))
            if fn.op != 'fn' or fn.a[1].split('::')[-1] != 'eventHandler':
                return 'a match calls %s' % show(fn)[:120]
            if tm is not addr(T('D', argsym(1))) and tm is not argsym(1) and not (tm.op == 'addr'):
                return 'a match carries %s instead of the reload timer' % show(tm)[:120]
        def fits(t, a, b):
            # a rule of this signal and object, restricted in no other way
            q = dict(x.strip().split('=', 1) for x in t.split(',') if '=' in x)
            mk, mv = a.split('=', 1)
            if q.get('type') != "'signal'" or q.get(mk) != mv:
                return False
            keys = ('arg0path',) if b.startswith("'/") else ('arg0namespace', 'arg0')
            extra = set(q) - {'type', mk, 'interface', 'sender'} - set(keys)
            ns = q.get('arg0namespace', '').strip("'")
            hit = any(q.get(k) == b for k in keys) or ns and not b.startswith("'/") and b.strip("'").startswith(ns + '.')
            return not extra and hit and q.get('interface') in (
                None, "'org.freedesktop.DBus.Properties'" if 'Properties' in mv else "'org.freedesktop.DBus.ObjectManager'")
        for a, b in WANT:
            if not any(fits(t, a, b) for t in texts):
                return 'no match for %s of %s' % (a, b)
        return None
    c.judge('matches', I_, ps, reg)
