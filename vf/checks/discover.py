"""D-Bus configuration discovery: which services are asked, which objects and sensors are taken up."""
from ..spec import *
from ..extract import Broken
from .roles import *
from .dbusconf import Init, PIDI, STEPI, ZONEI, VALI, PWMI

OM = 'org.freedesktop.DBus.ObjectManager'
CONF = (PIDI, ZONEI, STEPI)


def says(t, *ss):
    """the constants a message is built from"""
    have = {x.a[1] for x in walk(t) if x.op == 'c' and x.a[0] == 's'}
    return all(s in have for s in ss)


def tree_of(t):
    """the data of the object mapper's answer inside t"""
    return [y for y in walk(t) if y.op == 'msgf' and says(y, 'GetSubTree')]


def data_of(d):
    """is the loop over (a part of) the mapper's answer: number of enclosing levels, or None"""
    if d is None:
        return None
    t, n = d.a[1], 0
    while True:
        if t.op == 'msgf' and says(t, 'GetSubTree') and not says(t, 'GetManagedObjects'):
            return n
        if t.op in ('sel', 'getf') and t.a[1] == 'second' and t.a[0].op == 'el':
            t, n = t.a[0].a[0].a[1], n + 1
            continue
        return None


def above(d, n):
    """the enclosing domain n levels up"""
    for _ in range(n):
        d = d.a[1].a[0].a[0]
    return d


def stem(t):
    while t.op in ('sel', 'getf', 'conv'):
        t = t.a[0]
    return t


def same_key(o, v, k):
    """the container under the changes of entry k"""
    v = o.val(v)
    while v.op == 'upd' and o.val(v.a[1]) is k:
        v = o.val(v.a[0])
    return v


def first(d):
    return getf(T('el', d), 'first')


def c50rules(c, N):
    I_ = N.I
    where = (N.f['file'], N.f['l'], N.f['n'])
    maps = [('sensors', N.sens), ('zones', N.zone), ('zone details', N.det)]

    # ---- afresh, subscribed, failing loudly
    def whole(o, s):
        if s.sig == 'ret':
            for a, b in s.facts.lits.items():
                if a.op == 'ok' and not b and (says(a, 'GetSubTree') or says(a, 'GetManagedObjects')):
                    return 'the load goes on although %s failed' % (
                        'the object mapper' if not says(a, 'GetManagedObjects') else 'a service')
                if a.op == 'isempty' and b and a.a[0].op == 'msgf' and says(a.a[0], 'GetSubTree') \
                        and not says(a.a[0], 'GetManagedObjects'):
                    return 'the load goes on although the object mapper knows nothing'
            for n, l in maps:
                v = s.load(l)
                i = next(i for i in range(len(N.f['params'])) if ploc(I_, i) is l)
                if any(y is argsym(i) or y is T('rd', l) for y in walk(v)):
                    return 'the %s of the previous load are kept' % n
        ks = [(i, e) for i, e in enumerate(s.eff)]
        mapper = [i for i, e in ks if e.op == 'e' and says(e, 'GetSubTree')]
        sub_ = [i for i, e in ks if e.op == 'e' and e.a[1] == 'createMatches']
        failed = any(a.op == 'ok' and not b for a, b in s.facts.lits.items())
        if (mapper or failed) and not sub_:
            return 'the configuration is read without watching for its changes'
        if mapper and sub_ and sub_[0] > mapper[0]:
            return ('the changes of the configuration are watched only after it was read', s.eff[sub_[0]])
        return None
    c.judge('afresh', I_, N.ps, whole)

    # ---- what the mapper is asked
    asked = {}
    for s in N.ps:
        for e in s.eff:
            if e.op == 'e':
                for y in walk(e):
                    if y.op == 'mut' and says(y, 'GetSubTree') and not says(y, 'GetManagedObjects'):
                        asked[y] = 1
    full = [m for m in asked if not any(m is not n and m in set(walk(n)) for n in asked)]
    if not full:
        c.undec('mapper', 'no request to the object mapper')
    for m in full[:1]:
        have = {x.a[1] for x in walk(m) if x.op == 'c' and x.a[0] == 's'}
        miss = [i for i in CONF + (VALI, PWMI, OM) if i not in have]
        if opaque(m):
            c.undec('mapper', show(m)[:200])
        elif miss or '/' not in have:
            c.viol('mapper', where, 'the object mapper is not asked for %s' % (', '.join(miss) if miss else 'the whole tree'))
        else:
            c.ok('mapper', 'request')
            deep_ = [x for x in walk(m) if x.op == 'mut' and x.a[0] == 'append']
            nums = [z for x in deep_ for z in x.a[2] if z.op == 'c' and z.a[0] == 'i']
            if nums and any(z is not ZERO for z in nums):
                c.viol('mapper', where, 'the search of the object mapper is limited to depth %s' % show(nums[0]))

    # ---- the answer: sensors and services
    seen = {'sensors': 0, 'services': 0, 'asked': 0, 'objects': 0}

    def is_iface(t, E):
        return t is E

    for L in I_.loops:
        d = L['dom']
        n = data_of(d)
        if n is None:
            continue
        E = T('el', d)
        if n == 2:
            path = first(above(d, 2))
            owner = first(above(d, 1))

            sens = {l for _, s in L['norm'] + L['exits'] for l in L['M'] for _, y in cases(s.load(l))
                    if y.op == 'upd' and y.a[2] is E}
            svc = {l for _, s in L['norm'] + L['exits'] for l in L['M'] for y in walk(s.load(l))
                   if y.op == 'upd' and y.a[1] is owner}
            seen['sensors'] += len(sens)
            seen['services'] += len(svc)

            def f(o, s, L=L, E=E, path=path, owner=owner, sens=sens, svc=svc):
                out = None
                if s.sig == 'thr':
                    return None
                kept = False
                for l in L['M']:
                    v = head(o, s.load(l))
                    raw = s.load(l)
                    # the sensors: object -> interface
                    if l in sens:
                        want = o(eq(E, C(PWMI))) or o(eq(E, C(VALI))) and not o(T('contains', path, C('pwm')))
                        if v.op == 'phi':
                            if want:
                                return 'the sensor object is not taken up under %s' % (
                                    'its FanPwm interface' if o(eq(E, C(PWMI))) else 'its Value interface')
                            continue
                        if v.op != 'upd' or v.a[0].op != 'phi':
                            return ('undecided', show(v)[:120])
                        kept = True
                        if not want:
                            return 'an object is taken up as a sensor that is none'
                        if o.val(v.a[1]) is not path or o.val(v.a[2]) is not E:
                            return ('undecided', show(v)[:120]) if opaque(v.a[1]) or opaque(v.a[2]) else \
                                'a sensor is registered as %s -> %s' % (show(v.a[1])[-60:], show(v.a[2])[-60:])
                        continue
                    # the services: name -> (has configuration, object manager)
                    if l not in svc:
                        continue
                    ph = same_key(o, raw, owner)
                    if ph.op != 'phi':
                        return ('undecided', show(ph)[:100])
                    was = T('at', ph, owner)
                    now = o.val(getat(o.val(raw), owner))
                    cf = o(lor(*[eq(E, C(i)) for i in CONF]))
                    om = o(eq(E, C(OM)))
                    b0, p0 = o.val(getf(was, 'first')), o.val(getf(was, 'second'))
                    b1, p1 = o.val(getf(now, 'first')), o.val(getf(now, 'second'))
                    if any(opaque(x) for x in (b1, p1)):
                        return ('undecided', show(now)[:100])
                    if cf and o(b1) is not True:
                        return 'a service with configuration counts as one without'
                    if not cf and b1 is not b0 and o(b1) != o(b0) and (o(b1) or o(T('has', ph, owner))):
                        return 'a service counts as one %s configuration because of another interface' % (
                            'with' if o(b1) else 'without')
                    if om and p1 is not path:
                        return 'the object manager of a service is %s, required the object that implements it' % show(p1)[-80:]
                    if not om and p1 is not p0 and p1.op != 'empty' and p1 is not C(''):
                        return 'the object manager of a service becomes %s because of another interface' % show(p1)[-80:]
                if s.sig == 'brk' and not kept:
                    return 'the remaining interfaces of the object are not looked at'
                return out
            c.judge_loop('interfaces', I_, L, f, exits=True)
        elif n < 2 and any(touches(L['M'], l) for l in L['M']):
            def g(o, s, L=L, n=n):
                if s.sig in ('brk', 'cont') or s.sig is None and not any(
                        s.load(l) is not None and s.load(l).op != 'phi' for l in L['M']):
                    return 'the remaining %s are not looked at' % ('objects', 'services of the object')[n] if s.sig == 'brk' \
                        else ('undecided', 'objects are left out')
                return None
            c.judge_loop('answer', I_, L, g, exits=True)

    # ---- the services are asked
    for L in I_.loops:
        d = L['dom']
        if d is None:
            continue
        call = [e for _, s in L['norm'] + L['exits'] for e in s.eff
                if e.op == 'e' and e.a[1] == 'call' and any(
                    y.op == 'newcall' and y.a[3] is C('GetManagedObjects') and T('el', d) in (stem(y.a[0]), stem(y.a[1]))
                    for y in walk(e))]
        el = T('el', d)
        if call and d.a[0] == 'map' and data_of(d) is None and not says(d.a[1], 'GetManagedObjects'):
            seen['asked'] += 1
            has_, name = getf(getf(el, 'second'), 'first'), getf(el, 'first')
            root = getf(getf(el, 'second'), 'second')

            def f(o, s, L=L, has_=has_, name=name, root=root, d=d):
                es = [e for e in s.eff if e.op == 'e' and says(e, 'GetManagedObjects') and e.a[1] == 'call']
                if s.sig == 'brk':
                    return 'the remaining services are not asked'
                if s.sig not in (None, 'cont'):
                    return None
                tried = es or any(a.op == 'ok' and says(a, 'GetManagedObjects') for a in s.facts.lits)
                if o(has_) and not tried:
                    return 'a service with configuration is not asked for it'
                if not o(has_) and tried:
                    return 'a service without configuration is asked for it'
                ms = [y for a in list(s.facts.lits) + es for y in walk(a)
                      if y.op == 'newcall' and y.a[3] is C('GetManagedObjects')]
                for y in ms:
                    r = c.expect(o, y.a[0], name, 'the service asked for its objects') or \
                        c.expect(o, y.a[1], root, 'the object asked for the objects') or \
                        c.expect(o, y.a[2], C(OM), 'the interface asked for the objects')
                    if r:
                        return r
                if s.sig in (None, 'cont'):
                    for a, b in s.facts.lits.items():
                        if a.op == 'ok' and not b and says(a, 'GetManagedObjects'):
                            return 'the load goes on although a service did not answer'
                return None
            c.judge_loop('asked', I_, L, f, exits=True)
        if d.a[1].op == 'msgf' and says(d.a[1], 'GetManagedObjects'):
            objs_, path = getf(el, 'second'), getf(el, 'first')

            def g(o, s, L=L, objs_=objs_, path=path):
                if s.sig == 'brk':
                    return 'the remaining objects of the service are not looked at'
                want = o(lor(*[T('has', objs_, C(i)) for i in CONF]))
                for l in L['M']:
                    v = head(o, s.load(l))
                    raw = [y for _, y in cases(s.load(l))]
                    us = [y for y in raw if y.op == 'upd']
                    if not us:
                        continue
                    ph = [y for y in walk(s.load(l)) if y.op == 'phi' and y.a[0] is l]
                    have = bool(ph) and o(T('has', ph[0], path))
                    if v.op == 'phi':
                        if want and not have:
                            return 'a configuration object is not taken up'
                        continue
                    if v.op != 'upd':
                        return ('undecided', show(v)[:100])
                    if not want:
                        return 'an object without configuration is taken up'
                    if o.val(v.a[1]) is not path:
                        return ('undecided', show(v.a[1])[:100]) if opaque(v.a[1]) else 'a configuration object is kept under another path'
                    x = o.val(v.a[2])
                    if x is not objs_ and not (have and x is o.val(getat(ph[0], path))):
                        return ('undecided', show(x)[:100]) if opaque(x) else 'a configuration object is kept with other attributes'
                return None
            if any(y.op == 'upd' for l in L['M'] for _, s in L['norm'] for _, y in cases(s.load(l))):
                seen['objects'] += 1
                c.judge_loop('objects', I_, L, g, exits=True)
    for k, v in seen.items():
        if not v:
            c.undec(k, 'nothing in the discovery found that decides about %s' % k)


@check('C50')
def c50(c):
    for cfg in (0, 1):
        c50rules(c, Init(c, cfg))
