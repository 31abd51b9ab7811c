"""Fields of the zone class identified through its public interface, so that
rules follow a renamed member."""
from ..spec import *


def ret_field(c, fn, cfg=0, n=None):
    f = c.P(cfg).fn(fn, n=n)
    I_, ps = c.run(f, cfg)
    vals = {field_of(s.val) for s in ps if s.sig == 'ret'}
    if len(vals) == 1:
        return vals.pop()
    return None


def ctor_fields(c, fn, cfg=0):
    """{parameter name: field} and the initial object of a constructor"""
    f = c.P(cfg).fn(fn)
    I_, ps = c.run(f, cfg)
    s = one_ret(ps)
    if s is None:
        raise Broken('constructor %s has no single outcome' % fn)
    out = {}
    v = s.store.get(THIS, T('rd', THIS))
    fs = dict(v.a[1]) if v.op == 'rec' else {}
    for i, p in enumerate(f['params']):
        for k, x in fs.items():
            if x is argsym(i) or (x.op == 'addr' and x.a[0].op == 'D' and x.a[0].a[0].op == 'sym' and p['n'] == x.a[0].a[0].a[0]):
                out[p['n']] = k
    return out, fs, f


class Zone:
    _c = {}

    def __new__(cls, c, cfg=0):
        P = c.P(cfg)
        k = id(P)
        if k in cls._c:
            return cls._c[k]
        z = object.__new__(cls)
        z.P = P
        g = lambda n: ret_field(c, 'DbusPidZone::' + n, cfg)
        need = {'FS': 'getFailSafeSensors', 'MAX': 'getMaxSetPointRequest', 'MAN': 'getManualMode',
                'RED': 'getRedundantWrite', 'ACC': 'getAccSetPoint', 'TH': 'getSensorNames', 'ID': 'getZoneID',
                'MIN': 'getMinThermalSetPoint', 'LEAD': 'leader'}
        for a, n in need.items():
            setattr(z, a, g(n))
        I_, ps = c.run('DbusPidZone::addFanInput', cfg)
        z.FAN = z.MA = None
        z.addfan = ps
        for s in ps:
            for k2, v in changed(s).items():
                if v.op == 'push':
                    z.FAN = k2
                elif any(x.op == 'upd' for x in walk(v)):
                    z.MA = k2
        I_, ps = c.run('DbusPidZone::getCachedValues', cfg)
        z.CACHE = None
        for s in ps:
            if s.sig == 'ret' and s.val.op == 'at':
                z.CACHE = field_of(s.val.a[0])
        I_, ps = c.run('DbusPidZone::getFailSafePercent', cfg)
        z.ZFSP = None
        for s in ps:
            for f, v in worlds(s.facts, lambda o: (o(isempty(tf(z.FS))), o.val(s.val))[1] if z.FS else None):
                if z.FS and v is not None and f.decide(isempty(tf(z.FS))) is True and field_of(v):
                    z.ZFSP = field_of(v)
        I_, ps = c.run('DbusPidZone::addPidFailSafePercent', cfg)
        z.SFSP = None
        for s in ps:
            for k2 in changed(s):
                z.SFSP = k2
        I_, ps = c.run('DbusPidZone::addRPMCeiling', cfg)
        z.CEIL = next((k2 for s in ps for k2 in changed(s)), None)
        z.SPS = None
        I_, ps = c.run('DbusPidZone::clearSetPoints', cfg)
        for s in ps:
            for k2, v in changed(s).items():
                if v.op == 'empty':
                    z.SPS = k2
        for n, a in (('addFanPID', 'FANS'), ('addThermalPID', 'THERMALS')):
            I_, ps = c.run('DbusPidZone::' + n, cfg)
            setattr(z, a, next((k2 for s in ps for k2, v in changed(s).items() if v.op == 'push'), None))
        I_, ps = c.run('DbusPidZone::isPidProcessEnabled', cfg)
        z.PROC = None
        for s in ps:
            for x in walk(s.val):
                if x.op == 'at' and field_of(x.a[0]):
                    z.PROC = field_of(x.a[0])
        fb = {'FS': '_failSafeSensors', 'MAX': '_maximumSetPoint', 'MAN': '_manualMode', 'RED': '_redundantWrite',
              'ACC': '_accumulateSetPoint', 'TH': '_thermalInputs', 'ID': '_zoneId', 'MIN': '_minThermalOutputSetPt',
              'LEAD': '_maximumSetPointName', 'FAN': '_fanInputs', 'MA': '_missingAcceptable',
              'CACHE': '_cachedValuesByName', 'ZFSP': '_zoneFailSafePercent', 'SFSP': '_sensorFailSafePercent',
              'CEIL': 'rpmCeilings', 'SPS': 'setPoints', 'FANS': '_fans', 'THERMALS': '_thermals',
              'PROC': '_pidsControlProcess'}
        have = {f['n'] for f in P.rec('DbusPidZone')['fields']}
        for a, n in fb.items():
            if getattr(z, a) is None and n in have:
                setattr(z, a, n)
        cls._c[k] = z
        return z

    def need(self, *names):
        for n in names:
            if getattr(self, n) is None:
                raise Broken('zone: the member behind %s is not recognised' % n)

    def v(self, n):
        self.need(n)
        return tf(getattr(self, n))

    def l(self, n):
        self.need(n)
        return tl(getattr(self, n))
