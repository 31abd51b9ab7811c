"""debug: print the path table of a function"""
import sys
from . import prog
from .exec import *


def dump(I_, r, out=sys.stdout):
    for s in r:
        print('--- path sig=%s' % s.sig, file=out)
        for a, b in s.facts.lits.items():
            print('   %s %s' % ('+' if b else '-', show(a)), file=out)
        for e in s.eff:
            print('   EFF', show(e), I_.ln.get(e), file=out)
        for k, v in s.store.items():
            if k.op == 'V' and k.a[0] != '#':
                continue
            print('   %s := %s' % (show(k), show(v)), file=out)
        print('   ret', show(s.val), file=out)


if __name__ == '__main__':
    cfg = 0
    a = sys.argv[1:]
    pol = Policy()
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-1':
            cfg = 1
        elif o == '-log':
            pol.keep_log = 'all'
        elif o == '-o':
            pol.opaque = set(a.pop(0).split(','))
        elif o == '-t':
            pol.throws = set(a.pop(0).split(','))
    P = prog.load(cfg)
    for f in P.find(a[0]):
        if not f.get('body') and not f.get('inits'):
            continue
        I_ = Exec(P, pol)
        print('=====', f['n'], f['file'], f['l'], [p['t'] for p in f['params']])
        r, _ = I_.enter(f, dyn=f.get('cls'))
        dump(I_, r)
        print('opq', I_.opqs)
