#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   |   check.py --all   |   check.py --setup"""
import os
import signal
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import extract, prog, spec
import vf.checks  # noqa: F401  registers every rule

DEADLINE = 780


class Deadline(BaseException):
    pass


def expired(sig, frame):
    raise Deadline()


def one(pid, tier):
    """A rule whose anchor is gone, or that the analysis cannot follow, is undecided: it says so
    here and in the evidence, and raises no alarm.  Only a tree that cannot be parsed is an error."""
    c = spec.Check(pid, tier)
    signal.signal(signal.SIGALRM, expired)
    signal.alarm(DEADLINE)
    try:
        spec.REG[pid](c)
    except extract.Unparsable as e:
        print('BROKEN %s: %s' % (pid, e))
        if not c.vio:
            return 2
    except extract.Broken as e:
        c.undec('anchor', str(e))
    except Deadline:
        c.undec('deadline', 'not finished after %d s' % DEADLINE)
    except Exception as e:
        traceback.print_exc()
        c.undec('analysis', '%s: %s' % (type(e).__name__, e))
    finally:
        signal.alarm(0)
    return c.finish()


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if a == ['--setup']:
        for cfg in (0, 1, 2, 3):
            P = prog.load(cfg)
            print('cfg%d: %d units, %d functions, parse errors: %s' % (cfg, len(P.tus), len(P.fns), P.errors))
        return 0
    if a == ['--list']:
        print('\n'.join(sorted(spec.REG)))
        return 0
    if a == ['--all']:
        rc = 0
        for pid in sorted(spec.REG):
            try:
                r = one(pid, tier)
            except Exception:
                traceback.print_exc()
                r = 3
            rc = max(rc, r)
        return rc
    return one(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
