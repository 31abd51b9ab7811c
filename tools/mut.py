"""Own mutation runs: apply one textual edit to a scratch copy of the sources,
run checks against it, restore.   tools/mut.py [-k substring] [-s i/n]
Mutants live in tools/mutants.txt:
   @ name | file | expected checks (comma) or 'quiet:C01,C02'
   <<<
   old
   ===
   new
   >>>
"""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.environ.get('MUTDIR', '/tmp/mut')
if not os.path.isdir(M):
    shutil.copytree('/repo', M, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*', 'builddir'))


def load(p):
    out = []
    for m in re.finditer(r'^@ (.*?) \| (.*?) \| (.*?)\n((?:<<<\n.*?\n===\n.*?\n?>>>\n)+)', open(p).read(), re.S | re.M):
        eds = re.findall(r'<<<\n(.*?)\n===\n(.*?)\n?>>>\n', m.group(4), re.S)
        out.append((m.group(1), m.group(2).split(','), m.group(3), eds))
    return out


def sync():
    for d, ds, fs in os.walk('/repo'):
        rel = os.path.relpath(d, '/repo')
        ds[:] = [x for x in ds if not x.startswith(('.git', 'build-'))and not (rel == '.' and x in ('builddir', 'build'))]
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.h')):
                a, b = os.path.join(d, f), os.path.join(M, rel, f)
                s = open(a).read()
                if not os.path.exists(b) or open(b).read() != s:
                    os.makedirs(os.path.dirname(b), exist_ok=True)
                    open(b, 'w').write(s)


def main():
    a = sys.argv[1:]
    sh = [int(x) for x in a[a.index('-s') + 1].split('/')] if '-s' in a else (0, 1)
    k = a[a.index('-k') + 1].split(',') if '-k' in a else None
    bad = 0
    sync()
    for n, (name, files, exp, eds) in enumerate(load(os.path.join(V, 'tools', 'mutants.txt'))):
        if n % sh[1] != sh[0]:
            continue
        if k and not any(x in name for x in k):
            continue
        quiet = exp.startswith('quiet:')
        ids = exp.split(':')[-1].split(',')
        if '-q' in a and not quiet:
            continue
        if '-c' in a:               # these checks instead of the expected ones
            ids = a[a.index('-c') + 1].split(',')
        saved = {}
        try:
            for old, new in eds:
                hit = None
                for f in files:
                    p = os.path.join(M, f)
                    s = open(p).read()
                    if s.count(old) >= 1:
                        saved.setdefault(p, s)
                        open(p, 'w').write(s.replace(old, new, 1))
                        hit = p
                        break
                if not hit:
                    print('%-40s EDIT NOT APPLICABLE: %s' % (name, old[:60]))
                    bad += 1
            t = time.time()
            res = []
            if quiet and '-a' in a:
                ids = ['--all']     # a refactoring must leave every check quiet
            for i in ids:
                r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), i], capture_output=True, text=True,
                                   env=dict(os.environ, VF_REPO=M, VF_NOEV='1', VF_ERR='1'))
                if 'PARSE-ERRORS' in r.stderr:
                    print('   %s %s' % (name, [l for l in r.stderr.splitlines() if 'PARSE-ERRORS' in l][:2]))
                line = [l for l in r.stdout.splitlines() if '[' in l and ': in ' in l]
                und = [l[:160] for l in r.stdout.splitlines() if l.startswith('undecided')]
                if quiet and und:
                    print('   %s undecided: %s' % (name, ' ## '.join(und[:6])))
                res.append((i, r.returncode, line[0][:230] if line else (r.stdout + r.stderr)[-200:].strip()))
            ok = all(rc == 0 for _, rc, _ in res) if quiet else any(rc == 1 for _, rc, _ in res)
            bad += not ok
            print('%-40s %s %.0fs %s' % (name, 'ok' if ok else 'MISSED' if not quiet else 'FALSE ALARM', time.time() - t,
                                    '' if ok and '-v' not in a else res))
            if '-v' in a or not ok:
                pass
        finally:
            for p, s in saved.items():
                open(p, 'w').write(s)
        sys.stdout.flush()
    print('bad', bad)


main()
