#!/usr/bin/env python3
"""seed.py ID…: make /verif/seeded/ID from tools/seeds/ID.py-style entry and confirm it.
Entries live in tools/seeds/<id>/ : edit.txt (file, <<< old === new >>>), meta.json, demo.sh + files."""
import os, sys, subprocess, shutil, json, re
V = '/verif'
S = '/tmp/seedwork'

def sh(cmd, cwd=None, env=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

def reset():
    if not os.path.exists(S):
        sh('cp -a /repo %s' % S)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD' % (S, S, S))

def edits(p):
    out = []
    for m in re.finditer(r'^@ (\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>$', open(p).read(), re.S | re.M):
        out.append(m.groups())
    return out

def one(i, checks=True):
    d = os.path.join(V, 'seeded', i)
    src = os.path.join(V, 'tools/seeds', i + '.txt')
    reset()
    for f, a, b in edits(src):
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    diff = sh('git -C %s diff' % S).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    # the demonstration runs in a copy of /repo under its own name: bind by cwd
    def demo():
        t = '/tmp/seeddemo'
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        for x in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(t, x))
        r = sh('bash %s/demo.sh' % t, cwd=S)
        shutil.rmtree(t, ignore_errors=True)
        return r
    bad = demo()
    env = dict(os.environ, VF_REPO=S)
    r = sh('python3 check.py %s' % meta['property'], cwd=V, env=env)
    caught = r.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in r.stdout
    sh('git -C %s checkout -q -- .' % S)
    good = demo()
    print('%s [%s]: demo good=%d bad=%d  check rc=%d %s' % (i, meta['property'], good.returncode, bad.returncode, r.returncode, 'CAUGHT' if caught else 'missed'))
    if good.returncode or not bad.returncode:
        print(good.stdout[-600:], good.stderr[-1500:], '--- bad:', bad.stdout[-300:], bad.stderr[-600:])
    if '-v' in sys.argv:
        print(r.stdout[-1500:], bad.stdout[-500:], bad.stderr[-500:])
    return caught

a = [x for x in sys.argv[1:] if x != '-v'] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in a:
    one(i)
