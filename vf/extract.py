"""Builds the extractor and dumps the type-resolved program of /repo's current
working tree (cached by content hash)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
INC = ['', 'buildjson', 'dbus', 'errors', 'ipmi', 'notimpl', 'pid', 'sensors', 'sysfs']


class Broken(Exception):
    """what a rule is anchored in is not there"""


class Unparsable(Broken):
    """the tree cannot be read at all"""


def extractor():
    src = os.path.join(VERIF, 'pidx', 'pidx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'pidx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w',
                        '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1',
                        '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise Unparsable('extractor does not build: ' + r.stderr[:2000])
    os.replace(tmp, out)
    return out


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(repo):
        rel = os.path.relpath(d, repo)
        ds[:] = sorted(x for x in ds if not x.startswith(('.', '_build', 'build-')) and
                       not (rel == '.' and x in ('test', 'tests', 'subprojects', 'builddir', 'build')))
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.h', '.cc')):
                out.append(os.path.normpath(os.path.join(rel, f)))
    return sorted(out)


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def run(cfg, repo=None, jobs=None):
    """extract every translation unit under configuration cfg -> {tu: dict}"""
    repo = repo or REPO
    ex = extractor()
    srcs = sources(repo)
    data = {s: open(os.path.join(repo, s), 'rb').read() for s in srcs}
    included = set()
    for s, b in data.items():
        for m in re.findall(rb'#\s*include\s*"([^"]+\.cpp)"', b):
            for t in srcs:
                if t.endswith(m.decode().lstrip('./')):
                    included.add(t)
    # a unit which mentions no build option, nor any header, is the same under every configuration
    opts = sorted({m for d, _, fs in os.walk(os.path.join(VERIF, 'stubs')) for f in fs if f == 'config.h'
                   for m in re.findall(r'#define (\w+)', open(os.path.join(d, f)).read())})
    word = re.compile(r'\b(%s)\b' % '|'.join(opts)).search
    shared = any(word(data[s].decode('utf8', 'replace')) for s in srcs if not s.endswith('.cpp') or s in included)
    eff = {s: cfg if shared or word(data[s].decode('utf8', 'replace')) else 0 for s in srcs}
    common = _h(*[s.encode() + b'\0' + data[s] for s in srcs if not s.endswith('.cpp') or s in included],
                *[open(os.path.join(d, f), 'rb').read()
                  for d, _, fs in sorted(os.walk(os.path.join(VERIF, 'stubs'))) for f in sorted(fs)],
                os.path.basename(ex), repo)
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    tus = [s for s in srcs if s.endswith(('.cpp', '.cc'))]

    def one(tu):
        key = _h(common, str(eff[tu]), tu, data[tu])
        out = os.path.join(cache, key + '.json')
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            cmd = [ex, repo, tmp, os.path.join(repo, tu), '-std=c++23', '-fsyntax-only', '-w',
                   '-I' + os.path.join(VERIF, 'stubs', 'cfg%d' % eff[tu])]
            cmd += ['-I' + os.path.normpath(os.path.join(repo, i)) for i in INC]
            cmd += ['-isystem', os.path.join(VERIF, 'stubs'),
                    '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-ferror-limit=0']
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
            if not os.path.exists(tmp):
                return tu, None, r.stderr[-2000:]
            os.replace(tmp, out)
        try:
            return tu, json.load(open(out)), ''
        except ValueError as e:
            os.unlink(out)
            return tu, None, str(e)

    res = {}
    with ThreadPoolExecutor(jobs or min(8, os.cpu_count() or 4)) as p:
        for tu, d, err in p.map(one, tus):
            if d is None:
                raise Unparsable('cannot parse %s: %s' % (tu, err))
            if d.get('errors') and os.environ.get('VF_ERR'):
                print('PARSE-ERRORS %s %d' % (tu, d['errors']), file=sys.stderr)
            res[tu] = d
    return res


def prune(keep=400):
    cache = os.path.join(BUILD, 'cache')
    try:
        fs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
    except OSError:
        return
    for f in fs[:-keep]:
        os.unlink(f)
