"""tools/apply.py NAME  -> /tmp/mut with that mutant applied (kept), for inspection"""
import re,sys,os
sys.argv=[sys.argv[0]]+sys.argv[1:]
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M='/tmp/mut'
for d, ds, fs in os.walk('/repo'):
    rel = os.path.relpath(d, '/repo')
    ds[:] = [x for x in ds if not x.startswith(('.git', 'build-')) and not (rel == '.' and x in ('builddir', 'build'))]
    for f in fs:
        if f.endswith(('.cpp', '.hpp', '.h')):
            s=open(os.path.join(d,f)).read(); open(os.path.join(M,rel,f),'w').write(s)
for m in re.finditer(r'^@ (.*?) \| (.*?) \| (.*?)\n((?:<<<\n.*?\n===\n.*?\n?>>>\n)+)', open(V+'/tools/mutants.txt').read(), re.S | re.M):
    if len(sys.argv)>1 and m.group(1)==sys.argv[1]:
        for old,new in re.findall(r'<<<\n(.*?)\n===\n(.*?)\n?>>>\n', m.group(4), re.S):
            for f in m.group(2).split(','):
                p=os.path.join(M,f); s=open(p).read()
                if old in s:
                    open(p,'w').write(s.replace(old,new,1)); break
