"""mkseed.py DEF.py...: each DEF file defines seed(...) calls; creates seeded/<id> and validates (build, demo, and the check)."""
import os, sys, subprocess, json, tempfile, shutil
V='/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ONLY=None
def seed(id, prop, file, old, new, needs, breaks, demo, cflags='', libs='', count=1, tests=True, tsan=False):
    if ONLY and id not in ONLY: return
    d=f'{V}/seeded/{id}'; 
    w=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    edits=[(file,old,new)] if isinstance(old,str) else [(file,o,n) for o,n in zip(old,new)]
    if not isinstance(file,str): edits=list(zip(file,old,new))
    sh(f'cp -a /repo/src /repo/inc {w}/; cd {w} && git init -q && git add -Af . && git -c user.name=a -c user.email=a@b commit -qm x')
    for f,o,n in edits:
        s=open(f'{w}/{f}').read()
        assert s.count(o)>=1,(id,f,'not found',o)
        assert s.count(o)==count,(id,f,s.count(o))
        open(f'{w}/{f}','w').write(s.replace(o,n))
    diff=sh(f'cd {w} && git diff -- src inc').stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.c','w').write(demo)
    san='-fsanitize=thread' if tsan else '-fsanitize=address,undefined'
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
export ASAN_OPTIONS=detect_leaks=0
gcc -w -g -O1 -std=gnu11 -D__linux__=1 -D__amd64__=1 -D_GNU_SOURCE=1 {san} {cflags} -I inc -I inc/linux -I src -I src/hashtable -I . -o "$t/demo" "$here/demo.c" {libs} -lpthread -lm || exit 2
cd "$t" && {'setarch -R ' if tsan else ''}timeout 120 ./demo
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    a=sh(f'cd /repo && bash {d}/demo.sh'); 
    b=sh(f'cd {w} && bash {d}/demo.sh')
    env=dict(os.environ,VF_REPO=w)
    c=sh(f'{V}/bin/check {prop}',env=env)
    viol=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{id}: demo clean={a.returncode} patched={b.returncode} check={c.returncode} viol={len(viol)} {viol[:1]}',flush=True)
    if a.returncode: print('  CLEAN FAILS',a.stdout[-500:],a.stderr[-1500:])
    if not b.returncode: print('  PATCHED PASSES')
    shutil.rmtree(w)
if __name__=='__main__':
    fs=[a for a in sys.argv[1:] if a.endswith('.py')]; ONLY=[a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in fs: exec(open(f).read())
