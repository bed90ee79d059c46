#!/usr/bin/env python3
# seed.py FILE.py [id...]: each FILE defines seeds with S(id, prop, edits, pkg, demo, needs, breaks);
# every one is applied to /repo, built, tested and demonstrated, then undone; kept under seeded/ if confirmed.
import sys,subprocess,os,json,re
R='/repo'; V='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestDemo$' ./%s
'''
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def S(id,prop,edits,pkg,demo,needs,breaks):
    if len(sys.argv)>2 and id not in sys.argv[2:]: return
    if len(sys.argv)<=2 and os.path.exists(f'{V}/{id}/meta.json'): return
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'repo dirty'
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    ok=False; why=''
    try:
        for f,a,b in edits:
            s=open(f'{R}/{f}').read()
            if s.count(a)!=1: why=f'{f}: {s.count(a)} matches of {a!r}'; return
            open(f'{R}/{f}','w').write(s.replace(a,b))
        diff=sh(f'git -C {R} diff').stdout
        open(f'{d}/patch.diff','w').write(diff)
        open(f'{d}/demo.sh','w').write(DEMO%(pkg,pkg)); os.chmod(f'{d}/demo.sh',0o755)
        open(f'{d}/demo_test.go','w').write(demo)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: why='build: '+r.stderr[-600:]; return
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode==0: why='demo passes with the patch'; return
        if 'build failed' in r.stdout or 'setup failed' in r.stdout: why='demo build: '+(r.stdout+r.stderr)[-900:]; return
        dout=r.stdout[-300:]
        sh('bash /opt/vp/test.sh /tmp/seed_o.json')
        p=set(json.load(open('/tmp/seed_o.json'))['passed'])
        if stable-p:
            sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            p|=set(json.load(open('/tmp/seed_o.json'))['passed'])
        if stable-p: why='stable tests fail: '+str(sorted(stable-p))[:300]; return
        sh(f'git -C {R} checkout -- .')
        r=sh(f'bash {d}/demo.sh',cwd=R)
        if r.returncode: why='demo fails on the unchanged tree: '+(r.stdout+r.stderr)[-900:]; return
        ok=True
    finally:
        sh(f'git -C {R} checkout -- .')
        if not ok: sh(f'rm -rf /verif/seeded/{id}')
        print(id,'KEPT' if ok else 'DROPPED '+why,flush=True)
exec(open(sys.argv[1]).read())
