# plant(id, prop, edits, demo_go, needs, breaks): builds /verif/seeded/<id>
import subprocess,os,json,shutil
SH='''#!/bin/bash
# Runs the demonstration test beside this script inside the package under /repo.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$R/zz_demo_test.go\\":\\"$D/zz_demo_test.go\\"}}" > "$T/o.json"
timeout 250 go test -overlay "$T/o.json" -vet=off -count=1 -run '^TestZZDemo$' .
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def plant(id,prop,edits,demo,needs,breaks):
    W='/tmp/wt_'+id
    shutil.rmtree(W,ignore_errors=True)
    assert sh('git -C /repo status --short').stdout==''
    sh(f'git -C /repo worktree prune; cp -a /repo {W}')
    try:
        for f,a,b in edits:
            s=open(f'{W}/{f}').read()
            assert s.count(a)==1,(id,f,a,s.count(a))
            open(f'{W}/{f}','w').write(s.replace(a,b))
        g=sh(f'. /opt/vp/env.sh; cd {W}; gofmt -l $(git diff --name-only)').stdout
        if g: print(id,'gofmt:',g)
        patch=sh(f'git -C {W} diff').stdout
        D=f'/tmp/pl_{id}'; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
        open(D+'/patch.diff','w').write(patch)
        open(D+'/demo.sh','w').write(SH)
        os.chmod(D+'/demo.sh',0o755)
        open(D+'/zz_demo_test.go','w').write(demo)
        sh('gofmt -w '+D+'/zz_demo_test.go')
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
        # build+tests in the copy
        r=sh(f'''. /opt/vp/env.sh; cd {W}; go build ./... && rm -rf test/out && mkdir -p test/out && go test -json -vet=off -count=1 ./... > /tmp/pl_{id}.json; python3 /opt/vp/results.py /tmp/pl_{id}.res gojson:/tmp/pl_{id}.json''')
        try: res=json.load(open(f'/tmp/pl_{id}.res'))
        except Exception as e: print(id,'NO RESULT',r.stdout,r.stderr); return False
        base=json.load(open('/opt/vp/BASELINE.json'))
        bl=set(base.get('stable') or base.get('tests') or [])
        miss=bl-set(res['passed'])
        a=sh(f'cd /repo && bash {D}/demo.sh'); b=sh(f'cd {W} && bash {D}/demo.sh')
        bt=(b.stdout+b.stderr)
        comp='build failed' in bt or 'undefined' in bt
        ok=not miss and a.returncode==0 and b.returncode!=0 and not comp
        print(id,'OK' if ok else 'BAD','missing',sorted(miss)[:3],'base',a.returncode,'mut',b.returncode)
        if a.returncode!=0: print((a.stdout+a.stderr)[-700:])
        elif not ok: print(bt[-700:])
        else: print('   ',[l for l in bt.splitlines() if 'zz_demo' in l or 'panic' in l][:1])
        if ok:
            T=f'/verif/seeded/{id}'; shutil.rmtree(T,ignore_errors=True); shutil.copytree(D,T)
        return ok
    finally:
        shutil.rmtree(W,ignore_errors=True)
