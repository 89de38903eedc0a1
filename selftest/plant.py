#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: build /verif/seeded/<id>/ from specs and confirm each in a scratch copy.
A spec: B(id, prop, needs, breaks, edits=[(file, old, new)], pkg='./expreduce/atoms', test='go test source')"""
import sys, os, subprocess, json, shutil
SEED='/verif/seeded'; W='/tmp/plant'
CORE=('expreduce','./expreduce')
specs=[]
def B(id, prop, needs, breaks, edits, pkg, test): specs.append((id,prop,needs,breaks,edits,pkg,test))
exec(open(sys.argv[1]).read())
want=sys.argv[2:]
DEMO='''#!/bin/bash
# fails when the planted change is present; run with cwd = repository root
here="$(cd "$(dirname "$0")" && pwd)"
root="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="${GOFLAGS:-}" GOPROXY=off
cat > "$tmp/overlay.json" <<EOF
{"Replace": {%s}}
EOF
cd "$root" || exit 3
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestZZDemo' %s
'''
STUB='''package rubi_snapshot

import "errors"

// Asset stands in for the generated package that the tree lacks.
func Asset(name string) ([]byte, error) { return nil, errors.New("asset " + name + " not found") }
func MustAsset(name string) []byte { panic("asset " + name + " not found") }
func AssetNames() []string { return nil }
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
for (id,prop,needs,breaks,edits,pkg,test) in specs:
    if want and id not in want: continue
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh(f'cp -a /repo {W}/repo')
    R=W+'/repo'
    d=f'{SEED}/{id}'; os.makedirs(d, exist_ok=True)
    ok=True
    for f,o,n in edits:
        s=open(f'{R}/{f}').read()
        if s.count(o)!=1: print(id,'EDIT does not match once',f,s.count(o),repr(o[:60])); ok=False; break
        open(f'{R}/{f}','w').write(s.replace(o,n))
    if not ok: continue
    patch=sh(f'git -C {R} diff').stdout
    open(d+'/patch.diff','w').write(patch)
    p=pkg[2:]
    repl=f'"$root/{p}/zz_demo_test.go": "$here/zz_demo_test.go.txt"'
    if os.path.exists(d+'/rubi_stub.go.txt'): os.remove(d+'/rubi_stub.go.txt')
    if pkg=='./expreduce':
        open(d+'/rubi_stub.go.txt','w').write(STUB)
        repl+=', "$root/expreduce/rubi_snapshot/rubi_resources.go": "$here/rubi_stub.go.txt"'
    open(d+'/zz_demo_test.go.txt','w').write(test)
    open(d+'/demo.sh','w').write(DEMO%(repl,pkg)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    # confirm
    b=sh(f'. /opt/vp/env.sh; cd {R} && go build $PKGS')
    if b.returncode: print(id,'BUILD FAILS',b.stderr[:600]); continue
    t=sh(f'. /opt/vp/env.sh; cd {R} && go test -vet=off -count=1 $PKGS 2>&1 | grep -E "^(FAIL|---)"; go vet {pkg} >/dev/null 2>&1; go test -vet=off -count=1 -run "TestAllocations|TestAssignments" ./expreduce/matcher')
    if t.returncode: print(id,'STABLE TESTS FAIL',t.stdout[-600:]); continue
    d1=sh(f'bash {d}/demo.sh',cwd=R); sh(f'git -C {R} checkout -- .'); d0=sh(f'bash {d}/demo.sh',cwd=R)
    good = d1.returncode!=0 and d0.returncode==0
    if not good: print(id,'DEMO WRONG with=%d without=%d'%(d1.returncode,d0.returncode),d0.stdout[-800:],d0.stderr[-500:],d1.stdout[-500:]); continue
    if 'build failed' in d1.stdout: print(id,'DEMO DOES NOT BUILD'); continue
    sh(f'git -C {R} apply {d}/patch.diff')
    res=[]
    for c in [prop]+os.environ.get('ALSO','').split():
        a=sh(f'/tmp/w/an -noevidence -repo {R} {c}')
        res.append(f'{c}:{"CAUGHT" if a.returncode==1 else "missed" if a.returncode==0 else "?"}')
        if a.returncode==1: res.append(' '.join(l.strip()[:230] for l in a.stdout.splitlines() if l.strip().startswith(('where','why')))[:500])
    print(id,'OK',*res, flush=True)
shutil.rmtree(W, ignore_errors=True)
