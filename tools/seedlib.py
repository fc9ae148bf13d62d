"""seed(id, prop, needs, breaks, edits, demo): builds /verif/seeded/<id>. edits: [(file, old, new)] on /repo's HEAD."""
import os,subprocess,json,shutil,textwrap
WT='/tmp/seedwt'
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off
cp "$D/main.go" "$S/main.go"; cp go.sum "$S/go.sum"
R=$(pwd)
{ echo "module demo"; echo "go 1.23.0"; echo "require github.com/spdx/tools-golang v0.0.0"; echo "replace github.com/spdx/tools-golang => $R"; sed -n '/^require (/,/^)/p' go.mod; } > "$S/go.mod"
cd "$S" && go build -o demo . || exit 3
cd "$S" && timeout 60 ./demo
'''
def setup():
    if not os.path.isdir(WT):
        subprocess.check_call(['git','-C','/repo','worktree','add','--detach',WT,'HEAD'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    subprocess.check_call(['git','-C',WT,'checkout','-q','--detach',subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()])
    subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
def seed(id,prop,needs,breaks,edits,demo):
    setup()
    for f,o,n in edits:
        p=os.path.join(WT,f); s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',WT,'diff'],text=True))
    open(d+'/main.go','w').write(demo.lstrip())
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
    print('seed',id)
def done():
    subprocess.call(['git','-C','/repo','worktree','remove','--force',WT])
    subprocess.call(['git','-C','/repo','worktree','prune'])
