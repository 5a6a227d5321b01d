#!/usr/bin/env python3
"""newseed.py SPEC.json: writes seeded/<id>/ from a description: {id, property, needs, what_it_breaks, edits:[[file,old,new]...], pkg, test}
The demo is an in-package Go test laid over the package with go's -overlay."""
import json,os,subprocess,sys,tempfile,shutil
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the current directory's module (an overlay: nothing is written there).
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
EOF
%(env)sgo1.23 test -vet=off -count=1 -timeout 280s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def main(p):
    for d in json.load(open(p)) if p.endswith('.json') else (lambda g: (exec(open(p).read(),g),g["L"])[1])({}):
        out='/verif/seeded/'+d['id']; os.makedirs(out,exist_ok=True)
        w=tempfile.mkdtemp()
        subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
        for f,a,b in d['edits']:
            s=open(w+'/r/'+f).read()
            assert s.count(a)==1,(d['id'],f,a,s.count(a))
            open(w+'/r/'+f,'w').write(s.replace(a,b))
        diff=subprocess.check_output(['git','diff'],cwd=w+'/r',text=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo_test.go','w').write(d['test'])
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=d['pkg'],env=d.get('env','')))
        os.chmod(out+'/demo.sh',0o755)
        json.dump({k:d[k] for k in ('property','needs','what_it_breaks')},open(out+'/meta.json','w'),indent=1)
        shutil.rmtree(w)
        print(d['id'])
for p in sys.argv[1:]: main(p)
