#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id>/ from a python spec (list SEEDS of dicts) and confirms each one
in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the patch."""
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
OUT='/verif/seeded'
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    w=tempfile.mkdtemp(prefix='seed_')
    r=w+'/repo'
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    for f,old,new in s['edits']:
        t=open(r+'/'+f).read()
        if t.count(old)!=s.get('count',1): print(s['id'],'EDIT MISMATCH',f,t.count(old)); break
        t=t.replace(old,new); open(r+'/'+f,'w').write(t)
    d=OUT+'/'+s['id']; os.makedirs(d,exist_ok=True)
    patch=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(patch)
    open(d+'/demo_test.go','w').write(s['demo'].lstrip())
    pkg=s['pkg']
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaviour correct; nonzero: the property is broken. cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 0
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
%sgo test%s -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run TestSeedDemo ./%s
'''%(pkg,'CGO_ENABLED=1 ' if s.get('race') else '',' -race' if s.get('race') else '',pkg))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    def run(cmd,cwd): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True)
    a=run('go build ./... && go test ./packet/... ./version/... .',r)
    b=run('bash %s/demo.sh'%d,r)
    c=run('git checkout -q -- . && bash %s/demo.sh'%d,r)
    ok=a.returncode==0 and b.returncode!=0 and c.returncode==0
    print(s['id'],'OK' if ok else 'BAD tests=%d patched=%d clean=%d'%(a.returncode,b.returncode,c.returncode))
    if not ok: print((a.stdout+a.stderr)[-600:] if a.returncode else '', b.stdout[-300:], c.stdout[-800:])
    if ok and 'build failed' in b.stdout+b.stderr: print('  demo failed to build!')
    shutil.rmtree(w)
