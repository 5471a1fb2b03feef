#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file,old,new[,count])], PKG (dir), TEST (go source), NEEDS, BREAKS, TIMEOUT.
Writes seeded/ID from an edit of the scratch copy /tmp/sw, then tries it."""
import sys, subprocess, json, os, re
spec={}
exec(open(sys.argv[1]).read(),spec)
S='/tmp/sw'; d='/verif/seeded/'+spec['ID']
sh=lambda c:subprocess.run(c,shell=True,cwd=S,text=True,capture_output=True)
sh('git checkout -q -- . && git clean -fdq')
for e in spec['EDITS']:
    p=os.path.join(S,e[0]); t=open(p).read()
    assert t.count(e[1])>=1,('not found',e[0],e[1])
    assert t.count(e[1])==1 or len(e)>3,('several',t.count(e[1]),e[1])
    if len(e)>3 and e[3]>0:
        i=-1
        for _ in range(e[3]): i=t.index(e[1],i+1)
        t=t[:i]+e[2]+t[i+len(e[1]):]
    else: t=t.replace(e[1],e[2])
    open(p,'w').write(t)
bad=sh('. /opt/vp/env.sh; gofmt -l $(git diff --name-only)').stdout
if bad: print('gofmt:',bad)
os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(sh('git diff').stdout)
open(d+'/meta.json','w').write(json.dumps({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},indent=1)+'\n')
open(d+'/zz_demo_test.go','w').write(spec['TEST'])
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exits 0 when the demonstrated property holds (run in the repository's root)
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{spec['PKG']}/zz_demo_test.go" "$here/zz_demo_test.go" > "$tmp/overlay.json"
timeout 280 go test {spec.get("FLAGS","")} -vet=off -count=1 -timeout {spec.get('TIMEOUT',100)}s -overlay "$tmp/overlay.json" -run '^TestDemo' ./{spec['PKG']}
''')
os.chmod(d+'/demo.sh',0o755)
sh('git checkout -q -- .')
print(open(d+'/patch.diff').read())
print(subprocess.run(['/verif/tools/seedtool.sh','try',spec['ID']],text=True,capture_output=True).stdout)
