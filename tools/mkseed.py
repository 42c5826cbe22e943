#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py : make seeded/<id>/ from a spec file.
SPEC defines SEEDS = [dict(id, property, needs, what, pkg, edits=[(file, old, new)], test=GO SOURCE)]"""
import sys, os, json, subprocess, runpy
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOFLAGS= GOWORK=off GOTOOLCHAIN=local GOPROXY=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" -run 'TestZZDemo' ./%s
'''
ns=runpy.run_path(sys.argv[1])
only=sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    assert not subprocess.check_output(['git','-C','/repo','status','--porcelain']), 'dirty'
    for f,o,n in s['edits']:
        p='/repo/'+f; t=open(p).read(); assert t.count(o)==1,(s['id'],f,t.count(o),o); open(p,'w').write(t.replace(o,n))
    diff=subprocess.check_output(['git','-C','/repo','diff'])
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    if 'demo' in s: open(d+'/demo.sh','w').write(s['demo'])
    else:
        open(d+'/demo.sh','w').write(DEMO%(s['pkg'],s['pkg']))
        open(d+'/demo_test.go.txt','w').write(s['test'])
    for fn,c in s.get('files',{}).items(): open(d+'/'+fn,'w').write(c)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
