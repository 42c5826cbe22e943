#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties and their notes."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claims=json.load(open(V+'/tools/claims.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
 "notes":"gocv (in /verif/gocv) executes contracts written in Go (in /verif/contracts) symbolically against the SSA of /repo's current source and discharges the verification conditions with z3/cvc5. See DESIGN.md."}
for p in props:
    c=claims.get(p['id'])
    if c and 'level' in c:
        m['checks'].append({"property":p['id'],"quick_cmd":f"bash /verif/check.sh {p['id']} quick","thorough_cmd":f"bash /verif/check.sh {p['id']} thorough","technique":c['technique'],"level":c['level'],"level_note":c['note']})
    else:
        m['not_applicable'].append({"property":p['id'],"reason":(c or {}).get('reason','no contract built yet')})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
