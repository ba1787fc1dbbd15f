#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from lib import registry
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in registry.CHECKS:
        c=registry.CHECKS[i]
        t=registry.TECH.get(i) or registry.DEFAULT_TECH
        note=c.rule+'. '+('Assumes: '+'; '.join(c.assumptions)+'.' if c.assumptions else 'Nothing is assumed beyond the compiler and the C library.')
        checks.append(dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 check.py '+i,evidence_file='evidence/%s.json'%i,technique=t,level=c.level,level_note=note))
    else: na.append(dict(property=i,reason=NA.get(i,'its check is not built yet')))
m=dict(version=1,setup_cmd='python3 setup.py',checks=checks,not_applicable=na,notes='All checks run the real code of /repo, rebuilt from the working tree; no hooks are needed. check.py --replay FILE repeats a reported violation.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
