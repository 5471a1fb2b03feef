#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from mc/groups.json and properties.jsonl."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
groups=json.load(open(V+'/mc/groups.json'))['groups']
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
seq={}   # property -> technique text
import importlib.util
T=json.load(open(V+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    if any(p in g['props'] for g in groups.values()):
        t=T[p]
        checks.append(dict(property=p,quick_cmd='python3 mc/run.py check %s quick'%p,thorough_cmd='python3 mc/run.py check %s thorough'%p,
          technique=t['technique'],level='model_checking',level_note=t['note']))
    else:
        na.append(dict(property=p,reason=T.get(p,{}).get('na','check under construction')))
m=dict(version=1,setup_cmd='python3 mc/run.py setup',checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
