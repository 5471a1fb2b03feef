#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (seeded changes, findings) from seeded/*/meta.json and known_findings.jsonl."""
import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
seeds='## 4. Seeded changes (`seeded/`)\nEach breaks one property, compiles, passes the stable tests, and has a demonstration.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    seeds+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'].replace('|','/').replace('\n',' '),(m['property']+' quick: '+caught[i] if i in caught and not caught[i].startswith('P') else caught.get(i,m['property']+' quick')))
f='\n'.join('* %s (%s, `%s`) %s'%(k['id'],k['property'],k.get('commit') or 'known, not repaired',re.sub(r'^fixed: property=\S+ \S+ ','',k['what'])) for k in map(json.loads,open('/verif/known_findings.jsonl')))
def put(tag,text):
    global s
    a,b='<!-- %s -->'%tag,'<!-- end %s -->'%tag
    blk=a+'\n'+text.rstrip()+'\n'+b
    if '@@'+tag.upper()+'@@' in s: s=s.replace('@@'+tag.upper()+'@@',blk)
    else: s=s[:s.index(a)]+blk+s[s.index(b)+len(b):]
put('seeds',seeds); put('findings',f)
open(p,'w').write(s)
