import json,sys,subprocess
# usage: rec.py PROP commit what  -> appends a fixed finding
p='/verif/known_findings.jsonl'
n=sum(1 for l in open(p) if l.strip())+1
prop,commit,what=sys.argv[1:4]
with open(p,'a') as f:
    f.write(json.dumps({"status":"fixed","id":"F%02d"%n,"property":prop,"commit":commit,"what":"fixed: property=%s %s %s"%(prop,commit,what)})+"\n")
