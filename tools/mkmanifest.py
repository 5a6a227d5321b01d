#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json,sys,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+'/bin')
from checks import CHECKS
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
NA={}
m={"version":1,"setup_cmd":"bash bin/setup","hooks":{"guard":"none","enable":"no hooks: the harness uses exported API only","source_commits":[]},
 "checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"bin/check %s quick"%i,"thorough_cmd":"bin/check %s thorough"%i,
          "technique":c.get("technique","Quint specification (%s); behaviours generated by quint run are replayed into the code built from /repo%s"%(
              ", ".join(sorted({j['spec'] for j in c.get('simulate',[])})), "; Apalache lemmas" if c.get('verify') else "")),
          "level":c["level"],"level_note":c.get("note","; ".join(c.get("assumptions",[])) or "bounded by the generated behaviours")})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check under construction")})
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
