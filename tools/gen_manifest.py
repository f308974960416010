#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),".."); sys.path.insert(0,H)
from checks import CHECKS, NOT_APPLICABLE
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
m=dict(version=1,setup_cmd="python3 -c \"import json; json.load(open('known_findings.json'))\"",
 hooks=dict(guard="none",enable="no hooks: the checks compile /repo's sources unmodified",source_commits=[]),checks=[],not_applicable=[])
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append(dict(property=i,quick_cmd="python3 check.py %s --tier quick"%i,thorough_cmd="python3 check.py %s --tier thorough"%i,
          technique=c.get("technique","bounded exhaustive enumeration of operation histories on the real code against an exact reference model"),
          level="model_checking",level_note=c["bounds"]))
    else: m["not_applicable"].append(dict(property=i,reason=NOT_APPLICABLE.get(i,"check not built yet")))
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1)
