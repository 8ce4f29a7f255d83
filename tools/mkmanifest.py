#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,V)
import checks
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m={"version":1,"setup_cmd":"python3 check.py --setup",
 "checks":[],"not_applicable":[],
 "notes":"see DESIGN.md; fixes of genuine defects in /repo and known findings are listed in KNOWN_FINDINGS.txt"}
for i in ids:
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
          "evidence_file":"/verif/evidence/%s.json"%i,"technique":c["technique"],"level":"model_checking","level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":getattr(checks,"NOT_APPLICABLE",{}).get(i,"check under construction")})
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
