#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from plan import PLAN, NA, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    i = p["id"]
    if i not in PLAN: continue
    P = PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s --tier quick" % i, thorough_cmd="python3 lib/check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=P.get("technique", TECH), level=P["level"], level_note=P["note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in PROPS if p["id"] not in PLAN]
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
               notes="Deciding family: runtime monitoring and sanitizers. Every check rebuilds the library from /repo's working tree; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
