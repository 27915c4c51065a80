#!/usr/bin/env python3
"""writes MANIFEST.json: claimed checks (those with a rule in batteries.py) and the not-applicable list"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import batteries
NA = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif i in batteries.RULES:
        checks.append(dict(property=i, quick_cmd="python3 engine/check.py %s --tier quick" % i,
                           thorough_cmd="python3 engine/check.py %s --tier thorough" % i,
                           technique=batteries.TECH.get(i, batteries.TECH["*"]), level="other", level_note=batteries.NOTE.get(i, batteries.NOTE["*"])))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 engine/build.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the analysis reads compiler MIR of the unmodified crates and of derived probe declarations."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
