#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist and the table below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
exec(open(V + "/tools/manifest_table.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for q in props:
    i = q["id"]
    if i in CLAIM and os.path.exists(f"{V}/rules/{i.lower()}.py"):
        tech, note = CLAIM[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -m compileall -q engine rules check.py", checks=checks, not_applicable=na,
         notes="Static analysis of /repo's current source on every run; nothing of /repo is imported or executed. No hooks in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
