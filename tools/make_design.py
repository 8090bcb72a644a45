#!/usr/bin/env python3
"""Write DESIGN.md from design_text.py, properties.jsonl, the rule modules, manifest_table.py, known_findings.json and seeded/."""
import json, os, re, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
sys.dont_write_bytecode = True
import design_text as D, manifest_table as M
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
out = [D.HEAD, "\n## 2. Properties decided\n"]
for p in props:
    i = p["id"]
    if i not in M.CLAIM:
        continue
    m = importlib.import_module("rules." + i.lower())
    src = open(f"{V}/rules/{i.lower()}.py").read()
    tech, note = M.CLAIM[i]
    scope, oracle, why = D.PROP[i]
    out.append(f"### {i} — {p['title']}\n")
    out.append(" ".join(m.EXPLANATION.split()) + "\n")
    out.append(f"- *Analysed*: {scope}\n- *Oracle*: {oracle}\n- *Bounds*: {note}\n- *Beyond tests*: {why}\n- *Rules*:")
    for a, b in re.findall(r'rep\.rule\("([^"]+)",\s*"((?:[^"]|"\s*\n\s*")+)"', src):
        out.append(f"  - `{a}` — " + re.sub(r'"\s*\n\s*"', "", b))
    out.append("")
out.append("\n## 3. Properties this family cannot decide here (not_applicable)\n")
for p in props:
    if p["id"] in M.NA:
        out.append(f"- **{p['id']}** {p['title']}: {M.NA[p['id']]}")
out.append(D.LIMITS)
kf = json.load(open(f"{V}/known_findings.json"))
out.append("\n## 7. Genuine defects\n\nRepaired (`fix:` commits in /repo):\n")
for k in kf:
    if k["status"] == "fixed":
        out.append(f"- {k['property']} {k['commit']}: {k['what']}")
out.append("\nRecorded, not repaired (features that were never ported, or whose repair changes the default results of every run):\n")
for k in kf:
    if k["status"] == "known":
        out.append(f"- {k['property']} [{k['rule']}] {k['construct']}: {k['what']}")
out.append("\n## 8. Planted bugs and the checks that report them\n\nEach passes the existing tests, and was written from the property's text; `tools/seed.py` re-creates and validates them.\n\n| seed | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(f"{V}/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        out.append(f"| {d} | {m['property']} | {m['needs'][:160]} | {D.CAUGHT.get(d, m['property']) if hasattr(D, 'CAUGHT') else m['property']} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
