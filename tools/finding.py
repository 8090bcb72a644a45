#!/usr/bin/env python3
"""finding.py fixed PROP COMMIT 'what' | known PROP RULE CONSTRUCT 'what'  -- maintain known_findings.json by hand"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
L = json.load(open(F))
a = sys.argv[1:]
if a[0] == "fixed":
    L.append(dict(status="fixed", property=a[1], rule="", construct="", commit=a[2], what=a[3], entry=f"fixed: property={a[1]} {a[2]} {a[3]}"))
else:
    L.append(dict(status="known", property=a[1], rule=a[2], construct=a[3], what=a[4]))
json.dump(L, open(F, "w"), indent=1)
