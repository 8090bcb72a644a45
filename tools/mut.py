#!/usr/bin/env python3
"""mut.py CASES.py [filter]: apply each textual variant to a scratch copy of /repo/pyvbmc and run the named check.
A case: (name, check-id, expect, file, old, new) or (name, id, expect, [(file, old, new), ...]); expect 1 = must alarm, 0 = must stay quiet.
Only used to test the checkers; no registered check uses it."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
for fn in [a for a in sys.argv[1:] if a.endswith(".py")]:
    exec(open(fn).read(), ns)
flt = [a for a in sys.argv[1:] if not a.endswith(".py")]
def one(case):
    name, pid, exp = case[:3]
    edits = case[3] if isinstance(case[3], list) else [tuple(case[3:6])]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/pyvbmc", d + "/pyvbmc", ignore=shutil.ignore_patterns("testing", "__pycache__"))
        for f, old, new in edits:
            path = d + "/pyvbmc/" + f
            s = open(path).read()
            if old is None:
                s = s + new
            else:
                if s.count(old) < 1:
                    return name, pid, "NOMATCH", old[:80]
                s = s.replace(old, new) if (len(case) > 6 and case[6] == "all") else s.replace(old, new, 1)
            open(path, "w").write(s)
        res = []
        for q in (pid if isinstance(pid, (list, tuple)) else [pid]):
            r = subprocess.run([sys.executable, V + "/check.py", q], capture_output=True, text=True,
                               env=dict(os.environ, PYVBMC_REPO=d, VERIF_EVIDENCE=d + "/ev"), cwd=V)
            res.append((r.returncode, "\n".join(l for l in (r.stdout + r.stderr[-600:]).splitlines() if not l.startswith("KNOWN-F"))))
        rc = max(x[0] for x in res)
        ok = rc == exp
        return name, pid, "ok" if ok else f"WRONG rc={rc} expected {exp}", "" if ok and "-v" not in flt else "\n".join(x[1] for x in res)
    finally:
        shutil.rmtree(d)
cases = [c for c in ns["CASES"] if not [x for x in flt if x != "-v"] or any(x in c[0] or x == c[1] for x in flt)]
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, cases):
        if r[2] != "ok" or "-v" in flt:
            bad += r[2] != "ok"
            print(*r)
print(len(cases), "cases,", bad, "wrong")
