#!/usr/bin/env python3
"""seed.py [ID ...]: (re)create /verif/seeded/<id>/ from tools/seeds/*.py and validate each planted bug in a scratch copy:
the demonstration passes on the unchanged tree, fails with the patch, and (reported) whether the property's check catches it.
A seed file defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<python text>, needs, what, tests=[...])]."""
import glob, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
for fn in sorted(glob.glob(V + "/tools/seeds/*.py")):
    ns = {}
    exec(open(fn).read(), ns)
    SEEDS += ns["SEEDS"]
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero when the property is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export DEMO_WORK="$work" MPLCONFIGDIR="$work"
exec_py=/opt/venv/bin/python
timeout 280 "$exec_py" "$here/demo.py"
'''
BASE = "93da0b4"
def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)
def one(s):
    d = tempfile.mkdtemp(prefix="seed_")
    out = V + "/seeded/" + s["id"]
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "docs", "examples"))
        r = d + "/repo"
        sh(["git", "init", "-q"], cwd=r); sh(["git", "add", "-A", "-f", "pyvbmc"], cwd=r)
        sh(["git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], cwd=r)
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(out + "/meta.json", "w"), indent=1)
        # the demo lies elsewhere when it counts
        shutil.copytree(out, d + "/demo")
        a = sh(["bash", d + "/demo/demo.sh"], cwd=r)
        for f, old, new in s["edits"]:
            p = r + "/pyvbmc/" + f
            t = open(p).read()
            if t.count(old) < 1:
                return s["id"], "NOMATCH", old[:60]
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh(["git", "diff"], cwd=r).stdout
        open(out + "/patch.diff", "w").write(diff)
        chk = sh(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
        b = sh(["bash", d + "/demo/demo.sh"], cwd=r)
        c = sh([sys.executable, V + "/check.py", s["property"]], cwd=V, env=dict(os.environ, PYVBMC_REPO=r, VERIF_EVIDENCE=d + "/ev"))
        tests = ""
        if s.get("tests"):
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", *["pyvbmc/testing/" + x for x in s["tests"]]], cwd=r,
                   env=dict(os.environ, PYTHONPATH=r + ":/opt/vp/plugin", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0"))
            tests = " tests:" + (t.stdout.strip().splitlines() or ["?"])[-1]
        lines = set()
        orig = sh(["git", "-C", "/repo", "diff", BASE, "HEAD", "--", "pyvbmc"]).stdout
        added = {l[1:] for l in orig.splitlines() if l.startswith("+") and len(l.strip()) > 12}
        mine = [l for l in diff.splitlines() if l.startswith("-") and l[1:] in added and not l.startswith("---")]
        caught = c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout
        res = f"demo {a.returncode}/{b.returncode} apply {chk.returncode} check rc={c.returncode} {'CAUGHT' if caught else 'MISSED'}{tests}"
        if mine:
            res += f" CHANGES-FIX-LINE {mine[:2]}"
        good = a.returncode == 0 and b.returncode not in (0,) and chk.returncode == 0 and caught
        if not good:
            res += "\n   A:" + (a.stdout + a.stderr)[-300:] + "\n   B:" + (b.stdout + b.stderr)[-200:] + "\n   C:" + c.stdout[-300:]
        else:
            res += "\n   " + (b.stdout + b.stderr).strip().splitlines()[-1][:140] + "\n   " + c.stdout.strip().splitlines()[0][:200]
        return s["id"], "ok" if good else "BAD", res
    finally:
        shutil.rmtree(d)
ids = sys.argv[1:]
todo = [s for s in SEEDS if not ids or s["id"] in ids or s["property"] in ids]
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, todo):
        print(*r, flush=True)
