#!/usr/bin/env python3
"""probe.py FILE.py [-j N] [-c CHECK,..]: FILE defines L = [(label, file under pyvbmc, (old, new), ...), ...]; apply each to a copy and list what every check reports"""
import argparse, concurrent.futures as cf, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
sys.dont_write_bytecode = True
import automut


def job(a):
    label, rel, prs, only = a
    d = tempfile.mkdtemp(prefix="probe_", dir="/tmp")
    try:
        shutil.copytree("/repo/pyvbmc", d + "/pyvbmc", ignore=shutil.ignore_patterns("testing", "__pycache__"))
        for r, *ps in (rel if isinstance(rel, list) else [(rel, *prs)]):
            f = f"{d}/pyvbmc/{r}"
            s = open(f).read()
            for o, n in ps:
                if o not in s:
                    return label, [("-", "NO MATCH", o[:60])]
                s = s.replace(o, n, 1)
            open(f, "w").write(s)
        return label, automut.run_all(d, only)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("-j", type=int, default=6); ap.add_argument("-c", default="")
    a = ap.parse_args()
    ns = {}
    exec(open(a.file).read(), ns)
    jobs = [(l[0], l[1], l[2:], set(a.c.split(",")) if a.c else None) for l in ns["L"]]
    with cf.ProcessPoolExecutor(a.j, max_tasks_per_child=1) as ex:
        for label, hits in ex.map(job, jobs):
            print(("CAUGHT " if hits else "MISSED ") + label, sorted({f"{h[0]}:{h[1]}" + (f" {h[2]}" if h[1] in ("CRASH", "BROKEN", "NO MATCH") else "") for h in hits}), flush=True)
