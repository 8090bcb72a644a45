"""Verdict, evidence and known-findings plumbing shared by all rules."""
import json
import os
import sys
import time
import traceback

from .program import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, program, tier, seed):
        self.pid, self.p, self.tier, self.seed = pid, program, tier, seed
        self.rules = {}            # rule -> description
        self.obligations = []      # (rule, subject, where, ok)
        self.violations = {}       # (rule, construct) -> (where, msg)
        self.counts = {}
        self.functions = set()
        self.notes = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, subject, where=""):
        self.obligations.append((rule, str(subject), where, True))

    def bad(self, rule, construct, where, msg):
        self.obligations.append((rule, str(construct), where, False))
        self.violations.setdefault((rule, str(construct)), (where, msg))

    def check(self, cond, rule, construct, where, msg):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, where, msg)
        return cond

    def at_least(self, name, n, minimum):
        """instance-count guard: a rule that matches (almost) nothing is broken, not passing"""
        self.counts[name] = n
        if n < minimum:
            raise AnalysisBroken(f"{self.pid}: only {n} instances of '{name}' found, expected at least {minimum}")

    def count(self, name, n):
        self.counts[name] = n

    def used(self, interp):
        self.functions |= interp.stats["functions"]
        for k in ("calls", "paths", "joins"):
            self.counts["abstract_" + k] = self.counts.get("abstract_" + k, 0) + interp.stats[k]


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main(pid, run, explanation):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    sys.setrecursionlimit(20000)
    try:
        p = Program()
        rep = Report(pid, p, tier, seed)
        run(p, rep)
        err = None
    except AnalysisBroken as e:
        err = f"ANALYSIS-BROKEN property={pid} {e}"
    except Exception:
        err = f"ANALYSIS-BROKEN property={pid} internal error\n" + traceback.format_exc()
    if err is not None:
        print(err)
        sys.exit(2)
    known = {(k["rule"], k["construct"]): k for k in load_known()
             if k["property"] == pid and k["status"] == "known"}
    new, seen = [], []
    for key, (where, msg) in rep.violations.items():
        if key in known:
            seen.append((key, where, msg))
        else:
            new.append((key, where, msg))
    obl = len(rep.obligations)
    okn = sum(1 for o in rep.obligations if o[3])
    samples = [dict(rule=r, subject=s, where=w, holds=o) for r, s, w, o in rep.obligations[:12]]
    byrule = {}
    for r, s, w, o in rep.obligations:
        d = byrule.setdefault(r, dict(text=rep.rules.get(r, ""), obligations=0, discharged=0))
        d["obligations"] += 1
        d["discharged"] += int(o)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 3),
              violations=len(new),
              coverage=dict(
                  explanation=explanation,
                  obligations=obl, discharged=okn,
                  rules=byrule, samples=samples,
                  modules_parsed=len(p.modules), functions_indexed=len(p.functions),
                  functions_interpreted=sorted(rep.functions),
                  counts=rep.counts, notes=rep.notes,
                  known_findings=[dict(rule=k[0], construct=k[1], where=w) for k, w, m in seen]),
              assumptions=rep.assumptions or ["the abstract semantics of NumPy/gpyreg calls used by the rules"])
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, where, msg in seen:
        print(f"KNOWN-FINDING: property={pid} [{key[0]}] {key[1]}: {known[key].get('what', msg)}")
    if new:
        rp = os.path.join(evdir, pid + "-violations.txt")
        with open(rp, "w") as f:
            for key, where, msg in new:
                f.write(f"[{key[0]}] {key[1]}\n  at {where}\n  {msg}\n  rule: {rep.rules.get(key[0], '')}\n\n")
        for key, where, msg in new:
            print(f"  [{key[0]}] {key[1]} at {where}: {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    print(f"{pid}: ok, {okn} obligations discharged under {len(byrule)} rules "
          f"({len(seen)} known findings), {ev['wall_s']} s")
    sys.exit(0)
