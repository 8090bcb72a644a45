"""debug: run one rule without floors and print violations and notes"""
import sys, importlib, collections
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
from engine.report import Report
from engine.program import Program
p = Program()
rep = Report(sys.argv[1], p, "quick", 1)
rep.at_least = lambda n, x, m: print("floor", n, x, m)
importlib.import_module("rules." + sys.argv[1].lower()).run(p, rep)
for k, (w, m) in list(rep.violations.items())[:40]: print("V", k, w, m[:300])
print(len(rep.violations), "violations", len(rep.obligations), "obligations", sum(1 for o in rep.obligations if o[3]), "ok")
for n, c in collections.Counter(rep.notes).most_common(40): print("N", c, n[:250])
