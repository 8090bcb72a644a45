#!/usr/bin/env python3
"""automut.py [-n N] [-s SEED] [-f FILE-SUBSTR,..] [-q FUNC-SUBSTR,..] [-o OP,..] [-j JOBS] [-c CHECK,..]: random syntactic mutants of /repo/pyvbmc (not necessarily property
violations), all checks on each; prints the mutants no check reports, for review.  Only used to find gaps; no registered check uses it."""
import argparse, ast, concurrent.futures as cf, copy, importlib, io, os, random, shutil, sys, tempfile, time, contextlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SKIPF = {"plot", "__str__", "__repr__", "_long_str", "_init_logger", "_log_column_headers", "_setup_logging_display_format", "iteration_plot"}


def points(tree):
    """[(op, function, apply)] mutation points"""
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def infn(n):
        names = []
        while n in parents:
            n = parents[n]
            if isinstance(n, FN):
                names.append(n.name)
            if isinstance(n, ast.Raise):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("info", "warning", "debug", "format", "warn", "error"):
                return None
        return names[-1] if names else None

    strs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            strs.setdefault(ast.dump(n.value), set()).add(n.slice.value)
    for n in ast.walk(tree):
        fn = infn(n)
        if fn is None or fn in SKIPF:
            continue
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("info", "warning", "debug", "warn"):
                continue
            out.append(("del_stmt", fn, n, None))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                out.append(("drop_copy", fn, n, n.func.value))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("deepcopy",) and n.args:
                out.append(("drop_copy", fn, n, n.args[0]))
            if len(n.args) >= 2:
                i = 0
                m = copy.copy(n)
                m.args = [n.args[1], n.args[0]] + n.args[2:]
                out.append(("swap_args", fn, n, m))
            for i, k in enumerate(n.keywords):
                m = copy.copy(n)
                m.keywords = n.keywords[:i] + n.keywords[i + 1:]
                out.append(("drop_kw", fn, n, m))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            T = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            m = copy.copy(n)
            m.ops = [T[type(n.ops[0])]()]
            out.append(("cmp", fn, n, m))
        if isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append(("boolop", fn, n, m))
            for i in range(len(n.values)):
                m = copy.copy(n)
                m.values = n.values[:i] + n.values[i + 1:]
                out.append(("drop_cond", fn, n, m if len(m.values) > 1 else m.values[0]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)) and not isinstance(n.operand, ast.Constant):
            out.append(("drop_not", fn, n, n.operand))
        if isinstance(n, ast.BinOp):
            T = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in T and not isinstance(n.left, ast.Constant) or type(n.op) in (ast.Sub,):
                m = copy.copy(n)
                m.op = T[type(n.op)]() if type(n.op) in T else n.op
                out.append(("arith", fn, n, m))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append(("const", fn, n, ast.Constant(not n.value)))
            elif isinstance(n.value, int) and isinstance(parents[n], (ast.Subscript, ast.Slice, ast.BinOp, ast.Compare, ast.keyword, ast.Call)):
                out.append(("const", fn, n, ast.Constant(n.value + random.choice((1, -1)) if n.value else 1)))
            elif isinstance(n.value, str) and isinstance(parents[n], ast.Subscript):
                alt = sorted(strs.get(ast.dump(parents[n].value), set()) - {n.value})
                if alt:
                    out.append(("key", fn, n, ast.Constant(random.choice(alt))))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not (isinstance(parents[n], ast.Call) and parents[n].func is n):
            P = parents[n]
            f = P
            while f in parents and not isinstance(f, FN):
                f = parents[f]
            loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
            if n.id in loc and n.id != "self":
                alt = [x for x in sorted(loc) if x != n.id and (x[:2] == n.id[:2] or x[-2:] == n.id[-2:] or {x, n.id} <= {"lb", "ub", "plb", "pub", "x", "u", "X", "mu", "sigma", "lambd", "w", "eta"})]
                if alt:
                    out.append(("name", fn, n, ast.Name(random.choice(alt), ast.Load())))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and not (isinstance(parents[n], ast.Call) and parents[n].func is n):
            sib = {x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n.value.id}
            alt = [x for x in sorted(sib) if x != n.attr and (x.startswith(n.attr) or n.attr.startswith(x) or x[-3:] == n.attr[-3:])]
            if alt and n.value.id not in ("np", "sp", "scipy", "math"):
                m = copy.copy(n)
                m.attr = random.choice(alt)
                out.append(("attr", fn, n, m))
        if isinstance(n, ast.If):
            m = copy.copy(n)
            m.test = ast.Constant(random.choice((True, False)))
            out.append(("if_const", fn, n, m))
    return out, parents


def apply(tree, node, new):
    class R(ast.NodeTransformer):
        def visit(self, x):
            if x is node:
                return new if new is not None else ast.copy_location(ast.Pass(), x)
            return self.generic_visit(x)
    return R().visit(tree)


def run_all(root, only):
    from engine import program
    from engine.program import AnalysisBroken
    from engine.report import Report, load_known
    program.REPO = root
    sys.setrecursionlimit(20000)
    known = {(k["property"], k["rule"], k["construct"]) for k in load_known() if k["status"] == "known"}
    p = program.Program()
    hits = []
    for i in range(1, 30):
        pid = f"C{i:02d}"
        if only and pid not in only:
            continue
        m = importlib.import_module("rules." + pid.lower())
        rep = Report(pid, p, "quick", 1)
        try:
            m.run(p, rep)
        except AnalysisBroken as e:
            hits.append((pid, "BROKEN", str(e)[:80]))
            continue
        except Exception as e:
            hits.append((pid, "CRASH", repr(e)[:200]))
            continue
        for (rule, con), (w, msg) in rep.violations.items():
            if (pid, rule, con) not in known:
                hits.append((pid, rule, con[:80]))
    return hits


def job(a):
    rel, src, only, text = a
    t = time.time()
    d = tempfile.mkdtemp(prefix="automut_", dir="/tmp")
    try:
        shutil.copytree("/repo/pyvbmc", d + "/pyvbmc", ignore=shutil.ignore_patterns("testing", "__pycache__"))
        open(f"{d}/{rel}", "w").write(src)
        hits = run_all(d, only)
    except SyntaxError as e:
        hits = [("-", "SYNTAX", str(e))]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return text, hits, time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=40); ap.add_argument("-s", type=int, default=1); ap.add_argument("-f", default=""); ap.add_argument("-q", default="")
    ap.add_argument("-o", default=""); ap.add_argument("-j", type=int, default=7); ap.add_argument("-c", default=""); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    random.seed(a.s)
    files = []
    for dp, dn, fs in os.walk("/repo/pyvbmc"):
        if "testing" in dp or "__pycache__" in dp:
            continue
        files += [os.path.join(dp, f) for f in fs if f.endswith(".py") and f != "__init__.py"]
    allp = []
    for f in sorted(files):
        rel = os.path.relpath(f, "/repo")
        if a.f and not any(x in rel for x in a.f.split(",")):
            continue
        tree = ast.parse(open(f).read())
        ps, _ = points(tree)
        for i, (op, fn, n, new) in enumerate(ps):
            if a.q and not any(x == fn for x in a.q.split(",")):
                continue
            if a.o and op not in a.o.split(","):
                continue
            allp.append((rel, tree, op, fn, n, new))
    random.shuffle(allp)
    # spread evenly over operators
    byop = {}
    for x in allp:
        byop.setdefault(x[2], []).append(x)
    pick = []
    while len(pick) < min(a.n, len(allp)):
        for k in sorted(byop):
            if byop[k] and len(pick) < a.n:
                pick.append(byop[k].pop())
    jobs = []
    for rel, tree, op, fn, n, new in pick:
        before = ast.unparse(n)[:110].replace("\n", " | ")
        after = "pass" if new is None else ast.unparse(new)[:110].replace("\n", " | ")
        line = getattr(n, "lineno", 0)
        # deepcopy keeps identity through memo
        memo = {}
        t2 = copy.deepcopy(tree, memo)
        n2 = memo[id(n)]
        t2 = ast.fix_missing_locations(apply(t2, n2, copy.deepcopy(new)))
        jobs.append((rel, ast.unparse(t2), set(a.c.split(",")) if a.c else None, f"{rel.split('/')[-1]}:{line} {fn} [{op}] {before}  ->  {after}"))
    caught = 0
    with cf.ProcessPoolExecutor(a.j, max_tasks_per_child=1) as ex:
        for text, hits, dt in ex.map(job, jobs):
            if hits:
                caught += 1
                if a.v or any(h[1] in ("CRASH",) for h in hits):
                    print("caught  ", text, sorted({h[0] + ":" + h[1] for h in hits}), flush=True)
            else:
                print("SURVIVED", text, f"{dt:.0f}s", flush=True)
    print(f"{len(jobs)} mutants, {caught} reported, {len(jobs) - caught} survived")


if __name__ == "__main__":
    main()
