"""C13: all randomness comes from NumPy's global generator; no unordered, identity or clock dependence."""
import ast
from engine.absint import Config, Interp
from engine.lib import *
from engine.program import dotted
from engine.terms import *

EXPLANATION = (
    "Whole-program queries over resolved names (imports and local aliases followed): every mention of an entropy source other than the module "
    "functions of numpy.random, every statement that sets the global generator's state (allowed only in the loader on the caller's request, "
    "decided on every path), the seed option of every evolution-strategy call, every order-sensitive traversal of a set, every use of an "
    "object's identity or hash, and every branch whose condition is data-dependent on a clock reading (transitive taint through locals, "
    "fields, entries and returns).")

OTHER_GENERATORS = {"default_rng", "Generator", "RandomState", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "SeedSequence", "BitGenerator", "get_bit_generator"}
SETTERS = {"numpy.random.seed", "numpy.random.set_state", "numpy.random.set_bit_generator", "random.seed", "random.setstate"}
CLOCKS = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time",
          "time.process_time_ns", "time.thread_time", "time.clock", "time.localtime", "time.gmtime", "time.ctime", "datetime.datetime.now", "datetime.datetime.utcnow",
          "datetime.datetime.today", "datetime.date.today", "timeit.default_timer", "os.times", "os.getpid", "os.getloadavg"}
SEED_WORDS = {"seed", "random_state", "rng"}


class Names:
    """canonical dotted names within one function (or a module's top level)"""

    def __init__(self, mod, nodes):
        self.mod, self.alias = mod, {}
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = self.canon(n.value)
                if d and (d.startswith(("numpy.random", "scipy.stats", "random", "time", "datetime", "secrets", "cma", "numpy")) and d != "numpy"):
                    self.alias[n.targets[0].id] = d

    def canon(self, e):
        d = dotted(e)
        if d is None:
            return None
        h, *t = d.split(".")
        if h in self.alias:
            h = self.alias[h]
        elif h in self.mod.imports:
            h = self.mod.imports[h]
        else:
            return None
        return ".".join([h] + t)


def units(p):
    """(label, where prefix, node list, Names, func or None): every function body and every module's top level, each node once"""
    out = []
    for m in p.modules.values():
        top = []
        st = list(m.tree.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                top += [y for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k] for y in ast.walk(d)]
                continue
            top.append(n)
            st += list(ast.iter_child_nodes(n))
        out.append((m.short, m.rel, top, Names(m, top), None))
    for f in p.all_func_nodes():
        if f.parent is not None:
            continue
        nodes = [y for s in f.node.body for y in ast.walk(s)] if not isinstance(f.node, ast.Lambda) else list(ast.walk(f.node.body))
        N = Names(f.mod, nodes)
        N.alias = {**Names(f.mod, f.mod.tree.body).alias, **N.alias}
        out.append((f.qual, f.mod.rel, nodes, N, f))
    return out


def draws_global(e, N):
    """the expression takes a draw from the global generator"""
    return any((N.canon(x) or "").startswith("numpy.random.") and (N.canon(x) or "").split(".")[2] not in OTHER_GENERATORS for x in ast.walk(e) if isinstance(x, ast.Attribute)) \
        or any(isinstance(x, ast.Attribute) and x.attr == "_rand" for x in ast.walk(e))


def sources(p, rep, U):
    n = 0
    for label, rel, nodes, N, f in U:
        skip, parent = set(), {}
        for x in nodes:
            for c in ast.iter_child_nodes(x):
                parent[id(c)] = x
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "issubclass"):
                skip |= {id(y) for y in ast.walk(x)}
            if isinstance(x, ast.AnnAssign):
                skip |= {id(y) for y in ast.walk(x.annotation)}
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs:
                    if a.annotation is not None:
                        skip |= {id(y) for y in ast.walk(a.annotation)}
        for x in nodes:
            if id(x) in skip or not isinstance(x, (ast.Name, ast.Attribute)) or isinstance(getattr(x, "ctx", None), ast.Store):
                continue
            par = parent.get(id(x))
            if isinstance(par, ast.Attribute) and par.value is x:
                continue                     # only maximal names
            d = N.canon(x)
            if d is None:
                continue
            w = f"{rel}:{x.lineno} {label}"
            parts = d.split(".")
            if d.startswith("numpy.random."):
                n += 1
                if parts[2] in OTHER_GENERATORS:
                    call = par if isinstance(par, ast.Call) and par.func is x else None
                    ok = call is not None and any(draws_global(a, N) for a in call.args + [k.value for k in call.keywords])
                    rep.check(ok, "source", f"numpy.random.{parts[2]}", w, f"{label} draws from a generator of its own ({ast.unparse(par or x)[:60]})")
                else:
                    rep.ok("source", w)
            elif parts[0] in ("random", "secrets") and len(parts) > 1 and d not in SETTERS:
                rep.bad("source", d, w, f"{label} draws from {d}, which NumPy's seed does not determine")
            elif d in ("os.urandom", "os.getrandom", "uuid.uuid1", "uuid.uuid4"):
                rep.bad("source", d, w, f"{label} draws from {d}, which NumPy's seed does not determine")
            elif d.startswith("scipy.stats.qmc.") and isinstance(par, ast.Call) and par.func is x:
                kw = {k.arg: k.value for k in par.keywords}
                seed = kw.get("seed", kw.get("rng"))
                noscr = isinstance(kw.get("scramble"), ast.Constant) and kw["scramble"].value is False
                rep.check(noscr or seed is not None and draws_global(seed, N), "source", f"scipy.stats.qmc.{parts[-1]}", w,
                          f"{label}: the quasi-random sequence is randomised by a generator of its own")
        for x in nodes:
            if isinstance(x, ast.Call):
                d = N.canon(x.func) or ""
                own = isinstance(x.func, ast.Name) and x.func.id in {g.name for g in p.all_func_nodes()}
                if own or d.startswith("pyvbmc."):
                    continue
                for k in x.keywords:
                    if k.arg in SEED_WORDS and isinstance(k.value, ast.Constant) and k.value.value is not None and not isinstance(k.value.value, bool):
                        rep.bad("source", f"constant {k.arg}", f"{rel}:{x.lineno} {label}", f"{label} draws with the fixed {k.arg} {k.value.value!r}")
    return n


def retained(p, rep, U):
    """draws happen at run time and are not kept in state that outlives the run"""
    n = 0
    for label, rel, nodes, N, f in U:
        hot = [x for x in nodes if isinstance(x, ast.Attribute) and (N.canon(x) or "").startswith("numpy.random.")
               and (N.canon(x) or "").split(".")[2] not in OTHER_GENERATORS | {"get_state", "set_state", "seed"}]
        hot += [x for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and (N.canon(x) or "").startswith("numpy.random.") and x.id in N.mod.imports]
        if not hot:
            continue
        if f is None:
            called = {id(c.func) for c in nodes if isinstance(c, ast.Call)}
            for x in hot:
                if id(x) in called:
                    rep.bad("retained", "draw at import", f"{rel}:{x.lineno} {label}", "a random number is drawn when the module is imported, before the generator can be seeded")
            continue
        n += 1
        for dname in f.decorators:
            last = (dname or "").split(".")[-1]
            rep.check(last not in ("lru_cache", "cache", "cached_property", "memoize"), "retained", f"memoised {f.name}", f.where,
                      f"{label} draws random numbers but its results are memoised across runs")
        glob = {g for x in nodes if isinstance(x, ast.Global) for g in x.names}
        local = {t.id for x in nodes for t in ast.walk(x) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} - glob | set(f.params)
        defaults = {a.arg for a, d in list(zip(reversed(f.node.args.posonlyargs + f.node.args.args), reversed(f.node.args.defaults))) +
                    [(a, d) for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None]
                    if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and getattr(d.func, "id", "") in ("dict", "list", "set")}
        tainted = set()

        def isdraw(e):
            return any(id(y) in ids or isinstance(y, ast.Name) and y.id in tainted for y in ast.walk(e))
        ids = {id(x) for x in hot}
        for _ in range(5):
            k = len(tainted)
            for x in nodes:
                if isinstance(x, (ast.Assign, ast.AugAssign)) and isdraw(x.value):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if isinstance(t, ast.Name):
                            tainted.add(t.id)
            if len(tainted) == k:
                break

        def outlives(t):
            b = t
            deep = False
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Attribute) and b.attr == "__class__":
                    return True
                b, deep = b.value, True
            if isinstance(b, ast.Call) and getattr(b.func, "id", "") == "type":
                return True
            if not isinstance(b, ast.Name):
                return False
            if b.id in glob:
                return True
            return deep and (b.id in defaults or b.id not in local and (b.id in f.mod.consts or b.id in f.mod.funcs or b.id in f.mod.classes or
                                                                        b.id == "cls" or b.id in f.mod.imports and f.mod.imports[b.id].startswith("pyvbmc.")))
        for x in nodes:
            w = f"{rel}:{getattr(x, 'lineno', 0)} {label}"
            if isinstance(x, (ast.Assign, ast.AugAssign)) and isdraw(x.value):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if outlives(t):
                        rep.bad("retained", f"draw kept in {ast.unparse(t)[:40]}", w, f"{label} keeps a random draw in {ast.unparse(t)[:40]}, which outlives the run")
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "update", "setdefault", "extend", "insert") and any(map(isdraw, x.args)):
                b = x.func.value
                probe = ast.Subscript(value=b, slice=ast.Constant(0), ctx=ast.Store())
                if outlives(probe):
                    rep.bad("retained", f"draw kept in {ast.unparse(b)[:40]}", w, f"{label} keeps a random draw in {ast.unparse(b)[:40]}, which outlives the run")
    rep.at_least("drawing functions", n, 6)


def setters(p, rep, U):
    """the generator's state is only set by the loader, when asked"""
    sites = []
    for label, rel, nodes, N, f in U:
        for x in nodes:
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(getattr(x, "ctx", None), ast.Load) and (N.canon(x) or "") in SETTERS:
                sites.append((label, f, N.canon(x), f"{rel}:{x.lineno} {label}"))
            if isinstance(x, ast.Attribute) and x.attr in ("_rand", "_bit_generator") and isinstance(x.ctx, ast.Store):
                rep.bad("state", "generator replaced", f"{rel}:{x.lineno} {label}", f"{label} replaces the global generator")
    load = p.functions.get("VBMC.load")
    for label, f, d, w in sites:
        rep.count("state setters", 1)
        inside = f is not None and load is not None and (f.qual == "VBMC.load" or only_called_from(p, f, {"VBMC.load"}))
        if not rep.check(inside and d.endswith("set_state"), "state", f"{d} outside the loader" if not inside else d, w,
                         f"{label} sets the state of the global generator ({d})"):
            continue
    if load is None:
        rep.notes.append("no loader")
        return
    I = Interp(p, Config(path_sensitive=True, cap=4000, track_call=lambda s: s.endswith("random.set_state") or s == "np.random.set_state"))
    n = 0
    flag = sym("set_random_state")
    for s, c, v in I.run(load):
        for e in s.events:
            if e.kind == "call" and e.sig[0].endswith("set_state"):
                n += 1
                rep.check(e.facts.get(flag) is True or any(k is flag and val for k, val in s.facts.items()), "state", "restored on request", e.where,
                          "loading a run sets the global generator's state without being asked to")
                a = e.sig[1][0] if e.sig[1] else None
                if a is not None:
                    rep.check(contains(a, lambda t: t.k == "const" and t.a and cval(t) == "random_state") or contains(a, lambda t: t.k == "attr" and t.a[1] == "random_state"),
                              "state", "restored from the record", e.where, f"the restored state is not the recorded one: {show(a, 3)}")
    rep.used(I)
    rep.count("restoring paths", n)


def is_nan(e, N):
    d = N.canon(e) or ""
    if d in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and e.args and isinstance(e.args[0], ast.Constant) and str(e.args[0].value).lower() == "nan"


def seed_entry(p, e, nodes, N, f, d=0):
    """value expression of entry 'seed' of a dict expression: (found expr or None, resolved)"""
    if d > 5 or e is None:
        return None, False
    if isinstance(e, ast.Dict):
        out, res = None, True
        for k, v in zip(e.keys, e.values):
            if k is None:
                x, r = seed_entry(p, v, nodes, N, f, d + 1)
                out, res = (x or out), res and r
            elif isinstance(k, ast.Constant) and k.value == "seed":
                out = v
            elif not isinstance(k, ast.Constant):
                res = False
        return out, res
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
        if nm in ("dict", "CMAOptions", "copy", "deepcopy"):
            out, res = None, True
            base = e.args[0] if e.args else e.func.value if nm == "copy" and isinstance(e.func, ast.Attribute) and not e.args else None
            if base is not None:
                out, res = seed_entry(p, base, nodes, N, f, d + 1)
            for k in e.keywords:
                if k.arg == "seed":
                    out = k.value
                elif k.arg is None:
                    res = False
            return out, res
        for g in p.all_func_nodes():
            if g.name == nm and not isinstance(g.node, ast.Lambda):
                gn = [y for s in g.node.body for y in ast.walk(s)]
                outs = [seed_entry(p, r.value, gn, Names(g.mod, gn), g, d + 1) for r in gn if isinstance(r, ast.Return) and r.value is not None]
                if outs:
                    bad = [o for o in outs if o[0] is None or not is_nan(o[0], Names(g.mod, gn))]
                    return (bad or outs)[0][0], all(o[1] for o in outs)
        return None, False
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        l, lr = seed_entry(p, e.left, nodes, N, f, d + 1)
        r, rr = seed_entry(p, e.right, nodes, N, f, d + 1)
        return r or l, lr and rr
    if isinstance(e, ast.Name):
        out, res, k = None, True, 0
        for x in nodes:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                o, r = seed_entry(p, x.value, nodes, N, f, d + 1)
                out, res, k = o or out, res and r, k + 1
            elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id for t in x.targets):
                t = next(t for t in x.targets if isinstance(t, ast.Subscript))
                if isinstance(t.slice, ast.Constant):
                    if t.slice.value == "seed":
                        out = x.value
                else:
                    res = False
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == e.id:
                if x.func.attr == "update":
                    o, r = (seed_entry(p, x.args[0], nodes, N, f, d + 1) if x.args else (None, True))
                    for kk in x.keywords:
                        if kk.arg == "seed":
                            o = kk.value
                    out, res = o or out, res and r
                elif x.func.attr in ("pop", "clear", "popitem"):
                    if x.func.attr != "pop" or x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == "seed":
                        return None, True
        if k == 0:
            c = f.mod.consts.get(e.id) if f is not None else None
            return seed_entry(p, c, nodes, N, f, d + 1)
        return out, res
    return None, False


def evolution(p, rep, U):
    n = 0
    pos = {"fmin": 3, "fmin2": 3, "CMAEvolutionStrategy": 2}
    for label, rel, nodes, N, f in U:
        for x in nodes:
            if not isinstance(x, ast.Call):
                continue
            d = N.canon(x.func) or ""
            if not d.startswith("cma.") or d.split(".")[-1] not in pos and not d.split(".")[-1].startswith("fmin"):
                continue
            n += 1
            k = pos.get(d.split(".")[-1], 3)
            opt = next((q.value for q in x.keywords if q.arg in ("options", "inopts")), x.args[k] if len(x.args) > k else None)
            w = f"{rel}:{x.lineno} {label}"
            if opt is None:
                rep.bad("evolution seed", "seed option", w, f"{d} without options reseeds the global generator from the clock")
                continue
            v, res = seed_entry(p, opt, nodes, N, f)
            if v is None and not res:
                rep.notes.append(f"options of {d} at {w} not resolved")
                continue
            rep.check(v is not None and is_nan(v, N), "evolution seed", "seed option", w,
                      f"{d} is called {'without a seed entry' if v is None else 'with seed ' + ast.unparse(v)}, so it reseeds the global generator")
    rep.count("evolution-strategy calls", n)


# ------------------------------------------------------------------ unordered traversals
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
NEUTRAL = {"sorted", "len", "min", "max", "any", "all", "sum", "set", "frozenset", "bool", "isinstance", "repr", "str"}


class Sets:
    def __init__(self, p, U):
        self.fields = set()
        for _ in range(3):
            k = len(self.fields)
            for label, rel, nodes, N, f in U:
                loc = self.locals(nodes)
                for x in nodes:
                    if isinstance(x, ast.Assign) and self.is_set(x.value, loc):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute):
                                self.fields.add(t.attr)
                            elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                                self.fields.add(t.slice.value)
            if len(self.fields) == k:
                break

    def locals(self, nodes):
        out = {}
        for _ in range(2):
            for x in nodes:
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    nm = x.targets[0].id
                    out.setdefault(nm, [True, 0])
            for nm in list(out):
                vals = [x.value for x in nodes if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets)]
                out[nm] = bool(vals) and all(self.is_set(v, {k: v2 for k, v2 in out.items() if v2 is True}) for v in vals)
        return {k: True for k, v in out.items() if v is True}

    def is_set(self, e, loc, d=0):
        if d > 6:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return bool(loc.get(e.id))
        if isinstance(e, ast.Attribute):
            return e.attr in self.fields
        if isinstance(e, ast.Subscript):
            return isinstance(e.slice, ast.Constant) and e.slice.value in self.fields
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, loc, d + 1) or self.is_set(e.orelse, loc, d + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return any(self.is_set(s, loc, d + 1) or isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "keys" and not s.args for s in (e.left, e.right))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in SETOPS or e.func.attr in ("copy", "deepcopy"):
                    b = e.args[0] if e.func.attr in ("deepcopy",) or dotted(e.func) == "copy.copy" else e.func.value
                    return b is not None and self.is_set(b, loc, d + 1)
                if e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant):
                    return e.args[0].value in self.fields
        return False


def order_free(body, var):
    """executing the loop body once per element gives the same result in any order"""
    def stmt(s):
        if isinstance(s, (ast.Pass, ast.Raise, ast.Continue, ast.Assert)):
            return True
        if isinstance(s, ast.If):
            return all(map(stmt, s.body + s.orelse))
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return True
            return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("add", "discard", "debug", "info", "warning", "pop", "__delitem__", "__setitem__")
        if isinstance(s, ast.Assign):
            return all(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and t.slice.id == var for t in s.targets)
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.Return):
            return isinstance(s.value, ast.Constant)
        return False
    return all(map(stmt, body))


def order(p, rep, U):
    S = Sets(p, U)
    n = 0
    for label, rel, nodes, N, f in U:
        if f is not None and f.name in ("__str__", "__repr__", "_short_repr", "full_repr"):
            continue                        # printed representations decide nothing
        loc = S.locals(nodes)
        parent = {}
        for x in nodes:
            for c in ast.iter_child_nodes(x):
                parent[id(c)] = x
        for x in nodes:
            w = f"{rel}:{getattr(x, 'lineno', 0)} {label}"
            if isinstance(x, ast.For) and S.is_set(x.iter, loc):
                n += 1
                var = x.target.id if isinstance(x.target, ast.Name) else None
                rep.check(order_free(x.body, var), "order", f"loop over {ast.unparse(x.iter)[:40]}", w, f"{label} loops over a set; the order of its effects is arbitrary")
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(S.is_set(g.iter, loc) for g in x.generators):
                n += 1
                par = parent.get(id(x))
                ok = isinstance(x, ast.DictComp) or isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in NEUTRAL
                rep.check(ok, "order", "comprehension over a set", w, f"{label} builds a sequence in the arbitrary order of a set")
            elif isinstance(x, ast.Call):
                nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
                d = N.canon(x.func) or nm
                if nm == "pop" and isinstance(x.func, ast.Attribute) and not x.args and S.is_set(x.func.value, loc):
                    rep.bad("order", "pop from a set", w, f"{label} takes an arbitrary element of a set")
                elif any(S.is_set(a, loc) for a in x.args):
                    n += 1
                    par = parent.get(id(x))
                    inner = isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in NEUTRAL
                    rep.check(inner or not (nm in ("list", "tuple", "enumerate", "iter", "next", "zip", "map", "join", "reversed") or
                                            d.startswith("numpy.") and nm in ("array", "asarray", "fromiter")), "order", f"{nm} of a set", w,
                              f"{label} puts a set's elements into an arbitrary order")
                elif d in ("os.listdir", "os.scandir", "glob.glob", "glob.iglob") or nm in ("iterdir",):
                    par = parent.get(id(x))
                    rep.check(isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in NEUTRAL, "order", d, w,
                              f"{label} depends on the file system's listing order")
                elif isinstance(x.func, ast.Name) and x.func.id in ("id", "hash") and f is not None and f.name != "__hash__":
                    par = parent.get(id(x))
                    okm = isinstance(par, ast.Subscript) or isinstance(par, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in par.ops) or \
                        isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr in ("get", "add", "setdefault", "discard", "pop")
                    n += 1
                    rep.check(okm, "identity", f"{x.func.id}()", w, f"{label} computes with an object's {x.func.id}")
    rep.at_least("set and identity uses", n, 2)


# ------------------------------------------------------------------ clock
class Clock:
    """fields, entries and functions whose value depends on a clock reading"""

    def __init__(self, p, U):
        self.p, self.fields, self.funcs, self.params = p, set(), set(), {}
        self.elems = {}
        byname = {}
        for g in p.all_func_nodes():
            byname.setdefault(g.name, []).append(g)
        self.U = U
        for _ in range(8):
            k = len(self.fields), len(self.funcs), sum(map(len, self.params.values()))
            for label, rel, nodes, N, f in U:
                loc = self.locals(nodes, N, f)
                for x in nodes:
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None and self.tainted(x.value, loc, N, f):
                        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                            self.put(t)
                    elif isinstance(x, ast.Call):
                        nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                        gs = byname.get(nm, ())
                        if len(gs) == 1 and gs[0].cls is not None and gs[0].cls.name == "Timer":
                            continue
                        if len(gs) == 1:
                            off = 1 if gs[0].cls is not None and not gs[0].is_static else 0
                            for a, q in list(zip(gs[0].posonly[off:], x.args)) + [(k.arg, k.value) for k in x.keywords]:
                                if self.tainted(q, loc, N, f):
                                    self.params.setdefault(gs[0].qual, set()).add(a)
                    elif isinstance(x, ast.Return) and x.value is not None and f is not None and self.tainted(x.value, loc, N, f):
                        if isinstance(x.value, ast.Tuple):
                            self.elems.setdefault(f.name, set()).update(i for i, y in enumerate(x.value.elts) if self.tainted(y, loc, N, f))
                        else:
                            self.funcs.add(f.name)
            if k == (len(self.fields), len(self.funcs), sum(map(len, self.params.values()))):
                break

    def put(self, t):
        while isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                self.fields.add(("key", t.slice.value))
                return
            t = t.value
        if isinstance(t, ast.Attribute):
            self.fields.add(("attr", t.attr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for y in t.elts:
                self.put(y)

    def locals(self, nodes, N, f):
        loc = set(self.params.get(f.qual, ())) if f is not None else set()
        for _ in range(6):
            k = len(loc)
            for x in nodes:
                if isinstance(x, ast.Assign) and self.tainted(x.value, loc, N, f):
                    for t in x.targets:
                        # element-wise unpacking of a call: only literal tuples are separated
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                            for a, b in zip(t.elts, x.value.elts):
                                if isinstance(a, ast.Name) and self.tainted(b, loc, N, f):
                                    loc.add(a.id)
                        elif isinstance(t, ast.Name):
                            loc.add(t.id)
                elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                    nm = x.value.func.attr if isinstance(x.value.func, ast.Attribute) else getattr(x.value.func, "id", "")
                    for t in x.targets:
                        if nm in self.elems and isinstance(t, (ast.Tuple, ast.List)):
                            loc |= {a.id for i, a in enumerate(t.elts) if i in self.elems[nm] and isinstance(a, ast.Name)}
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and self.tainted(x.value, loc, N, f):
                    loc.add(x.target.id)
                elif isinstance(x, ast.NamedExpr) and self.tainted(x.value, loc, N, f):
                    loc.add(x.target.id)
            if len(loc) == k:
                break
        return loc

    def tainted(self, e, loc, N, f):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(x, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in x.ops):
                st.append(x.left)
                if isinstance(x.ops[0], (ast.Is, ast.IsNot)):
                    st.pop()                        # "is None" tells whether a timer ran, not what it read
                continue
            if isinstance(x, ast.Name):
                if x.id in loc:
                    return True
                if (N.canon(x) or "") in CLOCKS:
                    return True
                continue
            if isinstance(x, ast.Attribute):
                if (N.canon(x) or "") in CLOCKS:
                    return True
                if ("attr", x.attr) in self.fields:
                    return True
                st.append(x.value)
                continue
            if isinstance(x, ast.Subscript):
                if isinstance(x.slice, ast.Constant) and ("key", x.slice.value) in self.fields:
                    return True
                if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str) and isinstance(x.value, ast.Name):
                    continue
            if isinstance(x, ast.Call):
                nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
                if (N.canon(x.func) or "") in CLOCKS:
                    return True
                if nm in ("len", "isinstance", "type", "isnan", "isfinite", "isinf", "hasattr", "copy", "deepcopy", "warning", "info", "debug", "size", "shape"):
                    if nm in ("copy", "deepcopy"):
                        st += x.args
                    continue
                if nm == "get" and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
                    if ("key", x.args[0].value) in self.fields:
                        return True
                    continue
                if nm in self.funcs and (nm not in self.ambiguous() or isinstance(x.func, ast.Name)):
                    return True
                d = dotted(x.func) or ""
                ext = d.split(".")[0] in ("np", "sp", "math", "scipy", "numpy") or nm in ("float", "int", "max", "min", "sum", "abs", "round", "str", "bool", "list", "tuple")
                if ext:
                    st += x.args + [k.value for k in x.keywords]
                elif isinstance(x.func, ast.Attribute):
                    st.append(x.func.value)         # method of a tainted value
                continue
            if isinstance(x, ast.Attribute) and x.attr in ("shape", "size", "ndim", "dtype"):
                continue
            st += list(ast.iter_child_nodes(x))
        return False

    def ambiguous(self):
        return {"get", "__call__", "add", "pop", "copy"}


def clock(p, rep, U):
    C = Clock(p, U)
    rep.notes.append(f"clock-dependent fields: {sorted(x[1] for x in C.fields)}; functions: {sorted(C.funcs)}")
    n = 0
    for label, rel, nodes, N, f in U:
        loc = C.locals(nodes, N, f)
        for x in nodes:
            t = x.test if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) else None
            conds = [t] if t is not None else [i for g in x.generators for i in g.ifs] if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) else []
            for t in conds:
                n += 1
                if rep.check(not C.tainted(t, loc, N, f), "clock", f"condition {ast.unparse(t)[:50]}", f"{rel}:{x.lineno} {label}",
                             f"{label} branches on a clock reading: {ast.unparse(t)[:70]}"):
                    pass
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                d = N.canon(x.func) or ""
                if d in ("numpy.where", "numpy.minimum", "numpy.maximum", "numpy.clip", "numpy.argsort", "numpy.argmin", "numpy.argmax") or d.startswith("numpy.random."):
                    n += 1
                    rep.check(not any(C.tainted(a, loc, N, f) for a in x.args), "clock", f"{nm} of a clock reading", f"{rel}:{x.lineno} {label}",
                              f"{label} computes a choice from a clock reading: {ast.unparse(x)[:70]}")
    rep.at_least("conditions", n, 300)
    rep.at_least("clock-dependent fields", len(C.fields) + len(C.funcs), 2)


def run(p, rep):
    rep.rule("source", "every random draw uses the module functions of numpy.random (or a third-party default that does)")
    rep.rule("state", "the generator's state is set only by the loader, from the record, when asked to")
    rep.rule("retained", "draws happen at run time and are not kept in module, class or memoised state across runs")
    rep.rule("evolution seed", "the evolution strategy is told not to seed the global generator")
    rep.rule("order", "no result depends on the traversal order of a set or directory")
    rep.rule("identity", "object identities and hashes are used as lookup keys only")
    rep.rule("clock", "no condition or choice depends on a clock reading")
    U = units(p)
    rep.functions |= set(p.functions)
    rep.at_least("numpy.random uses", sources(p, rep, U), 15)
    retained(p, rep, U)
    setters(p, rep, U)
    evolution(p, rep, U)
    order(p, rep, U)
    clock(p, rep, U)
