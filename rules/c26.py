"""C26: internal calls match the interfaces of what they call."""
import ast
import builtins
from engine.containers import Containers
from engine.absint import Config, Interp, State
from engine.program import Cls, Func, dotted
from engine.terms import *
from engine.lib import *

EXPLANATION = (
    "Whole-program resolution of calls (names, imports, methods through a unification-based object typing) with a binding check of every "
    "resolved call against its callees' signatures; comparison of every tuple unpacking and constant result index with the callee's return "
    "arities (specialised to the constant arguments of the call); existence of every attribute consulted on the library's own classes; "
    "gated reaching definitions of every local variable read; scoping of every name.")

# conditions that cannot hold together, with the reason (truth of parameters of the function)
REFUSED = [
    ({"compute_grad": True, "separate_K": True}, "gradients are refused together with per-component results (NotImplementedError in the log-joint)"),
]
# values a state entry can take
DOMAIN = {"uncertainty_handling_level": (0, 1, 2)}
NONNEGATIVE = {"stop_sampling"}
# methods of strings, arrays and SciPy distributions, which share variables with objects of the library
EXTERNAL = set(dir(str)) | set(dir(dict)) | set(dir(list)) | {"ndim", "shape", "size", "reshape", "ravel", "item", "copy", "T", "dtype", "rvs", "logpdf",
                                                              "pdf", "dist", "support", "mean", "cov", "flatten", "astype", "squeeze", "all", "any", "sum"}
DICTLIKE = set(dir(dict)) | set(dir(object)) | {"__name__", "__dict__", "__class__", "_abc_impl"}


def run(p, rep):
    rep.rule("bound", "no path reads a local variable before it is set")
    rep.rule("binds", "every call of an in-repo function binds to its signature")
    rep.rule("arity", "every tuple result is unpacked into as many values as the callee returns")
    rep.rule("one-arity", "a function returns one number of values on all paths (unless a parameter selects it)")
    rep.rule("scalar-use", "a result that is always a tuple is not used as a number or array")
    rep.rule("attribute", "every attribute consulted on an object of the library's classes is provided by its class")
    rep.rule("scope", "every name used is defined in an enclosing scope")
    rep.rule("override", "a method that overrides another accepts every call the overridden one accepts")
    rep.rule("import", "every name imported from a module of the library exists there")
    unbound(p, rep)
    C = Containers(p)
    binds(p, rep, C)
    arity(p, rep, C)
    attributes(p, rep, C)
    scope(p, rep)
    overrides(p, rep)
    imports(p, rep)


# ---------------------------------------------------------------- locals
def unbound(p, rep):
    n = 0
    for f, I, log in sweep(p):
        rep.used(I)
        n += 1
        helper = f.qual not in BASELINE and any(c != f.qual for c in callers_of(p, f))
        again = None
        for name, fr, e, v, gates in I.unbound:
            live = [(sp, g) for sp, g in gates if not infeasible(I, sp, g)]
            if live:
                if again is None:
                    again = path_by_path(p, f)
                if again is not True and (name, e.lineno, e.col_offset) not in again:
                    continue        # merging the paths lost what rules it out
            # a helper is also analysed inside its callers, where its parameters are known
            if not live or helper and live[0][0]:
                continue
            keys = sorted({f"{'' if b else 'not '}{cval(k)}" for sp, _ in live for t, b in atoms(sp) for k in [t.a[1] if t.k == "idx" else None] if k is not None and is_const(k) and isinstance(cval(k), str)})
            rep.bad("bound", f"local unset when {', '.join(keys)}" if keys else f"variable {name}", f"{fr.mod.rel}:{e.lineno} ({fr.func.qual})", f"{name} is read on a path that never sets it")
        rep.ok("bound", f.qual, f.where)
    rep.at_least("functions", n, 200)


def path_by_path(p, f):
    """the reads of an unset local that remain when every path of the function is followed separately (True: too many paths to tell)"""
    I = Interp(p, Config(path_sensitive=True, collect=False, cap=3000))
    I.run(f)
    if I.stats["paths"] >= 3000:
        return True
    return {(name, e.lineno, e.col_offset) for name, fr, e, v, gates in I.unbound if any(not infeasible(I, sp, g) for sp, g in gates)}


def atoms(spine):
    out = []
    todo = list(spine)
    while todo:
        t, b = todo.pop()
        if t.k == "not":
            todo.append((t.a[0], not b))
        elif t.k == "and" and b or t.k == "or" and not b:
            todo += [(x, b) for x in t.a]
        else:
            out.append((t, b))
    return out


def infeasible(I, spine, facts):
    """the conditions under which the local is unset contradict each other or the known value domains"""
    st = State()
    st.facts = {}
    todo = list(facts.items()) + list(spine)
    for rnd in range(4):
        for t, b in todo:
            z = State()
            z.facts = {k: v for k, v in st.facts.items() if k is not t}
            u = rewrite(t, lambda q: I.simp(q, z) if q.k == "ite" else q)
            # unit propagation
            work = [(u, b)]
            while work:
                x, c = work.pop()
                x = I.simp(x, z)
                if x.k in ("not", "inv"):
                    work.append((x.a[0], not c))
                    continue
                if x.k in ("and", "or"):
                    if c == (x.k == "and"):
                        work += [(y, c) for y in x.a]
                        continue
                    open_ = [y for y in x.a if known(I, y, z) is not c and known(I, y, z) is not (not c)]
                    if any(known(I, y, z) is c for y in x.a):
                        continue
                    if not open_:
                        return True
                    if len(open_) == 1:
                        work.append((open_[0], c))
                    continue
                cur = known(I, x, z)
                if cur is not None and cur is not c:
                    return True
                if is_const(x):
                    if bool(cval(x)) != c:
                        return True
                    continue
                y = I.assume(st, x, c)
                if y is None:
                    return True
                st = y
                st.facts[x] = c
                if x.k == "cmp" and x.a[0] == "eq" and c:
                    for p_, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                        if is_const(q) and not is_const(p_) and isinstance(cval(q), (int, float, bool, str)):
                            if known(I, p_, st) is (not bool(cval(q))):
                                return True
                            st.facts[p_] = bool(cval(q))
    fs = st.facts
    for t in list(fs):
        if t.k == "idx" or t.k == "cmp":
            for z in subterms(t):
                if z.k == "idx" and is_const(z.a[1]):
                    if cval(z.a[1]) in DOMAIN and all(fs.get(mk("cmp", "eq", z, const(c)), fs.get(mk("cmp", "eq", const(c), z))) is False for c in DOMAIN[cval(z.a[1])]):
                        return True
                    if cval(z.a[1]) in NONNEGATIVE and any(fs.get(mk("cmp", "lt", const(c), z)) is False and fs.get(mk("cmp", "eq", z, const(c)), fs.get(mk("cmp", "eq", const(c), z))) is False for c in (0, 0.0)):
                        return True
        # the variable of a counting loop is not negative
        if t.k == "cmp" and t.a[0] == "lt" and fs[t] is True:
            for z in subterms(t.a[1]):
                if z.k == "call" and z.a[0] == "elem" or z.k == "elem":
                    c = next((cval(q) for q in (t.a[1].a if t.a[1].k == "add" else ()) if is_const(q)), 0)
                    for d in (c, int(c) if isinstance(c, float) else c):
                        if fs.get(mk("cmp", "lt", const(d), t.a[2])) is False:
                            return True
    for conds, _ in REFUSED:
        if all(fs.get(sym(k)) is b for k, b in conds.items()):
            return True
    return False


def known(I, t, st):
    if is_const(t):
        return bool(cval(t))
    return I.truth(t, st)


# ---------------------------------------------------------------- call resolution
def all_funcs(p):
    """every function with its nested functions and lambdas, as the containers analysis names them"""
    return list(p.all_func_nodes())


def walk_own(f):
    for s in f.node.body if not isinstance(f.node, ast.Lambda) else [f.node.body]:
        yield from ast.walk(s)


def locals_of(node):
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split(".")[0])
    return out


def own_class(C, nd):
    """classes whose instances the node may be"""
    r = C.find(nd)
    return [c for c, n in C.inst.items() if C.find(n) is r and c in C.p.classes]


def family(p, roots):
    out = set(roots)
    for c in roots:
        out |= {x.name for x in p.subclasses(c)} | {x.name for x in p.mro(c)}
    return out


def base_classes(C, e, f):
    """classes (upper bound) of the object an expression denotes; None if unknown"""
    if isinstance(e, ast.Name) and e.id == "self" and f.cls is not None:
        return {f.cls.name} | {x.name for x in C.p.subclasses(f.cls.name)} | {x.name for x in C.p.mro(f.cls.name)}
    r = own_class(C, C.ev(e, f))
    return family(C.p, r) if r else None


def targets(C, e, f, loc):
    """(candidate callees, skip-first?) or None when unknown"""
    p, fn = C.p, e.func
    if isinstance(fn, ast.Name):
        if fn.id in loc:
            nodes = [x for x in C.find(C.ev(fn, f)).fn]
            out = []
            for g in nodes:
                out.append(as_callee(p, g))
            return [x for x in out if x] if nodes and all(out) else None
        r = p.resolve_global(f.mod, fn.id)
        if r and r[0] in ("func", "class"):
            x = as_callee(p, r[1])
            return [x] if x else None
        return None
    if not isinstance(fn, ast.Attribute):
        return None
    d = dotted(fn)
    head = d.split(".")[0] if d else None
    if d and head not in loc:
        r = None
        if head in f.mod.imports:
            r = p.resolve_dotted(f.mod.imports[head] + d[len(head):])
        elif head in f.mod.classes and d.count(".") == 1:
            g = p.method(head, fn.attr)
            return [(g, g.is_class)] if g else None
        if r:
            if r[0] in ("func", "class"):
                x = as_callee(p, r[1])
                return [x] if x else None
            if "." in d:      # Class.method through an imported class
                h, t = d.rsplit(".", 1)
                r2 = p.resolve_global(f.mod, h) if "." not in h else None
                if r2 and r2[0] == "class":
                    g = p.method(r2[1].name, t)
                    return [(g, g.is_class)] if g else None
            return None
        if f.mod.imports.get(head):
            return None
    v = fn.value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
        for c in p.mro(f.cls.name)[1:]:
            if fn.attr in c.methods:
                g = c.methods[fn.attr]
                return [(g, not g.is_static)]
        return None
    if d and head in loc and False:
        return None
    cl = base_classes(C, v, f)
    if not cl:
        return None
    out = []
    for c in sorted(cl):
        g = p.classes[c].methods.get(fn.attr) if c in p.classes else None
        if g is not None:
            out.append((g, not g.is_static))
    if any(fn.attr in C.find(C.inst[c]).attrs and C.find(C.find(C.inst[c]).attrs[fn.attr]).fn for c in C.inst if c in cl):
        return None     # also stored as a value
    return out or None


def as_callee(p, g):
    if isinstance(g, Cls):
        m = p.method(g.name, "__init__")
        return (m, True) if m else None
    if not isinstance(g, Func):
        return None
    return (g, g.cls is not None and not g.is_static and g.parent is None and g.is_class)


def signature(g, skip):
    a = g.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd] if nd else list(pos)
    if skip and pos:
        req = [x for x in req if x != pos[0]]
        pos = pos[1:]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, [x.arg for x in a.kwonlyargs], kwreq, a.vararg is not None, a.kwarg is not None, {x.arg for x in a.posonlyargs}


def mismatch(e, g, skip):
    """why the call does not bind, or None"""
    pos, req, kwo, kwreq, va, ka, po = signature(g, skip)
    if g.is_property or any(d and d.split(".")[-1] not in ("staticmethod", "classmethod", "abstractmethod") for d in g.decorators):
        return None
    star = any(isinstance(a, ast.Starred) for a in e.args)
    dstar = any(k.arg is None for k in e.keywords)
    npos = len(e.args)
    kws = [k.arg for k in e.keywords if k.arg is not None]
    if not star and npos > len(pos) and not va:
        return f"takes {len(pos)} positional arguments, {npos} given"
    if not ka:
        for k in kws:
            if k not in pos and k not in kwo or k in po:
                return f"has no parameter {k}"
    if not star:
        for k in kws:
            if k in pos[:npos]:
                return f"gets {k} twice"
    if not star and not dstar:
        given = set(pos[:npos]) | set(kws)
        miss = [x for x in req + kwreq if x not in given]
        if miss:
            return f"lacks {', '.join(miss)}"
    return None


def binds(p, rep, C):
    n = 0
    for f in all_funcs(p):
        loc = locals_of(f.node)
        for e in walk_own(f):
            if not isinstance(e, ast.Call):
                continue
            ts = targets(C, e, f, loc)
            if not ts:
                continue
            n += 1
            why = [mismatch(e, g, s) for g, s in ts]
            w = f"{f.mod.rel}:{e.lineno} ({f.qual})"
            rep.check(not all(why), "binds", f"call of {ts[0][0].qual}", w, f"{ts[0][0].qual} {why[0]}")
    rep.at_least("resolved calls", n, 300)


# ---------------------------------------------------------------- results
ANY = "?"


def leaves(t, d=0):
    if d > 30:
        return [t]
    if t.k == "ite":
        return leaves(t.a[1], d + 1) + leaves(t.a[2], d + 1)
    if t.k == "phi":
        return [y for x in t.a[2] for y in leaves(x, d + 1)]
    return [t]


class Arities:
    def __init__(self, p):
        self.p, self.memo = p, {}

    def of(self, f, args=(), depth=0):
        """set of arities: int for a tuple, 's' for a single value, '?' unknown; empty if it never returns"""
        key = (f.qual, tuple(sorted(args.items(), key=lambda x: x[0])) if args else ())
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {ANY}
        out = set()
        if f.is_abstract or is_generator(f.node):
            out = {ANY}
        else:
            I = Interp(self.p, Config())
            try:
                for s, c, v in I.run(f, dict(args) if args else None):
                    if c == "return":
                        for x in leaves(I.simp(v, s)):
                            out |= self.shape(x, I, depth)
            except RecursionError:
                out = {ANY}
        self.memo[key] = out
        return out

    def shape(self, x, I, depth):
        if x.k == "tup":
            return {ANY} if any(y.k == "star" for y in x.a) else {len(x.a)}
        if x.k in ("bin", "add", "mul", "neg", "cmp", "fstr", "dct", "lst", "and", "not") or is_const(x) or x.k == "attr" and False:
            return {"s"}
        if x.k == "call":
            g = self.p.functions.get(x.a[0])
            if g is not None and depth < 4:
                return self.of(g, consts(self.p, g, x.a[1], x.a[2]), depth + 1)
            if x.a[0] in self.p.classes or x.a[0] in ("np.zeros", "np.sum", "np.array", "np.exp", "np.log", "np.ones", "np.concatenate", "copy.deepcopy"):
                return {"s"} if x.a[0] != "copy.deepcopy" else {ANY}
        return {ANY}


def is_generator(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            st += list(ast.iter_child_nodes(n))
    return False


def consts(p, g, args, kws):
    """constant arguments (and defaults) of a call as {parameter: term}"""
    out = {}
    b = bind(p, g.qual, args, kws)
    star = any(a.k == "star" for a in args) or any(k == "**" for k, _ in kws)
    for n in g.params:
        t = b.get(n)
        if t is None and not star:
            t = default_of(p, g.qual, n)
        if t is not None and is_const(t):
            out[n] = t
    return out


def arity(p, rep, C):
    A = Arities(p)
    n = m = 0
    for f, I, log in sweep(p):
        for e in log:
            if e.kind == "unpack":
                v, k = e.sig
                for c in leaves(v):
                    if c.k != "call" or c.a[0] not in p.functions:
                        continue
                    g = p.functions[c.a[0]]
                    got = A.of(g, consts(p, g, c.a[1], c.a[2]))
                    n += 1
                    star = isinstance(k, tuple)
                    ok = not got or ANY in got or k in got or not isinstance(k, int)
                    rep.check(ok, "arity", f"result of {g.qual}", e.where, f"{g.qual} returns {show_set(got)} values, {k} are unpacked")
            elif e.kind == "getidx":
                b, k = e.sig
                if b.k == "call" and b.a[0] in p.functions and is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                    g = p.functions[b.a[0]]
                    got = A.of(g, consts(p, g, b.a[1], b.a[2]))
                    ints = {x for x in got if isinstance(x, int)}
                    n += 1
                    i = cval(k)
                    ok = not got or not ints or ints != got or any(-x <= i < x for x in ints)
                    rep.check(ok, "arity", f"result of {g.qual}", e.where, f"{g.qual} returns {show_set(got)} values, number {i} is taken")
            elif e.kind == "op":
                for x in e.sig[1:]:
                    if isinstance(x, T) and x.k == "call" and x.a[0] in p.functions and e.sig[0] not in ("Is", "IsNot", "In", "NotIn", "Eq", "NotEq"):
                        g = p.functions[x.a[0]]
                        got = A.of(g, consts(p, g, x.a[1], x.a[2]))
                        m += 1
                        rep.check(not got or not all(isinstance(y, int) for y in got), "scalar-use", f"result of {g.qual}", e.where,
                                  f"{g.qual} returns a tuple, which is used as an operand of {e.sig[0]}")
    rep.at_least("unpacked results", n, 60)
    rep.at_least("operand results", m, 20)
    # one arity per function
    k = 0
    for f in p.functions.values():
        got = A.of(f)
        ints = {x for x in got if isinstance(x, int)}
        if not ints:
            continue
        k += 1
        if got == ints and len(ints) == 1:
            rep.ok("one-arity", f.qual, f.where)
            continue
        if ANY in got and len(got) == 2 and len(ints) == 1:
            rep.ok("one-arity", f.qual, f.where)
            continue
        bad = selected_by_params(p, f)
        rep.check(bad is None, "one-arity", f"result of {f.name}", f.where, f"{f.qual} returns {show_set(got)} values depending on {bad}")
    rep.at_least("tuple functions", k, 30)


def show_set(s):
    return "/".join(str(x) for x in sorted(s, key=str))


def selected_by_params(p, f):
    """None if the number of returned values is decided by facts about the parameters alone, else the deciding condition"""
    I = Interp(p, Config())
    outs = []
    for s, c, v in I.run(f):
        if c != "return":
            continue
        v = I.simp(v, s)
        bad = gate(v)
        if bad is not None:
            return bad
        outs.append(({kind(x) for x in leaves(v)}, {t: b for t, b in s.facts.items() if param_flag(t)}))
    for i, (a, fa) in enumerate(outs):
        for b, fb in outs[:i]:
            if a != b and len(a | b) > 1 and not any(fb.get(t, x) != x for t, x in fa.items()):
                return "computed values"
    return None


def gate(v):
    if v.k != "ite":
        return None
    a, b = set(map(kind, leaves(v.a[1]))), set(map(kind, leaves(v.a[2])))
    if a != b and len(a | b) > 1:
        if not param_flag(v.a[0]):
            return show(v.a[0], 4)
    return gate(v.a[1]) or gate(v.a[2])


def kind(x):
    return len(x.a) if x.k == "tup" else "s" if x.k != "call" else ANY


def param_flag(t, d=0):
    """condition over parameters themselves (not over computed values)"""
    if d > 10:
        return False
    if is_const(t):
        return True
    if t.k == "sym":
        return True
    if t.k in ("and", "or", "not", "inv", "cmp"):
        return all(param_flag(x, d + 1) for x in t.a if isinstance(x, T))
    if t.k == "ite":
        return all(param_flag(x, d + 1) for x in t.a)
    return False


# ---------------------------------------------------------------- attributes
def attributes(p, rep, C):
    n = 0
    provided = {}

    def provides(c, a):
        if c not in provided:
            s, ext = set(), False
            for x in p.mro(c):
                s |= set(x.methods) | set(x.attrs)
                for st in x.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        s.add(st.target.id)
                for b in x.bases:
                    last = (b or "?").split(".")[-1]
                    if last not in p.classes and last not in ("ABC", "object", "dict", "MutableMapping", "Mapping"):
                        ext = True
                    if last in ("dict", "MutableMapping", "Mapping"):
                        s |= set(dir(dict))
                if any(m in x.methods for m in ("__getattr__", "__getattribute__")):
                    ext = True
            provided[c] = (s, ext)
        s, ext = provided[c]
        return ext or a in s
    written = {}
    for f in all_funcs(p):
        for base, name, node in attr_writes(f):
            if isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For)) or isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                cl = base_classes(C, base, f)
                for c in cl or ():
                    if direct(node, base, name) or isinstance(node, ast.Call):
                        written.setdefault(c, set()).add(name)
        if f.cls is not None:
            for x in walk_own(f):      # attributes stored through __dict__ / setattr with unknown names
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant):
                    ks = C.strs(x.args[1], f)
                    if ks:
                        for c in base_classes(C, x.args[0], f) or ():
                            written.setdefault(c, set()).update(ks)
                    elif not any("__dict__" in (dotted(y) or "") for y in walk_own(f)):     # (copying an object's own attributes adds none)
                        rep.notes.append(f"dynamic attribute names in {f.qual}")
                        for c in base_classes(C, x.args[0], f) or {f.cls.name}:
                            written.setdefault(c, set()).add("*")
    for f in all_funcs(p):
        loc = locals_of(f.node)
        guarded = hasattr_guards(f)
        for e in walk_own(f):
            if not isinstance(e, ast.Attribute) or not isinstance(e.ctx, ast.Load):
                continue
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
                continue
            d = dotted(e)
            if d and d.split(".")[0] not in loc and not (d.startswith("self.")):
                continue
            cl = base_classes(C, e.value, f)
            if not cl or e.attr in DICTLIKE and e.attr.startswith("__"):
                continue
            cls = sorted(c for c in cl if c in p.classes)
            if not cls:
                continue
            if e.attr in EXTERNAL and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
                continue
            n += 1
            ok = any(provides(c, e.attr) or e.attr in written.get(c, ()) or "*" in written.get(c, ()) for c in cls)
            if not ok and (ast.dump(e.value), e.attr) in guarded:
                continue
            rep.check(ok, "attribute", f"attribute {e.attr}", f"{f.mod.rel}:{e.lineno} ({f.qual})", f"no class among {', '.join(cls[:4])} provides {e.attr}")
    rep.at_least("attribute reads", n, 1500)


def direct(node, base, name):
    """the statement assigns the attribute itself (not an element of it)"""
    tg = node.targets if isinstance(node, ast.Assign) else [node.target]
    st = list(tg)
    while st:
        t = st.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            st += t.elts
        elif isinstance(t, ast.Starred):
            st.append(t.value)
        elif isinstance(t, ast.Attribute) and t.attr == name and not isinstance(node, ast.AugAssign):
            return True
    return False


def hasattr_guards(f):
    out = set()
    for n in walk_own(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            out.add((ast.dump(n.args[0]), n.args[1].value))
    return out


# ---------------------------------------------------------------- names
def scope(p, rep):
    n = 0
    B = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__"}
    for m in p.modules.values():
        glob = set(m.imports) | set(m.funcs) | set(m.classes)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                glob |= set(x.names)
        st = list(m.tree.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                glob.add(x.name)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                glob.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                glob.add(x.name)
            st += list(ast.iter_child_nodes(x))
        if any(s not in p.modules for s in m.star_imports):
            rep.notes.append(f"{m.rel}: star import from outside the library, names not decided")
            continue
        for s in m.star_imports:
            q = p.modules[s]
            glob |= set(q.imports) | set(q.funcs) | set(q.classes) | set(q.consts)

        def visit(node, env, where):
            nonlocal n
            if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                for d in list(node.args.defaults) + [x for x in node.args.kw_defaults if x is not None]:
                    visit(d, env, where)
                for d in getattr(node, "decorator_list", []):
                    visit(d, env, where)
                loc = function_locals(node)
                w = where if isinstance(node, ast.Lambda) else node.name
                for x in node.body if isinstance(node.body, list) else [node.body]:
                    visit(x, env | loc, w)
                return
            if isinstance(node, ast.ClassDef):
                loc = set()
                for x in node.body:
                    for y in ([x] if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else ast.walk(x)):
                        if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                            loc.add(y.name)
                        elif isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            loc.add(y.id)
                for x in node.bases + node.decorator_list:
                    visit(x, env, where)
                for x in node.body:
                    visit(x, env if isinstance(x, ast.FunctionDef) else env | loc, node.name)
                return
            if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                env = env | {x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)} | \
                    {x.target.id for x in ast.walk(node) if isinstance(x, ast.NamedExpr)}
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                n += 1
                if node.id not in env:
                    rep.bad("scope", f"name {node.id}", f"{m.rel}:{node.lineno} ({where})", f"{node.id} is not defined")
            for x in ast.iter_child_nodes(node):
                if isinstance(node, (ast.arg, ast.AnnAssign)) and x is getattr(node, "annotation", None):
                    continue
                visit(x, env, where)
        for x in m.tree.body:
            visit(x, glob | B, "module")
    rep.ok("scope", f"{n} names")
    rep.at_least("names", n, 5000)


def function_locals(node):
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        st += list(ast.iter_child_nodes(n))
    return out


# ---------------------------------------------------------------- overrides, imports
def overrides(p, rep):
    n = 0
    for c in p.classes.values():
        for name, g in c.methods.items():
            if name == "__init__":
                continue
            for b in p.mro(c.name)[1:]:
                h = b.methods.get(name)
                if h is None:
                    continue
                if all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in g.node.body):
                    break
                n += 1
                p1, r1, k1, q1, va, ka, _ = signature(g, not g.is_static)
                p0, r0, k0, q0, vb, kb, _ = signature(h, not h.is_static)
                why = None
                if len(p1) < len(p0) and not va:
                    why = f"takes {len(p1)} instead of {len(p0)} arguments"
                elif len(r1) > len(r0) and not vb:
                    why = f"requires {len(r1)} instead of {len(r0)} arguments"
                elif [x for x in q1 if x not in q0 and x not in p0]:
                    why = "requires further keywords"
                elif not ka and not va and not name.startswith("__") and [x for x in p0 if x not in p1 + k1]:
                    why = f"does not accept the keyword {[x for x in p0 if x not in p1 + k1][0]}"
                rep.check(why is None, "override", f"{name} of {c.name}", g.where, f"{c.name}.{name} overrides {b.name}.{name} but {why}")
                break
    rep.at_least("overrides", n, 20)


def imports(p, rep):
    n = 0
    for m in p.modules.values():
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rsplit(".", 1)[0]
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = x.module or ""
                if x.level:
                    q = pkg.split(".")
                    q = q[: len(q) - (x.level - 1)]
                    base = ".".join(q + ([x.module] if x.module else []))
                if base.split(".")[0] != "pyvbmc":
                    continue
                for a in x.names:
                    if a.name == "*":
                        continue
                    n += 1
                    t = p.modules.get(base)
                    ok = base + "." + a.name in p.modules or t is not None and (
                        a.name in t.funcs or a.name in t.classes or a.name in t.consts or a.name in t.imports or p.resolve_global(t, a.name) is not None)
                    rep.check(ok or ".testing" in base, "import", f"{base}.{a.name}", f"{m.rel}:{x.lineno}", f"{a.name} does not exist in {base}")
    rep.at_least("imported names", n, 50)
