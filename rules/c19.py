"""C19: all priors honour one interface and validate before use."""
import ast
import math

from engine.absint import Config, Interp, State
from engine.lib import *
from engine.program import AnalysisBroken
from engine.terms import *

EXPLANATION = (
    "Interface conformance over the class hierarchy (signatures, shadowed operations, dimension set on every construction path); "
    "abstract evaluation of the extracted construction guards over a finite set of orderings of the parameters (every pair swapped or equal, every parameter infinite or not a number, "
    "in either coordinate): every bad ordering must reach only refusing paths, every good one an accepting path that stores the given values; "
    "region analysis of each log-density: for every interval between consecutive bounds the value last stored under the masks that hold there, which must be minus infinity exactly outside the support; "
    "shape of every returned sample and log-density; delegation of the composite priors marginal by marginal.")

INF = float("inf")
NAN = float("nan")
BOX = {"UniformBox": ("a", "b"), "Trapezoidal": ("a", "u", "v", "b"), "SplineTrapezoidal": ("a", "u", "v", "b"), "SmoothBox": ("a", "b")}
SCALE = {"SmoothBox": ("scale",)}
BOUNDED = ("UniformBox", "Trapezoidal", "SplineTrapezoidal")
# operations of the user-function wrapper are the user's own callables (documented, and fixed by the existing tests)
OWN_CALLABLES = {("UserFunction", "log_pdf"), ("UserFunction", "sample"), ("UserFunction", "pdf")}
SHAPEF = {"np.asarray", "np.array", "np.copy", "np.ravel", "np.squeeze", "np.reshape", "np.atleast_1d", "np.atleast_2d", "np.astype", "float", "copy.copy", "copy.deepcopy", "np.transpose", "np.stack", "np.concatenate", "np.vstack"}


class Unk(Exception):
    pass


# -- evaluation of guards on 2-vectors -----------------------------------------------------------------------------------------
def bro(f, *xs):
    n = max((len(x) for x in xs if isinstance(x, tuple)), default=0)
    if not n:
        return f(*xs)
    ys = [x if isinstance(x, tuple) else (x,) * n for x in xs]
    if any(len(y) != n for y in ys):
        raise Unk
    return tuple(f(*z) for z in zip(*ys))


def fl(x):
    return tuple(z for y in x for z in (fl(y) if isinstance(y, (tuple, list)) else [y])) if isinstance(x, (tuple, list)) else (x,)


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b}


def gev(t, leaf):
    """value of a guard term: floats, booleans or tuples (one entry per coordinate)"""
    v = leaf(t)
    if v is not None:
        return v
    k, a = t.k, t.a
    if k == "const":
        return cval(t)
    if k == "mod":
        n = a[0] if isinstance(a[0], str) else str(a[0])
        if n in ("numpy.inf", "np.inf", "math.inf"):
            return INF
        if n in ("numpy.nan", "math.nan"):
            return NAN
        raise Unk
    if k == "cmp" and a[0] in CMP:
        return bro(CMP[a[0]], gev(a[1], leaf), gev(a[2], leaf))
    if k in ("not", "inv"):
        return bro(lambda x: not x, gev(a[0], leaf))
    if k in ("and", "or"):
        xs = [gev(x, leaf) for x in a]
        if any(isinstance(x, tuple) for x in xs):
            raise Unk
        return (all if k == "and" else any)(xs)
    if k == "bin":
        x, y = gev(a[1], leaf), gev(a[2], leaf)
        op = a[0]
        if op in ("&", "|"):
            return bro((lambda p, q: bool(p) and bool(q)) if op == "&" else (lambda p, q: bool(p) or bool(q)), x, y)
        if op == "/":
            return bro(lambda p, q: p / q if q else (NAN if not p else math.copysign(INF, p)), x, y)
        if op == "**":
            return bro(lambda p, q: p ** q, x, y)
        if op in ("+", "-", "*"):
            return bro({"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q}[op], x, y)
        raise Unk
    if k == "add":
        return bro(lambda *z: sum(z), *[gev(x, leaf) for x in a])
    if k == "mul":
        return bro(lambda *z: math.prod(z), *[gev(x, leaf) for x in a])
    if k == "neg":
        return bro(lambda z: -z, gev(a[0], leaf))
    if k in ("lst", "tup"):
        return tuple(gev(x, leaf) for x in a)
    if k == "ite":
        c = gev(a[0], leaf)
        if isinstance(c, tuple):
            raise Unk
        return gev(a[1] if c else a[2], leaf)
    if k == "call":
        f, args = a[0], a[1]
        if f in ("np.any", "np.all", "any", "all", "np.sometrue", "np.alltrue") and args and not dict(a[2]):
            return (any if "any" in f or "some" in f else all)(bool(z) for z in fl(gev(args[0], leaf)))
        if f in ("np.isfinite", "math.isfinite"):
            return nest(lambda z: math.isfinite(z), gev(args[0], leaf))
        if f in ("np.isnan", "math.isnan"):
            return nest(lambda z: math.isnan(z), gev(args[0], leaf))
        if f in ("np.isinf", "math.isinf"):
            return nest(lambda z: math.isinf(z), gev(args[0], leaf))
        if f in ("np.diff",) and args and not dict(a[2]).get("axis"):
            raise Unk
        if f in ("np.min", "np.amin", "min", "np.max", "np.amax", "max") and len(args) == 1 and not dict(a[2]):
            z = fl(gev(args[0], leaf))
            if any(isinstance(q, float) and math.isnan(q) for q in z):
                return NAN
            return (min if "min" in f else max)(z)
        if f == "np.sum" and len(args) == 1 and not dict(a[2]):
            return sum(fl(gev(args[0], leaf)))
        if f in ("np.isscalar",):
            return False
        if f in ("np.logical_or", "np.logical_and"):
            return bro((lambda p, q: p or q) if f.endswith("or") else (lambda p, q: p and q), *[gev(x, leaf) for x in args])
        if f in ("np.less", "np.less_equal", "np.greater", "np.greater_equal", "np.subtract", "np.abs", "abs"):
            fn = {"np.less": lambda p, q: p < q, "np.less_equal": lambda p, q: p <= q, "np.greater": lambda p, q: p > q, "np.greater_equal": lambda p, q: p >= q, "np.subtract": lambda p, q: p - q}.get(f)
            xs = [gev(x, leaf) for x in args]
            return bro(fn, *xs) if fn else bro(abs, *xs)
        if f in SHAPEF and args:
            return gev(args[0], leaf)
    raise Unk


def nest(f, x):
    return tuple(nest(f, y) for y in x) if isinstance(x, tuple) else f(x)


def param_leaf(f, vals):
    """values of constructor parameters, directly or through tile_inputs"""
    def leaf(t):
        if t.k == "sym" and t.a[0] in vals:
            return vals[t.a[0]]
        if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0].endswith("tile_inputs") and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            i = cval(t.a[1])
            xs = t.a[0].a[1]
            if 0 <= i < len(xs) and not any(x.k == "star" for x in xs):
                return gev(xs[i], leaf)
            raise Unk
        if t.k == "attr" and t.a[1] in ("size", "ndim") or t.k == "call" and t.a[0] in ("len", "np.size", "np.shape", "np.ndim"):
            raise Unk
        return None
    return leaf


def cases(names, scales):
    good = [(0.0, 1.0, 2.0, 3.0), (-3.0, -2.5, -2.25, -2.0), (-1e6, 1e-9, 2e-9, 1e9), (0.0, 1e-12, 2e-12, 3e-12)]
    n = len(names)
    yield "ordered", True, {}
    for g in good[1:]:
        yield "ordered", True, dict(zip(names, [(g[i], i - 2.0) for i in range(n)]))
    for s in scales:
        yield "small positive scale", True, {s: (1e-9, 1e9)}
    base = [(float(i), float(i)) for i in range(n)]
    for co in (0, 1):
        for i in range(n - 1):
            for j in range(i + 1, n):
                v = [list(x) for x in base]
                v[i][co], v[j][co] = v[j][co], v[i][co]
                yield f"{names[i]} above {names[j]}", False, dict(zip(names, map(tuple, v)))
            v = [list(x) for x in base]
            v[i][co] = v[i + 1][co]
            yield f"{names[i]} equal to {names[i + 1]}", False, dict(zip(names, map(tuple, v)))
        for i in range(n):
            for w, bad in ((NAN, "not a number"), (INF, "infinite"), (-INF, "infinite")):
                v = [list(x) for x in base]
                v[i][co] = w
                yield f"{names[i]} {bad}", False, dict(zip(names, map(tuple, v)))
        for s in scales:
            for w, bad in ((0.0, "zero"), (-1.0, "negative"), (NAN, "not a number"), (INF, "infinite"), (-INF, "infinite")):
                yield f"{s} {bad}", False, {s: (w, 1.0) if co == 0 else (1.0, w)}


def construction(p, rep):
    n = 0
    for cls in sorted(BOX):
        f = p.func(cls + ".__init__")
        names, scales = BOX[cls], SCALE.get(cls, ())
        I = Interp(p, Config(path_sensitive=True, track_store=lambda *a: True))
        outs = I.run(f)
        rep.used(I)
        base = {x: (float(i), float(i)) for i, x in enumerate(names)}
        base.update({s: (1.0, 1.0) for s in scales})
        for what, good, over in cases(names, scales):
            vals = dict(base, **over)
            leaf = param_leaf(f, vals)
            acc = ref = unk = 0
            accst = None
            for st, ctl, v in outs:
                feas = True
                for t, b in st.facts.items():
                    try:
                        r = gev(t, leaf)
                        if isinstance(r, tuple):
                            raise Unk
                        if bool(r) != b:
                            feas = False
                            break
                    except Unk:
                        if feas is True:
                            feas = None
                if feas is False:
                    continue
                if feas is None:
                    unk += 1
                elif ctl == "raise":
                    ref += 1
                else:
                    acc += 1
                    accst = st
            c = f"{cls}: {what}"
            if good:
                if acc + ref == 0:
                    rep.notes.append(c + ": guards not evaluated")
                    continue
                n += 1
                rep.check(ref == 0, "construction", c, f.where, f"valid parameters of {cls} are refused")
            else:
                if not acc and not ref:
                    rep.notes.append(c + ": guards not evaluated")
                    continue
                n += 1
                rep.check(acc == 0, "construction", c, f.where, f"{cls} accepts parameters that are not a density ({what})")
            if accst is not None and good:
                me = sym(f.posonly[0])
                for x in names + scales:
                    s = accst.store.get(attr(me, x))
                    if s is None:
                        rep.notes.append(f"{cls}: {x} not stored directly")
                        continue
                    try:
                        r = gev(s, leaf)
                    except Unk:
                        rep.notes.append(f"{cls}: stored {x} not evaluated")
                        continue
                    n += 1
                    rep.check(fl(r) == fl(vals[x]), "construction", f"{cls}: stored {x}", f.where, f"the parameter {x} of {cls} is not stored as given")
        # dimension on every accepting path
        me = sym(f.posonly[0])
        for st, ctl, v in outs:
            if ctl != "raise":
                n += 1
                rep.check(attr(me, "D") in st.store, "interface", f"{cls}: dimension", f.where, "the dimension is not set on some construction path")
    rep.at_least("construction obligations", n, 60)


# -- regions of the log-density ------------------------------------------------------------------------------------------------
def region_leaf(me, x, pos, xv):
    def leaf(t):
        if t is x:
            return xv
        if t.k == "attr" and t.a[0] is me and t.a[1] in pos:
            return pos[t.a[1]]
        if t.k == "idx":
            # one coordinate: x[:, d], self.a[d], a masked selection of either
            b = t.a[0]
            while b.k == "idx" or b.k == "attr" and b.a[1] == "T":
                b = b.a[0]
            if b is x or b.k == "attr" and b.a[0] is me and b.a[1] in pos:
                return leaf(b)
        if t.k == "call" and t.a[0] in ("np.any", "np.all") and t.a[1] and dict(t.a[2]).get("axis") is not None:
            r = gev(t.a[1][0], leaf)
            return bool(r)
        return None
    return leaf


def minus_inf(t):
    return t.k == "neg" and t.a[0].k == "mod" and str(t.a[0].a[0]).endswith("inf") or t.k == "mod" and str(t.a[0]).endswith("NINF") or is_const(t) and cval(t) == -INF \
        or t.k == "call" and t.a[0] == "float" and t.a[1] and is_const(t.a[1][0]) and "-inf" in str(cval(t.a[1][0])) \
        or t.k == "neg" and t.a[0].k == "call" and t.a[0].a[0] == "float" or t.k == "call" and t.a[0] in ("np.log", "math.log") and t.a[1] and is_const(t.a[1][0]) and cval(t.a[1][0]) == 0


CLAMP = {"np.maximum", "np.minimum", "np.clip", "np.where", "np.abs", "np.nan_to_num", "np.select", "np.piecewise", "max", "min", "np.heaviside"}


def rev(t, leaf, loops=()):
    """'out' (minus infinity), 'in' (anything else), None"""
    k, a = t.k, t.a
    if minus_inf(t):
        return "out"
    if k == "upd":
        key = a[1]
        ks = list(key.a) if key.k == "tup" else [key]
        hit = True
        for q in ks:
            if q.k in ("cmp", "bin", "not", "inv", "and", "or") or q.k == "call" and q.a[0] in ("np.any", "np.all", "np.logical_and", "np.logical_or"):
                try:
                    r = gev(q, leaf)
                except Unk:
                    return None
                hit = hit and bool(r if not isinstance(r, tuple) else all(r))
            elif q.k in ("elem", "slice", "const") or q.k == "idx" and contains(q, lambda y: y.k == "elem"):
                pass
            else:
                return None
        return rev(a[2], leaf, loops) if hit else rev(a[0], leaf, loops)
    if k == "loop":
        for lp, ini in loops:
            if lp == a[0][-1] if isinstance(a[0], tuple) else lp == a[0]:
                return rev(ini, leaf, loops)
        return loops[0][1] and rev(loops[0][1], leaf, loops[1:]) if loops else None
    if k == "phi":
        if isinstance(a[0], tuple) and a[0][:1] == ("loopexit",) and len(a[2]) == 2:
            return rev(a[2][1], leaf, ((a[0][1], a[2][0]),) + tuple(loops))
        rs = {rev(x, leaf, loops) for x in a[2]}
        return rs.pop() if len(rs) == 1 else None
    if k == "ite":
        try:
            c = gev(a[0], leaf)
        except Unk:
            x, y = rev(a[1], leaf, loops), rev(a[2], leaf, loops)
            return x if x == y else None
        return rev(a[1] if c else a[2], leaf, loops)
    if k == "call":
        f, args = a[0], a[1]
        if f in ("np.full_like", "np.full") and len(args) > 1:
            return rev(args[1], leaf, loops)
        if f in ("np.sum", "np.reshape", "np.ravel", "np.asarray", "np.array", "np.copy", "np.nansum", "sum") and args:
            return rev(args[0], leaf, loops)
        if f == "np.where" and len(args) == 3:
            try:
                c = gev(args[0], leaf)
            except Unk:
                return None
            return rev(args[1] if c else args[2], leaf, loops)
        if f in ("np.zeros", "np.zeros_like", "np.ones"):
            return "in"
        if f in CLAMP:
            return None
    if k == "add":
        rs = [rev(x, leaf, loops) for x in a]
        return "out" if "out" in rs else None if None in rs else "in"
    if k in ("mul", "bin", "neg", "idx", "call", "const", "attr", "sym"):
        if contains(t, lambda y: y.k == "call" and y.a[0] in CLAMP or y.k in ("loop", "phi", "havoc") or y.k == "mod" and "inf" in str(y.a[0])):
            return None
        return "in"
    return None


def regions(p, rep):
    n = 0
    for cls in sorted(BOX):
        f = p.func(cls + "._log_pdf")
        me, x = sym(f.posonly[0]), sym(f.posonly[1])
        names = BOX[cls]
        I = Interp(p, Config(track_store=lambda *a: True))
        outs = I.run(f)
        rep.used(I)
        # the zero-trip alternative of the loop over coordinates does not describe any point
        rets = [(st, v) for st, ctl, v in outs if ctl == "return"]
        looped = [(st, v) for st, v in rets if contains(v, lambda y: y.k == "loop")]
        ini = {}
        for st, v in looped or rets:
            base = next((w for _, w in rets if w is not v and not contains(w, lambda y: y.k == "loop")), None)
            pos = {q: float(i) for i, q in enumerate(names)}
            pos["scale"] = 1.0
            inner = base.a[1][0] if base is not None and base.k == "call" and base.a[0] in ("np.sum",) else base
            for i in range(len(names) + 1):
                xv = i - 0.5
                lo = names[i - 1] if i else None
                hi = names[i] if i < len(names) else None
                where = f"below {hi}" if lo is None else f"above {lo}" if hi is None else f"between {lo} and {hi}"
                leaf = region_leaf(me, x, pos, xv)
                r = rev(v, leaf, ((None, inner),) if inner is not None else ())
                c = f"{cls}: {where}"
                if r is None:
                    rep.notes.append(c + ": value not decided")
                    continue
                n += 1
                outside = cls in BOUNDED and (lo is None or hi is None)
                if outside:
                    rep.check(r == "out", "support", c, f.where, f"the log-density of {cls} outside its support ({where}) is not minus infinity")
                else:
                    rep.check(r == "in", "support", c, f.where, f"the log-density of {cls} inside its support ({where}) is minus infinity")
            for nm, xv, want in (("nan", None, None),):
                pass
        # values cannot inherit an integer type from the points
        for st, v in rets:
            for y in subterms(v):
                if y.k == "call" and y.a[0] in ("np.full_like", "np.zeros_like", "np.ones_like", "np.empty_like") and y.a[1] and y.a[1][0] is x:
                    n += 1
                    rep.check("dtype" in dict(y.a[2]) or len(y.a[1]) > 2, "support", f"{cls}: type of the values", f.where, "log-densities take the type of the points: for integer points they are truncated")
    rep.at_least("regions", n, 12)
    # reported support
    m = 0
    for cls in sorted(BOX) + ["SciPy", "Product"]:
        f = next((g for g in p.all_func_nodes() if g.cls is not None and g.cls.name == cls and g.name == "_support"), None)
        if f is None:
            if cls in BOUNDED:
                rep.bad("support", f"{cls}: reported support", p.func(cls + ".__init__").where, "a bounded prior reports an infinite support")
            continue
        me = sym(f.posonly[0])
        I = Interp(p, Config())
        for st, ctl, v in I.run(f):
            if ctl != "return" or v.k not in ("tup", "lst") or len(v.a) != 2:
                rep.notes.append(f"{cls}: reported support not recognised")
                continue
            for w, nm, side in ((v.a[0], "a", "lower"), (v.a[1], "b", "upper")):
                while w.k == "call" and w.a[0] in SHAPEF and w.a[1]:
                    w = w.a[1][0]
                m += 1
                rep.check(w is attr(me, nm) or w.k != "attr" and not minus_inf(w), "support", f"{cls}: reported {side} bound", f.where, f"the {side} bound reported by {cls} is {show(w, 2)}")
        rep.used(I)
    f = p.func("SciPy.__init__")
    I = Interp(p, Config(path_sensitive=True, track_store=lambda *a: True))
    me = sym(f.posonly[0])
    for st, ctl, v in I.run(f):
        if ctl == "raise":
            continue
        for nm, i in (("a", 0), ("b", 1)):
            s = st.store.get(attr(me, nm))
            if s is None:
                m += 1
                rep.bad("support", f"SciPy: {nm}", f.where, "the support is not set on some construction path")
                continue
            raw = contains(s, lambda y: y.k == "attr" and y.a[1] == nm and y.a[0].k == "sym")
            sup = [y for y in subterms(s) if y.k == "call" and y.a[0].split(".")[-1] in ("support", "ppf")]
            m += 1
            if sup:
                want = any(y.k == "idx" and is_const(y.a[1]) and cval(y.a[1]) in (i, i - 2) for y in subterms(s)) or any(y.a[0].endswith("ppf") for y in sup)
                rep.check(want, "support", f"SciPy: {nm}", f.where, "the two ends of the support are exchanged")
            else:
                rep.check(not raw, "support", f"SciPy: {nm}", f.where, "the support of the standardized distribution is reported: location and scale are ignored")
        d = st.store.get(attr(me, "D"))
        m += 1
        rep.check(d is not None, "interface", "SciPy: dimension", f.where, "the dimension is not set on some construction path")
        rep.check(st.store.get(attr(me, "distribution")) is sym(f.posonly[1]), "delegation", "SciPy: wrapped distribution", f.where, "the wrapped distribution is not the one given")
    rep.used(I)
    rep.at_least("supports", m, 8)


# -- interface --------------------------------------------------------------------------------------------------------------------
def subclasses(p):
    return sorted(p.subclasses("Prior"), key=lambda c: c.name)


def sig(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd]
    return pos, req, a.vararg is not None, a.kwarg is not None


def interface(p, rep):
    n = 0
    cs = subclasses(p)
    rep.count("prior classes", len(cs))
    ops = {"_log_pdf": (["self", "x"],), "sample": (["self", "n"],), "_generic": (["cls", "D"],), "log_pdf": (["self", "x", "keepdims"],), "pdf": (["self", "x", "keepdims"],), "support": (["self"],), "_support": (["self"],)}
    base = p.classes["Prior"]
    for c in cs:
        fs = {}
        for k in p.mro(c.name):
            for g in p.all_func_nodes():
                if g.cls is k and g.name not in fs:
                    fs[g.name] = (g, k)
        for op, (want,) in ops.items():
            if (c.name, op) in OWN_CALLABLES or op not in fs:
                continue
            g, k = fs[op]
            if k is base:
                if op in ("_log_pdf", "sample", "__init__"):
                    n += 1
                    rep.bad("interface", f"{c.name}.{op}", c_where(c), f"{c.name} does not define {op}")
                continue
            pos, req, va, kw = sig(g)
            n += 1
            rep.check(len(req) <= len(want) and (len(pos) >= len(want) or va) and (kw or [x for x in pos[1:len(want)]] == want[1:] or va), "interface", f"{c.name}.{op}: arguments", g.where,
                      f"{op} of {c.name} takes ({', '.join(pos)}), other priors take ({', '.join(want)})")
        for op in ("_log_pdf", "sample"):
            if op in fs and fs[op][1] is not base:
                g = fs[op][0]
                body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if (c.name, op) in OWN_CALLABLES:
                    continue
                n += 1
                rep.check(any(isinstance(s, ast.Return) and s.value is not None for s in ast.walk(g.node)) and body, "interface", f"{c.name}.{op}: result", g.where, f"{op} of {c.name} returns nothing")
        # instance attributes that hide an operation of the interface
        for g in p.all_func_nodes():
            if g.cls is c:
                for b, a, node in attr_writes(g):
                    if a in ("log_pdf", "pdf", "support", "_log_pdf", "sample", "_support") and (c.name, a) not in OWN_CALLABLES and isinstance(b, ast.Name) and b.id == "self":
                        n += 1
                        rep.bad("interface", f"{c.name}.{a}: replaced per instance", f"{g.where}", f"{c.name} replaces {a} by something with its own conventions")
        # dimension
        if "__init__" in fs and c.name not in BOX and c.name != "SciPy":
            g = fs["__init__"][0]
            I = Interp(p, Config(path_sensitive=True, track_store=lambda *a: True))
            for st, ctl, v in I.run(g):
                if ctl != "raise":
                    n += 1
                    rep.check(attr(sym(g.posonly[0]), "D") in st.store, "interface", f"{c.name}: dimension", g.where, "the dimension is not set on some construction path")
            rep.used(I)
    rep.at_least("interface obligations", n, 20)


def c_where(c):
    return f"{c.mod.rel}:{c.node.lineno} {c.name}"


def two_d(v, n, D):
    """declared shape of a returned array, as (rows, columns) terms, when it is explicit"""
    d = 0
    while d < 60:
        d += 1
        k, a = v.k, v.a
        if k == "upd":
            v = a[0]
        elif k == "phi" and isinstance(a[0], tuple) and a[0][:1] == ("loopexit",):
            v = a[2][0]
        elif k == "ite":
            x, y = two_d(a[1], n, D), two_d(a[2], n, D)
            return x if x == y else None
        elif k == "call" and a[0] in ("np.zeros", "np.empty", "np.ones", "np.full"):
            s = a[1][0] if a[1] else dict(a[2]).get("shape")
            return tuple(s.a) if s is not None and s.k in ("tup", "lst") else (s,) if s is not None else None
        elif k == "call" and a[0].startswith("np.random.") and "size" in dict(a[2]):
            s = dict(a[2])["size"]
            return tuple(s.a) if s.k in ("tup", "lst") else (s,)
        elif k == "call" and a[0] == "np.reshape" and len(a[1]) > 1:
            s = a[1][1] if a[1][1].k in ("tup", "lst") else mk("tup", *a[1][1:])
            return tuple(s.a)
        elif k == "call" and a[0] == "np.sum":
            kw = dict(a[2])
            ax, kd = kw.get("axis", a[1][1] if len(a[1]) > 1 else None), kw.get("keepdims")
            s = two_d(a[1][0], n, D)
            if ax is None or not is_const(ax) or s is None:
                return None
            if kd is not None and is_const(kd) and cval(kd):
                return tuple(const(1) if i == cval(ax) % len(s) else x for i, x in enumerate(s))
            return tuple(x for i, x in enumerate(s) if i != cval(ax) % len(s))
        elif k == "call" and a[0] in ("np.full_like", "np.zeros_like", "np.ones_like"):
            return (n, D)
        elif k == "idx" and a[1].k == "tup" and len(a[1].a) == 2 and a[1].a[0].k == "slice" and (a[1].a[1] is NONE or a[1].a[1].k == "mod" and "newaxis" in str(a[1].a[1].a[0])):
            s = two_d(a[0], n, D)
            return s + (const(1),) if s is not None and len(s) == 1 else None
        elif k == "call" and a[0] in ("np.copy", "np.asarray", "np.array") and a[1]:
            v = a[1][0]
        else:
            return None
    return None


def shapes(p, rep):
    n = 0
    for c in subclasses(p):
        for op, want in (("_log_pdf", "(n, 1)"), ("sample", "(n, D)")):
            if (c.name, op) in OWN_CALLABLES:
                continue
            g = next((g for g in p.all_func_nodes() if g.cls is c and g.name == op), None)
            if g is None or len(g.posonly) < 2:
                continue
            me, x = sym(g.posonly[0]), sym(g.posonly[1])
            I = Interp(p, Config(track_store=lambda *a: True))
            for st, ctl, v in I.run(g):
                if ctl != "return" or v is None:
                    continue
                rows, cols = idx(attr(x, "shape"), const(0)), idx(attr(x, "shape"), const(1))
                s = two_d(v, rows, cols)
                if s is None and contains(v, lambda y: y.k == "loop"):
                    continue
                if s is None:
                    rep.notes.append(f"{c.name}.{op}: shape of the result not recognised")
                    continue
                if op == "_log_pdf":
                    ok = len(s) == 2 and (s[0] is rows or is_const(s[0]) and cval(s[0]) == -1 or s[0].k == "call" and s[0].a[0] == "len") and is_const(s[1]) and cval(s[1]) == 1
                    ok = ok or len(s) == 2 and is_const(s[1]) and cval(s[1]) == 1 and not is_const(s[0])
                else:
                    ok = len(s) == 2 and (s[0] is x or is_const(s[0]) and cval(s[0]) == -1) and (s[1] is attr(me, "D") or s[1].k in ("attr", "idx", "call") and not is_const(s[1]) or is_const(s[1]) and cval(s[1]) == -1) and s[1] is not x
                n += 1
                rep.check(ok, "shape", f"{c.name}.{op}: shape of the result", g.where, f"{op} of {c.name} returns an array of shape ({', '.join(show(z, 2) for z in s)}) instead of {want}")
            rep.used(I)
    rep.at_least("result shapes", n, 6)


# -- base class -------------------------------------------------------------------------------------------------------------------
def base_class(p, rep):
    n = 0
    f = p.func("Prior.log_pdf")
    me, x = sym(f.posonly[0]), sym(f.posonly[1])
    I = Interp(p, Config(path_sensitive=True))
    outs = I.run(f)
    rep.used(I)
    for ds, rows, cols, kd in [(d, r, c, k) for d in (1, 2, 3) for r in (1, 2, 4) for c in (1, 2, 3, 5) for k in (True, False)]:
        def leaf(t):
            if t is attr(me, "D"):
                return ds
            if t.k == "sym" and t.a[0] == "keepdims":
                return kd
            if t.k == "idx" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]) and contains(t.a[0], lambda y: y is x):
                b = t.a[0].a[0]
                tr = False
                while b is not x:
                    if b.k == "call" and b.a[0] in ("np.transpose",):
                        tr = not tr
                        b = b.a[1][0]
                    elif b.k == "attr" and b.a[1] == "T":
                        tr = not tr
                        b = b.a[0]
                    elif b.k == "call" and b.a[0] in ("np.atleast_2d", "np.asarray", "np.array") and b.a[1]:
                        b = b.a[1][0]
                    else:
                        raise Unk
                s = (cols, rows) if tr else (rows, cols)
                return s[cval(t.a[1])]
            return None
        acc = []
        ref = 0
        for st, ctl, v in outs:
            try:
                ok = all(bool(gev(t, leaf)) == b for t, b in st.facts.items())
            except Unk:
                continue
            if ok and ctl == "raise":
                ref += 1
            elif ok:
                acc.append(v)
        if not acc and not ref:
            rep.notes.append("base log-density: guards not evaluated")
            continue
        fits = cols == ds or ds == 1 and rows == 1
        c = f"base log-density: {'fitting' if fits else 'other'} dimension"
        n += 1
        rep.check(bool(acc) == fits and bool(ref) == (not fits), "dimension", c, f.where,
                  f"points of shape ({rows}, {cols}) are {'accepted' if acc else 'refused'} by a prior of dimension {ds}")
        for v in acc:
            inner = v
            flat = False
            while inner.k == "call" and inner.a[0] in ("np.ravel", "np.flatten", "np.squeeze", "np.reshape") and inner.a[1]:
                flat, inner = True, inner.a[1][0]
            if not (inner.k == "call" and inner.a[0].split(".")[-1] == "_log_pdf"):
                rep.notes.append("base log-density: value not recognised")
                continue
            n += 1
            rep.check(flat == (not kd), "dimension", f"base log-density: keepdims {kd}", f.where, f"with keepdims {kd} the result is {'flattened' if flat else 'not flattened'}")
            arg = inner.a[1][-1]
            if fits and cols != ds:
                tr = contains(arg, lambda y: y.k == "call" and y.a[0] in ("np.transpose", "np.reshape") or y.k == "attr" and y.a[1] == "T")
                rep.check(tr, "dimension", "base log-density: several points of a one-dimensional prior", f.where, "a vector of points of a one-dimensional prior is taken for one point")
    f = p.func("Prior.pdf")
    I = Interp(p, Config(path_sensitive=True))
    me = sym(f.posonly[0])
    for st, ctl, v in I.run(f):
        if ctl == "return" and v is not None:
            n += 1
            lp = [y for y in subterms(v) if y.k == "call" and y.a[0].split(".")[-1] in ("log_pdf", "_log_pdf")]
            rep.check(v.k == "call" and v.a[0] in ("np.exp",) and len(lp) == 1 or v.k != "call" and len(lp) >= 1 or v.k == "call" and v.a[0] not in ("np.exp",) and contains(v, lambda y: y.k == "call" and y.a[0] == "np.exp"), "dimension", "density from log-density", f.where, "the density is not the exponential of the log-density")
            if lp and lp[0].a[0].endswith(".log_pdf"):
                rep.check(contains(lp[0], lambda y: y.k == "sym" and y.a[0] == "keepdims") or contains(v, lambda y: y.k == "call" and y.a[0] in ("np.ravel",)) or any(t.k == "sym" and t.a[0] == "keepdims" for t in st.facts), "dimension", "density: keepdims", f.where, "the density ignores the requested shape")
    rep.used(I)
    f = p.func("Prior.support")
    I = Interp(p, Config(path_sensitive=True))
    for st, ctl, v in I.run(f):
        if ctl == "return" and v is not None and v.k in ("tup", "lst") and len(v.a) == 2:
            lo = contains(v.a[0], minus_inf)
            hi = contains(v.a[1], lambda y: y.k == "mod" and str(y.a[0]).endswith("inf")) and not contains(v.a[1], minus_inf)
            n += 1
            rep.check(lo and hi or not contains(v, lambda y: y.k == "mod" and "inf" in str(y.a[0])), "support", "default support", f.where, "the default support is not (minus infinity, infinity)")
    rep.used(I)
    rep.at_least("base obligations", n, 20)


# -- composite priors -----------------------------------------------------------------------------------------------------------
def same_slot(key, src):
    return key is src


def delegation(p, rep):
    n = 0
    f = p.func("Product._log_pdf")
    me, x = sym(f.posonly[0]), sym(f.posonly[1])
    for op, names in (("_log_pdf", ("_log_pdf", "log_pdf")), ("sample", ("sample",))):
        f = p.func("Product." + op)
        me, x = sym(f.posonly[0]), sym(f.posonly[1])
        I = Interp(p, Config(collect=True, track_call=lambda q: q.split(".")[-1] in names, track_store=lambda *a: True))
        outs = I.run(f)
        rep.used(I)
        for e in I.log:
            if e.kind != "call" or e.sig[0].split(".")[-1] not in names or not e.sig[1]:
                continue
            recv, arg = e.sig[1][0], (e.sig[1][1] if len(e.sig[1]) > 1 else None)
            if not contains(recv, lambda y: y.k == "attr" and y.a[1] == "marginals"):
                continue
            if e.sig[0].endswith(".log_pdf") and "keepdims" in dict(e.sig[2]):
                rep.bad("delegation", "Product: marginal log-density", e.where, "user-defined marginals do not take `keepdims`")
            if op == "_log_pdf" and arg is not None:
                col = None
                for y in subterms(arg):
                    if y.k == "idx" and y.a[0] is x and y.a[1].k == "tup" and len(y.a[1].a) == 2:
                        col = y.a[1].a[1]
                if col is None:
                    n += 1
                    rep.check(arg is not x, "delegation", "Product: point of a marginal", e.where, "a marginal is evaluated at the whole point")
                    continue
                if col.k in ("lst", "tup") and len(col.a) == 1:
                    col = col.a[0]
                if col.k == "slice":
                    col = col.a[0]
                if contains(col, lambda y: y.k == "call" and y.a[0].split(".")[-1] in ("index", "searchsorted")):
                    n += 1
                    rep.bad("delegation", "Product: coordinate of a marginal", e.where, "the coordinate of a marginal is found by searching for it, so a marginal that appears twice is used once")
                    continue
                m = slot(recv)
                if m is not None:
                    n += 1
                    rep.check(m is col or same_value(m, col), "delegation", "Product: coordinate of a marginal", e.where, f"marginal {show(m, 3)} is evaluated at coordinate {show(col, 3)}")
            if contains(recv, lambda y: y.k == "call" and y.a[0].split(".")[-1] in ("set", "frozenset", "fromkeys", "unique")):
                n += 1
                rep.bad("delegation", "Product: every marginal", e.where, "marginals that appear twice are used once")
            if op == "sample":
                n += 1
                rep.check(arg is x, "delegation", "Product: number of samples", e.where, "a marginal is asked for another number of samples")
        # stores: column of the same marginal
        for st, ctl, v in outs:
            for y in subterms(v) if v is not None else ():
                if y.k == "upd" and y.a[1].k == "tup" and len(y.a[1].a) == 2:
                    if contains(y.a[1].a[1], lambda z: z.k == "call" and z.a[0].split(".")[-1] in ("index", "searchsorted")):
                        n += 1
                        rep.bad("delegation", f"Product.{op}: column of a marginal", f.where, "the column of a marginal is found by searching for it, so a marginal that appears twice is used once")
                        continue
                    recvs = [z.a[1][0] for z in subterms(y.a[2]) if z.k == "call" and z.a[0].split(".")[-1] in names and z.a[1]]
                    for r in recvs:
                        m = slot(r)
                        if m is not None:
                            n += 1
                            rep.check(m is y.a[1].a[1] or same_value(m, y.a[1].a[1]), "delegation", f"Product.{op}: column of a marginal", f.where, "the result of a marginal is stored in the column of another one")
            if op == "_log_pdf" and ctl == "return" and v is not None and any(z.k == "call" and z.a[0].split(".")[-1] in names for z in subterms(v)):
                n += 1
                s = v
                while s.k == "call" and s.a[0] in ("np.reshape", "np.copy", "np.asarray"):
                    s = s.a[1][0]
                rep.check(not (s.k == "call" and s.a[0] in ("np.prod", "np.mean", "np.max", "np.min", "np.product")), "delegation", "Product: combination", f.where, "the log-densities of the marginals are not added")
    # construction of a product
    PRIORS = {"Prior"} | {c.name for c in p.subclasses("Prior")}
    f = p.func("Product.__init__")
    I = Interp(p, Config(path_sensitive=True, collect=False, track_store=lambda *a: True, track_call=lambda q: q.endswith("append")))
    stored = False
    for st, ctl, v in I.run(f):
        if ctl == "raise":
            continue
        for e in st.events:
            if e.kind == "call" and e.sig[0].endswith("append"):
                stored = True
                el = e.sig[1][-1]
                known = any(t.k == "cmp" and t.a[0] == "eq" and any(z.k == "attr" and z.a[1] == "D" for z in t.a[1:]) and any(is_const(z) and cval(z) == 1 for z in t.a[1:]) and b is True for t, b in st.facts.items())
                n += 1
                rep.check(known, "construction", "Product: dimension of the marginals", e.where, "a marginal of dimension other than one is accepted")
                typ = el.k == "call" and el.a[0].split(".")[-1] in PRIORS or any(b is True and t.k == "call" and t.a[0] == "isinstance" and t.a[1][0] is el and any(z.k == "cls" and z.a[0] in ("Prior",) for z in subterms(t.a[1][1])) for t, b in st.facts.items())
                if not typ and not any(b is False and t.k == "call" and t.a[0].endswith("is_valid_scipy_dist") for t, b in st.facts.items()):
                    rep.notes.append("Product: type test not recognised")
                    continue
                rep.check(typ, "construction", "Product: type of the marginals", e.where, "anything is accepted as a marginal")
    rep.used(I)
    if not stored:
        rep.notes.append("Product: construction of the marginals not recognised")
    # scipy wrapper
    for op, names in (("_log_pdf", ("logpdf",)), ("sample", ("rvs",))):
        f = p.func("SciPy." + op)
        me, x = sym(f.posonly[0]), sym(f.posonly[1])
        I = Interp(p, Config())
        for st, ctl, v in I.run(f):
            cs = [y for y in subterms(v) if y.k == "call" and y.a[1] and y.a[1][0] is attr(me, "distribution")] if v is not None else []
            for y in cs:
                n += 1
                rep.check(y.a[0].split(".")[-1] in names or op == "_log_pdf" and y.a[0].endswith("pdf") and v.k == "call" and v.a[0] == "np.log", "delegation", f"SciPy.{op}", f.where, f"{op} of a SciPy prior calls {y.a[0].split('.')[-1]} of the distribution")
                a1 = y.a[1][1] if len(y.a[1]) > 1 else dict(y.a[2]).get("size", dict(y.a[2]).get("x"))
                rep.check(a1 is not None and contains(a1, lambda z: z is x), "delegation", f"SciPy.{op}: argument", f.where, "the distribution is not given the caller's argument")
        rep.used(I)
    # user function: the callables given are the operations, and calling conventions are checked
    f = p.func("UserFunction.__init__")
    I = Interp(p, Config(path_sensitive=True, track_store=lambda *a: True))
    me = sym(f.posonly[0])
    for st, ctl, v in I.run(f):
        if ctl == "raise":
            continue
        for nm, par in (("log_pdf", f.posonly[1]), ("sample", f.posonly[2])):
            s = st.store.get(attr(me, nm))
            n += 1
            rep.check(s is sym(par) or s is NONE, "delegation", f"UserFunction: {nm}", f.where, f"{nm} of a user-defined prior is not the user's function")
            P = sym(par)
            # accepted only if it is None or callable
            ok = not holds_with(I, st.facts, {mk("cmp", "is", P, NONE): False, call("callable", [P]): False})
            n += 1
            rep.check(ok, "construction", f"UserFunction: {par} callable", f.where, f"something that cannot be called is accepted as {par}")
    rep.used(I)
    rep.at_least("delegations", n, 8)


def slot(recv):
    """index of the marginal a receiver stands for"""
    if recv.k == "idx":
        if recv.a[0].k == "attr" and recv.a[0].a[1] == "marginals":
            return recv.a[1]
        if is_const(recv.a[1]) and cval(recv.a[1]) == 1 and recv.a[0].k == "elem" and recv.a[0].a[0].k == "call" and recv.a[0].a[0].a[0] == "enumerate":
            return idx(recv.a[0], const(0))
    return None


def tiling(p, rep):
    """inputs of different shapes are refused"""
    f = p.func("tile_inputs.tile_inputs")
    I = Interp(p, Config(collect=True, track_raise=True))
    outs = I.run(f)
    rep.used(I)
    rs = [x for x in ast.walk(f.node) if isinstance(x, ast.Raise)]
    cmp_ = [x for x in ast.walk(f.node) if isinstance(x, ast.Compare) and "shape" in ast.unparse(x)]
    n = 1
    rep.check(bool(rs) and bool(cmp_) or any(isinstance(x, ast.Call) and "broadcast" in ast.unparse(x.func) for x in ast.walk(f.node)), "construction", "inputs of different shapes", f.where, "parameters of different shapes are not refused")
    rep.at_least("tiling", n, 1)


def run(p, rep):
    rep.rule("interface", "Every prior class defines the operations of the base class with the same arguments, sets its dimension on every construction path and does not replace an operation per instance (the user-function wrapper is the documented exception).")
    rep.rule("construction", "Every ordering of the parameters that is not a density reaches only refusing paths of the constructor; every other is accepted and stored as given.")
    rep.rule("support", "The log-density is minus infinity exactly outside the support, which is reported with the same bounds; values do not take the type of the points.")
    rep.rule("shape", "Log-densities have shape (n, 1) and samples (n, D).")
    rep.rule("dimension", "The base class refuses points of another dimension, accepts vectors of points of a one-dimensional prior and shapes the result as requested.")
    rep.rule("delegation", "Composite priors evaluate, sample and report each marginal at its own coordinate; wrappers call the wrapped operation.")
    interface(p, rep)
    construction(p, rep)
    regions(p, rep)
    shapes(p, rep)
    base_class(p, rep)
    delegation(p, rep)
    tiling(p, rep)
