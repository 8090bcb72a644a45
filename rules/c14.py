"""C14: no evaluated or proposed point leaves the hard bounds."""
import ast
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm
from engine.terms import *
from rules.c08 import deref
from rules.c21 import Core

EXPLANATION = (
    "Confinement analysis over value terms: every source of candidate points must pass a lower and an upper limit before it is returned, the evaluated point may "
    "only be a candidate or an optimizer result accepted because its acquisition is better, the acquisition wrapper must overwrite the value of every row outside "
    "the hard bounds by infinity last, and every store of the search bounds must be limited by the transformed hard bounds.")

CAST = {"np.astype", "np.atleast_1d", "np.atleast_2d", "np.reshape", "np.asarray", "np.array", "np.copy", "np.ravel", "np.squeeze", "np.flatten", "np.broadcast_to",
        "copy.copy", "copy.deepcopy", "np.expand_dims", "np.ascontiguousarray", "np.unique", "np.sort", "np.take", "np.transpose"}
STACK = {"np.append", "np.concatenate", "np.vstack", "np.row_stack", "np.delete", "np.insert"}
LOW = {"lb_search", "lb_tran", "plb_tran"}
UPP = {"ub_search", "ub_tran", "pub_tran"}
GEN = {"np.random.multivariate_normal", "np.random.standard_normal", "np.random.randn", "np.random.normal", "np.random.rand", "np.random.uniform", "np.random.random",
       "np.random.random_sample", "VariationalPosterior.sample", "ParameterTransformer.__call__", "np.random.standard_t"}


def strip(t):
    while t.k == "call" and t.a[0] in CAST and t.a[1]:
        t = t.a[1][0]
    return t


def key_of(t):
    """key of a read from a mapping (the state), through casts and row selection"""
    t = strip(t)
    while t.k == "idx" and not (is_const(t.a[1]) and isinstance(cval(t.a[1]), str)):
        t = strip(t.a[0])
    if t.k == "upd":
        return None
    return cval(t.a[1]) if t.k == "idx" else None


def sides(t):
    """(value limited, {limits applied}) when t is a limiting operation, else None"""
    if t.k == "call" and t.a[0] in ("np.maximum", "np.fmax", "np.minimum", "np.fmin") and len(t.a[1]) == 2:
        lo = t.a[0] in ("np.maximum", "np.fmax")
        for i in (0, 1):
            k = key_of(t.a[1][i])
            if k in LOW | UPP:
                return t.a[1][1 - i], ({"lo"} if lo and k in LOW else {"hi"} if not lo and k in UPP else {"bad"})
        return None
    if t.k == "call" and t.a[0] == "np.clip":
        a = list(t.a[1]) + [v for n, v in t.a[2] if n in ("a_min", "min")] + [v for n, v in t.a[2] if n in ("a_max", "max")]
        if len(a) == 3:
            k = (key_of(a[1]), key_of(a[2]))
            s = ({"lo"} if k[0] in LOW else {"bad"} if k[0] in UPP else set()) | ({"hi"} if k[1] in UPP else {"bad"} if k[1] in LOW else set())
            return a[0], s
    m = None
    if t.k == "call" and t.a[0] == "np.where" and len(t.a[1]) == 3:
        m, x, v = t.a[1][0], t.a[1][2], t.a[1][1]
        if key_of(x) in LOW | UPP:
            m, x, v = mk("inv", m), v, x
    elif t.k == "upd":
        m, x, v = t.a[1], t.a[0], t.a[2]
    if m is not None:
        k = key_of(v)
        inv = m.k == "inv"
        c = m.a[0] if inv else m
        if k in LOW | UPP and c.k == "cmp" and c.a[0] in ("lt", "le"):
            a, b = (c.a[2], c.a[1]) if inv else (c.a[1], c.a[2])
            if key_of(b) in LOW and strip(a) is strip(x) and k in LOW:
                return x, {"lo"}
            if key_of(a) in UPP and strip(b) is strip(x) and k in UPP:
                return x, {"hi"}
    return None


NORM = Norm()
UNI = {"np.random.rand", "np.random.random", "np.random.random_sample", "np.random.uniform"}


def interpolation(t):
    """u * (b - a) + a with u uniform on [0, 1] and (a, b) a pair of lower / upper limits: True, False (another mixture) or None"""
    if t.k == "call" and t.a[0] == "np.random.uniform" and len(t.a[1]) >= 2:
        k = (key_of(t.a[1][0]), key_of(t.a[1][1]))
        return None if k[0] is None or k[1] is None else k in (("plb_tran", "pub_tran"), ("lb_search", "ub_search"))
    pl = NORM.poly(t)
    if len(pl) != 3:
        return None
    one = [(next(iter(m))[0], c) for m, c in pl.items() if len(m) == 1]
    two = [({a for a, e in m}, c) for m, c in pl.items() if len(m) == 2]
    if len(one) != 1 or len(two) != 2:
        return None
    a, ca = one[0]
    u = two[0][0] & two[1][0]
    if len(u) != 1 or ca != 1:
        return None
    u = next(iter(u))
    if not (u.k == "call" and u.a[0] in UNI) or u.a[0] == "np.random.uniform" and u.a[1] and cval(u.a[1][0]) != 0:
        return None
    cs = {next(iter(s - {u})): c for s, c in two}
    b = [x for x in cs if x is not a]
    if a not in cs or len(b) != 1:
        return None
    b = b[0]
    if (key_of(a), key_of(b)) in (("plb_tran", "pub_tran"), ("lb_search", "ub_search")):
        return cs[b] == 1 and cs[a] == -1
    if (key_of(b), key_of(a)) in (("plb_tran", "pub_tran"), ("lb_search", "ub_search")):
        return cs[b] == 1 and cs[a] == -1
    return None


def sources(t, need=frozenset(("lo", "hi")), points=True):
    """[(kind, term, missing limits)] of the sources of points in t"""
    out, seen = [], set()
    st = [(t, need)]
    while st:
        x, n = st.pop()
        if (x, n) in seen or not n:
            continue
        seen.add((x, n))
        sd = sides(x)
        if sd is not None:
            if "bad" in sd[1]:
                out.append(("wrong", x, n))
            else:
                st.append((sd[0], n - sd[1]))
            continue
        if interpolation(x):
            continue
        if x.k == "ite":
            st += [(x.a[1], n), (x.a[2], n)]
        elif x.k == "call" and x.a[0] in CAST and x.a[1]:
            if x.a[0] == "np.array" and x.a[1][0].k in ("lst", "tup"):
                st += [(y, n) for y in x.a[1][0].a]
            else:
                st.append((x.a[1][0], n))
        elif x.k == "call" and x.a[0] in STACK and x.a[1]:
            args = x.a[1][:1] if x.a[0] == "np.delete" else x.a[1][:2] if x.a[0] == "np.append" else (x.a[1][0], x.a[1][2]) if x.a[0] == "np.insert" and len(x.a[1]) > 2 else x.a[1][:1]
            for y in args:
                st += [(z, n) for z in y.a] if y.k in ("lst", "tup") else [(y, n)]
        elif x.k == "call" and x.a[0] == "np.where" and len(x.a[1]) == 3:
            st += [(x.a[1][1], n), (x.a[1][2], n)]
        elif x.k == "call" and x.a[0] in ("np.full", "np.zeros", "np.empty", "np.ones"):
            continue
        elif x.k == "call" and x.a[0] == "AbstractAcqFcn._real2int":
            st.append((x.a[1][0], n))
        elif x.k == "upd":
            st += [(x.a[0], n), (x.a[2], n)]
        elif x.k == "idx" and key_of(x) is None:
            st.append((x.a[0], n))
        elif x.k == "loop" and isinstance(x.a[-1], T):
            st.append((x.a[-1], n))
        else:
            out.append(("source", x, n))
    return out


def what(x):
    if x.k == "call":
        return x.a[0]
    if x.k == "idx":
        return f"stored {key_of(x)}" if key_of(x) else "stored values"
    return {"mul": "scaled values", "add": "shifted values", "bin": "computed values", "neg": "negated values"}.get(x.k, x.k)


def random_in(x):
    return contains(x, lambda z: z.k == "call" and z.a[0] in GEN) or key_of(x) in ("search_cache", "x_orig")


def run(p, rep, only=None):
    rep.rule("candidates", "every returned search point is confined to the search bounds from both sides")
    rep.rule("evaluated point", "the evaluated point is an unmodified candidate, or an optimizer result accepted for a better acquisition value")
    rep.rule("rejection", "the acquisition wrapper returns infinity for every row outside the hard bounds, last, for every class")
    rep.rule("search bounds", "search bounds stay within the transformed hard bounds; rejection limits lie inside the hard bounds")
    rep.rule("initial design", "drawn initial points lie in the plausible box; given ones are the checked starting points")
    candidates(p, rep)
    evaluated(p, rep)
    rejection(p, rep)
    bounds(p, rep)


def candidates(p, rep):
    f = p.func("active_sample._get_search_points")
    I = Interp(p, Config())
    k = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        X = v.a[0] if v.k in ("tup", "lst") and v.a else idx(v, const(0))
        k += 1
        bad = sources(X)
        done = set()
        for kind, x, n in bad:
            if x in done:
                continue
            done.add(x)
            if kind == "wrong":
                rep.bad("candidates", "limits", f.where, f"the search points are limited by {show(x, 2)}: not a lower limit from below and an upper from above")
            elif random_in(x):
                rep.bad("candidates", f"source {what(x)}", f.where, f"candidates from {what(x)} are returned without being confined {'from below' if n == {'lo'} else 'from above' if n == {'hi'} else 'to the search bounds'}")
            else:
                rep.notes.append(f"candidate source not followed: {show(x, 4)}")
        if not bad:
            rep.ok("candidates", "all sources")
    rep.used(I)
    rep.at_least("returns of the candidate generator", k, 1)


def evaluated(p, rep):
    f = p.func("active_sample.active_sample")
    ACQ = {"AbstractAcqFcn.__call__", "?call"}
    I = Interp(p, Config(collect=True, track_call=lambda n: n in ("FunctionLogger.__call__", "FunctionLogger.add", "cma.fmin", "cma.fmin2", "scipy.optimize.minimize"),
                         opaque={"active_sample._get_search_points", "AbstractAcqFcn._real2int"}))
    I.run(f)
    rep.used(I)
    k = 0
    for e in I.log:
        if e.kind != "call":
            continue
        if not e.sig[0].startswith("FunctionLogger"):
            objective(p, rep, I, f, e)
            continue
        got = bind(p, e.sig[0], e.sig[1], e.sig[2]) or {}
        x = got.get("x")
        if x is None:
            continue
        k += 1
        st, seen, ok = [(x, False)], set(), True
        while st:
            t, acc = st.pop()
            if (t, acc) in seen:
                continue
            seen.add((t, acc))
            if t.k == "ite":
                # accepted because its value is better than the best candidate's
                def better(c):
                    return c.k == "cmp" and c.a[0] in ("lt", "le") and contains(c.a[1], is_opt) and not contains(c.a[2], is_opt)
                c = t.a[0]
                worse = c.k == "cmp" and c.a[0] in ("lt", "le") and contains(c.a[2], is_opt) and not contains(c.a[1], is_opt)
                pos = contains(c, better) and not (c.k in ("not", "inv"))
                neg = c.k in ("not", "inv") and contains(c, better) or worse
                st += [(t.a[1], acc or pos), (t.a[2], acc or neg)]
            elif t.k == "call" and t.a[0] in CAST and t.a[1]:
                st.append((t.a[1][0], acc))
            elif t.k == "call" and t.a[0] == "AbstractAcqFcn._real2int":
                st.append((t.a[1][0], acc))
            elif t.k == "upd":
                st += [(t.a[0], acc), (t.a[2], acc)]
            elif sides(t):
                s = sides(t)
                st.append((s[0], acc or s[1] == {"lo", "hi"} or s[1] in ({"lo"}, {"hi"}) and sides(strip(s[0])) is not None))
            elif t.k == "call" and t.a[0] == "ParameterTransformer.__call__":
                initial(p, rep, e, t.a[1][1] if len(t.a[1]) > 1 else None)
            elif is_opt_point(t):
                ok = ok and acc
                rep.check(acc, "evaluated point", "optimizer result", e.where, "the result of the local search is evaluated without having been found better than the best candidate, and without being confined")
            elif t.k == "idx":
                if t.a[0].k == "call" and t.a[0].a[0] == "active_sample._get_search_points":
                    rep.check(is_const(t.a[1]) and cval(t.a[1]) == 0, "evaluated point", "candidates", e.where, "the evaluated point is not taken from the candidate array")
                else:
                    st.append((t.a[0], acc))
            elif t.k in ("add", "mul", "bin", "neg") or t.k == "call" and t.a[0] in ("np.add", "np.subtract", "np.multiply"):
                if contains(t, lambda z: is_opt_point(z) or z.k == "call" and z.a[0] == "active_sample._get_search_points"):
                    rep.bad("evaluated point", "modified point", e.where, f"the chosen point is changed after it was proposed: {show(t, 3)}")
                elif random_in(t):
                    rep.bad("evaluated point", "unconfined point", e.where, f"a point computed as {show(t, 3)} is evaluated without being confined")
                else:
                    rep.notes.append(f"evaluated point not followed: {show(t, 3)}")
            elif t.k == "call" and t.a[0] in STACK:
                for y in t.a[1][:2]:
                    st += [(z, acc) for z in y.a] if y.k in ("lst", "tup") else [(y, acc)]
            elif t.k == "call" and t.a[0] in GEN:
                rep.bad("evaluated point", f"source {t.a[0]}", e.where, f"a draw of {t.a[0]} is evaluated without being confined")
            elif t.k == "loop" and isinstance(t.a[-1], T):
                st.append((t.a[-1], acc))
            else:
                rep.notes.append(f"evaluated point not followed: {show(t, 3)}")
        rep.ok("evaluated point", e.where)
    rep.at_least("evaluations in the sampling step", k, 3)


def is_opt(z):
    return z.k == "call" and (z.a[0].startswith("cma.") and z.a[0] != "cma.NoiseHandler" or z.a[0].startswith("scipy.optimize."))


def is_opt_point(t):
    """the point found by an optimizer"""
    if t.k == "attr":
        return t.a[1] in ("x", "xbest") and contains(t.a[0], is_opt)
    if t.k == "idx":
        b = t.a[0]
        while b.k == "idx":
            b = b.a[0]
        return is_opt(b)
    return is_opt(t)


def objective(p, rep, I, f, e):
    """the optimizer minimises the acquisition function itself"""
    a = e.sig[1][0] if e.sig[1] else dict(e.sig[2]).get("fun") or dict(e.sig[2]).get("objective_function")
    if a is None or a.k != "fn" or a not in I.closures:
        if a is not None and a.k == "bound" and a.a[1] == "_compute_acquisition_function":
            rep.bad("evaluated point", "search objective", e.where, "the local search minimises the acquisition value without the rejection of points outside the bounds")
        return
    func = I.closures[a][0]
    node = func.node if hasattr(func, "node") else func
    rets = [node.body] if isinstance(node, ast.Lambda) else [r.value for r in ast.walk(node) if isinstance(r, ast.Return) and r.value is not None]
    for r in rets:
        x = r
        neg = isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub)
        inner = [c for c in ast.walk(r) if isinstance(c, ast.Call)]
        raw = any(isinstance(c.func, ast.Attribute) and c.func.attr == "_compute_acquisition_function" for c in inner)
        bound = any((isinstance(c.func, ast.Attribute) and c.func.attr in ("nan_to_num", "minimum", "clip", "fmin")) for c in inner)
        rep.check(not neg and not raw and not bound, "evaluated point", "search objective", e.where, "the local search does not minimise the acquisition value with its rejection of points outside the bounds")


def initial(p, rep, e, x):
    """points of the initial design, in original space"""
    if x is None:
        return
    st, seen = [x], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.k == "ite":
            st += [t.a[1], t.a[2]]
        elif t.k == "call" and t.a[0] in CAST and t.a[1]:
            st.append(t.a[1][0])
        elif t.k == "call" and t.a[0] in STACK:
            for y in t.a[1][:2] if t.a[0] == "np.append" else t.a[1][:1]:
                st += list(y.a) if y.k in ("lst", "tup") else [y]
        elif t.k == "call" and t.a[0] == "ParameterTransformer.inverse":
            for kind, s, n in sources(t.a[1][1]):
                if kind == "wrong" or random_in(s):
                    rep.bad("initial design", f"drawn points {what(s)}", e.where, f"initial points are drawn as {show(s, 4)}: not confined to the plausible box")
                else:
                    rep.notes.append(f"initial design not followed: {show(s, 3)}")
            rep.ok("initial design", "drawn points")
        elif t.k == "upd":
            st += [t.a[0], t.a[2]]
        elif key_of(t) == "x_orig":
            rep.ok("initial design", "given points")
        elif t.k == "idx":
            st.append(t.a[0])
        elif t.k in ("add", "mul", "bin") and random_in(t):
            rep.bad("initial design", "modified points", e.where, f"initial points are changed to {show(t, 3)}")
        elif t.k == "call" and t.a[0] in GEN:
            rep.bad("initial design", f"drawn points {t.a[0]}", e.where, "initial points are drawn without confinement")
        else:
            rep.notes.append(f"initial design not followed: {show(t, 3)}")


# ---------------------------------------------------------------------- rejection
def flagged(t, X):
    """limits whose violation by a row implies that mask t is set for the row"""
    if t.k == "or" or t.k == "bin" and t.a[0] == "|" or t.k == "call" and t.a[0] in ("np.logical_or",):
        return set().union(*[flagged(y, X) for y in ops(t)])
    if t.k == "and" or t.k == "bin" and t.a[0] == "&" or t.k == "call" and t.a[0] == "np.logical_and":
        return set.intersection(*[flagged(y, X) for y in ops(t)])
    if t.k in ("inv", "not"):
        return cleared(t.a[0], X)
    if t.k == "call" and t.a[0] in ("np.logical_not", "np.invert"):
        return cleared(t.a[1][0], X)
    if t.k == "call" and t.a[0] in ("np.any", "any"):
        return flagged(t.a[1][0], X) if rowwise(t) else set()
    if t.k == "call" and t.a[0] in CAST:
        return flagged(t.a[1][0], X)
    if t.k == "cmp" and t.a[0] in ("lt", "le"):
        if X(t.a[1]) and key_of(t.a[2]) == "lb_eps_orig":
            return {"lo"}
        if X(t.a[2]) and key_of(t.a[1]) == "ub_eps_orig":
            return {"hi"}
    return set()


def cleared(t, X):
    if t.k == "and" or t.k == "bin" and t.a[0] == "&" or t.k == "call" and t.a[0] in ("np.logical_and",):
        return set().union(*[cleared(y, X) for y in ops(t)])
    if t.k == "or" or t.k == "bin" and t.a[0] == "|" or t.k == "call" and t.a[0] == "np.logical_or":
        return set.intersection(*[cleared(y, X) for y in ops(t)])
    if t.k in ("inv", "not"):
        return flagged(t.a[0], X)
    if t.k == "call" and t.a[0] in ("np.logical_not", "np.invert"):
        return flagged(t.a[1][0], X)
    if t.k == "call" and t.a[0] in ("np.all", "all"):
        return cleared(t.a[1][0], X) if rowwise(t) else set()
    if t.k == "call" and t.a[0] in CAST:
        return cleared(t.a[1][0], X)
    if t.k == "cmp" and t.a[0] in ("lt", "le"):
        if X(t.a[2]) and key_of(t.a[1]) == "lb_eps_orig":
            return {"lo"}
        if X(t.a[1]) and key_of(t.a[2]) == "ub_eps_orig":
            return {"hi"}
    return set()


def ops(t):
    return list(t.a) if t.k in ("or", "and") else list(t.a[1:]) if t.k == "bin" else list(t.a[1])


def rowwise(t):
    ax = dict(t.a[2]).get("axis") if t.a[2] else t.a[1][1] if len(t.a[1]) > 1 else None
    return ax is None or is_const(ax) and cval(ax) in (1, -1, None)


def is_inf(t):
    return t.k == "mod" and t.a[0] in ("numpy.inf", "np.inf", "math.inf", "numpy.Inf", "numpy.infty") or is_const(t) and cval(t) == float("inf") or \
        t.k == "call" and t.a[0] == "float" and t.a[1] and cval(t.a[1][0]) in ("inf", "Inf", "+inf")


class Graded:
    def __init__(self, X):
        self.X, self.out, self.notes, self.memo = X, [], [], set()

    def go(self, t, need):
        """collect the ways a value of a row outside the bounds (in the directions need) is not infinite"""
        if not need or (t, frozenset(need)) in self.memo:
            return
        self.memo.add((t, frozenset(need)))
        if t.k == "ite":
            c, neg = t.a[0], False
            while c.k in ("not", "inv"):
                c, neg = c.a[0], not neg
            yes, no = (t.a[2], t.a[1]) if neg else (t.a[1], t.a[2])
            self.go(yes, need)
            whole = flagged(c, self.X)
            self.go(no, need - whole)
        elif t.k == "call" and t.a[0] in CAST | {"np.maximum", "np.fmax"} and t.a[1]:
            args = t.a[1][:1] if t.a[0] in CAST else t.a[1]
            if len(args) == 1:
                return self.go(args[0], need)
            main = [y for y in args if contains(y, lambda z: z.k == "call" and z.a[0].endswith(("._compute_acquisition_function", "__call__")))]
            if len(main) == 1:
                return self.go(main[0], need)
            if main:
                return self.go(main[0], need)
            self.out.append(("value without rejection", t))
        elif t.k == "upd":
            if is_inf(t.a[2]):
                return self.go(t.a[0], need - flagged(t.a[1], self.X))
            if contains(t.a[1], lambda z: z.k == "call" and z.a[0] in ("np.isnan",)) and not contains(t.a[1], lambda z: z.k == "call" and z.a[0] in ("np.isinf", "np.isfinite")):
                return self.go(t.a[0], need)
            b = Graded(self.X)
            b.go(t.a[0], set(need))
            if not b.out and t.k == "upd":
                self.out.append(("value changed after the rejection", t))
            else:
                self.out += b.out
        elif t.k == "call" and t.a[0] == "np.where" and len(t.a[1]) == 3:
            m, a, b = t.a[1]
            if is_inf(a):
                return self.go(b, need - flagged(m, self.X))
            if is_inf(b):
                return self.go(a, need - cleared(m, self.X))
            self.go(a, need)
            self.go(b, need)
        elif t.k == "add" or t.k == "bin" and t.a[0] == "+":
            self.notes.append("value shifted after the rejection")
            for y in (t.a if t.k == "add" else t.a[1:]):
                if contains(y, lambda z: z.k == "upd" and is_inf(z.a[2]) or z.k == "call" and z.a[0] == "np.where" and any(is_inf(q) for q in z.a[1])):
                    return self.go(y, need)
            self.out.append(("value without rejection", t))
        elif t.k == "call" and t.a[0] == "AbstractAcqFcn.__call__":
            return
        elif t.k == "loop" and isinstance(t.a[-1], T):
            self.go(t.a[-1], need)
        elif t.k == "idx":
            self.go(t.a[0], need)
        else:
            self.out.append(("value without rejection" + ("" if need == {"lo", "hi"} else f" {'below' if 'lo' in need else 'above'} the bounds"), t))


def rejection(p, rep):
    classes = [c for c in p.classes.values() if c.name == "AbstractAcqFcn" or any(x.name == "AbstractAcqFcn" for x in mro(p, c.name))]
    n = 0
    for c in classes:
        if "__call__" not in c.methods:
            continue
        f = c.methods["__call__"]
        I = Interp(p, Config(opaque={q.qual for k in classes for q in [k.methods.get("_compute_acquisition_function")] if q} | {"AbstractAcqFcn._real2int"} |
                             ({"AbstractAcqFcn.__call__"} if c.name != "AbstractAcqFcn" else set())))

        def X(t):
            t = strip(t)
            return t.k == "call" and t.a[0] == "ParameterTransformer.inverse" and contains(t.a[1][1], lambda z: z is sym("Xs")) and not arith(t.a[1][1])
        for s, ctl, v in I.run(f):
            if ctl != "return":
                continue
            n += 1
            g = Graded(X)
            g.go(v, {"lo", "hi"})
            for w, t in g.out:
                rep.bad("rejection", f"{c.name}: {w}", f.where, f"a point outside the hard bounds can be rated by {show(t, 2)[:200]}: {w}")
            if not g.out:
                rep.ok("rejection", f"{c.name}: every returned value")
        rep.used(I)
    rep.at_least("acquisition wrappers analysed", n, 1)
    # nobody rates points without the wrapper
    for g, call_ in callers_by_name(p, "_compute_acquisition_function"):
        ok = g.name in ("__call__", "_compute_acquisition_function") and g.cls is not None and g.cls.name in {c.name for c in classes} or \
            only_called_from(p, g, {"AbstractAcqFcn.__call__"})
        rep.check(ok, "rejection", f"caller in {g.cls.name if g.cls else g.mod.rel}", f"{g.mod.rel}:{call_.lineno} {g.qual}", f"{g.qual} rates points without the rejection of points outside the bounds")
    rep.count("acquisition classes", len(classes))


def arith(t):
    return t.k in ("add", "mul", "bin", "neg")


def mro(p, name):
    try:
        out = []
        for c in p.mro(name):
            out.append(c if hasattr(c, "methods") else p.classes[c])
        return out
    except Exception:
        return []


def callers_by_name(p, n):
    for g in p.all_func_nodes():
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == n:
                yield g, c


# ---------------------------------------------------------------------- bounds
KEYS = {"lb_search", "ub_search", "lb_tran", "ub_tran", "lb_eps_orig", "ub_eps_orig"}


def bounds(p, rep):
    f = p.func("VBMC._init_optim_state")
    SELF = sym("self")
    I = Interp(p, Config(collect=True, track_store=lambda b, n: isinstance(n, T) and is_const(n) and cval(n) in KEYS | {"x_orig", "cache"}))
    I.run(f)
    rep.used(I)
    ent = {}
    for e in I.log:
        if e.kind != "setidx" or not is_const(e.sig[1]):
            continue
        k = cval(e.sig[1])
        ent[k] = e.sig[2]
        v = e.sig[2]
        if k == "cache" and v.k == "dct":
            xo = dict((cval(q), r) for q, r in v.a if is_const(q)).get("x_orig")
            if xo is not None:
                k, v = "x_orig", xo
        if k == "x_orig":
            rep.check(strip(v) is attr(SELF, "x0"), "initial design", "starting cache", e.where, f"the cache of starting points holds {show(v, 3)}, not the checked points")
    core = Core()
    L, U = attr(SELF, "lower_bounds"), attr(SELF, "upper_bounds")
    N = Norm()
    # transformed hard bounds
    for key, b in (("lb_tran", L), ("ub_tran", U)):
        t = ent.get(key)
        if t is None:
            rep.bad("search bounds", f"initial {key}", f.where, f"{key} is not set")
            continue
        t = strip(t)
        ok = t.k == "call" and t.a[0] == "ParameterTransformer.__call__" and strip(t.a[1][1]) is b
        rep.check(ok, "search bounds", f"initial {key}", f.where, f"{key} is {show(t, 3)}, not the transformed hard bound")
    for key, b, fn, other in (("lb_search", "lb_tran", "np.maximum", U), ("ub_search", "ub_tran", "np.minimum", L)):
        t = ent.get(key)
        if t is None:
            rep.bad("search bounds", f"initial {key}", f.where, f"{key} is not set")
            continue
        rep.check(limited(strip(t), strip(ent[b]) if ent.get(b) is not None else None, fn), "search bounds", f"initial {key}", f.where, f"{key} is {show(t, 3)}: not limited by the transformed hard bound")
    for key, b, o, sgn in (("lb_eps_orig", L, U, 1), ("ub_eps_orig", U, L, -1)):
        t = ent.get(key)
        if t is None:
            rep.bad("search bounds", f"initial {key}", f.where, f"{key} is not set")
            continue
        pl = dict(N.poly(core(t)))
        bm = frozenset([(b, 1)])
        rest = dict(pl)
        rest[bm] = rest.get(bm, 0) - 1
        if not rest[bm]:
            rest.pop(bm)
        # remaining: tol * (U - L) with the sign pointing inwards
        um = [(m, c) for m, c in rest.items() if any(a is U for a, e in m)]
        lm = [(m, c) for m, c in rest.items() if any(a is L for a, e in m)]
        if len(rest) == 2 and len(um) == 1 and len(lm) == 1:
            good = um[0][1] * sgn > 0 and lm[0][1] * sgn < 0
            rep.check(good, "search bounds", f"initial {key}", f.where, f"{key} lies outside the hard bound")
        elif not rest:
            rep.ok("search bounds", f"initial {key}")
        elif contains(t, lambda z: z is o) and pl.get(bm) is None or pl == {frozenset([(o, 1)]): 1}:
            rep.bad("search bounds", f"initial {key}", f.where, f"{key} is {show(t, 3)}, not the hard bound moved inwards")
        elif not contains(t, lambda z: z is b):
            rep.bad("search bounds", f"initial {key}", f.where, f"{key} is {show(t, 3)}, not derived from the hard bound")
        else:
            rep.notes.append(f"{key} not recognised: {show(t, 3)}")
    # other writers
    ALLOWED = {"VBMC._init_optim_state", "active_sample.active_sample", "whitening.warp_input"}
    for key in sorted(KEYS):
        for g in p.all_func_nodes():
            for node in stores_of(g, key):
                if key in ("lb_search", "ub_search"):
                    ok = any(g.qual == a or only_called_from(p, g, {a}) for a in ALLOWED)
                    rep.check(ok, "search bounds", f"writer of {key}", f"{g.mod.rel}:{node.lineno} {g.qual}", f"{g.qual} changes {key}")
                else:
                    rep.check(g.qual == "VBMC._init_optim_state" or only_called_from(p, g, {"VBMC._init_optim_state"}), "search bounds", f"writer of {key}",
                              f"{g.mod.rel}:{node.lineno} {g.qual}", f"{g.qual} changes {key} after initialisation")
    # growth during sampling
    f = p.func("active_sample.active_sample")

    def mine(b, n):
        k = isinstance(n, T) and is_const(n) and cval(n) or (key_of(deref(b)) if isinstance(b, T) else None)
        return k in ("lb_search", "ub_search")
    I = Interp(p, Config(collect=True, track_store=mine, opaque={"active_sample._get_search_points"}))
    I.run(f)
    rep.used(I)
    n = 0
    for e in I.log:
        if e.kind != "setidx":
            continue
        key = cval(e.sig[1]) if is_const(e.sig[1]) and cval(e.sig[1]) in KEYS else root_key(deref(e.sig[0]))
        if key not in ("lb_search", "ub_search"):
            continue
        b, fn = ("lb_tran", "np.maximum") if key == "lb_search" else ("ub_tran", "np.minimum")
        v = deref(e.sig[2])
        n += 1
        rep.check(limited(strip(v), None, fn, b), "search bounds", f"growth of {key}", e.where, f"{key} grows to {show(v, 3)}: not limited by the transformed hard bound")
    rep.count("growth stores", n)
    warp(p, rep)


def root_key(b):
    while b.k == "upd":
        b = b.a[0]
    return key_of(b)


def limited(t, b, fn, key=None, d=0):
    """t is max(., b) (fn = np.maximum) or min(., b), through later tightening"""
    if d > 10:
        return False
    is_b = lambda y: b is not None and strip(y) is b or key is not None and key_of(y) == key
    if is_b(t):
        return True
    if t.k == "call" and t.a[0] in CAST:
        return limited(t.a[1][0], b, fn, key, d + 1)
    if t.k == "ite":
        c = t.a[0]
        return all(limited(y, b, fn, key, d + 1) for y in t.a[1:])
    if t.k == "call" and t.a[0] in (fn, fn.replace("np.m", "np.fm").replace("imum", "")):
        return any(is_b(y) or limited(y, b, fn, key, d + 1) for y in t.a[1])
    if t.k == "call" and t.a[0] in ("np.minimum", "np.maximum"):
        return all(limited(y, b, fn, key, d + 1) for y in t.a[1])
    if t.k == "call" and t.a[0] == "np.clip" and len(t.a[1]) == 3:
        return is_b(t.a[1][1 if fn == "np.maximum" else 2])
    if t.k == "idx" and not is_const(t.a[1]) and contains(t.a[0], lambda z: z.k == "call"):
        return limited(strip(t.a[0]), b, fn, key, d + 1)
    if t.k == "upd":
        if key is not None and key_of(t.a[0]) == key.replace("tran", "search"):
            return limited(strip(t.a[2]), b, fn, key, d + 1)
        # masked replacement of the values beyond
        m = t.a[1]
        if is_b(t.a[2]) and m.k == "cmp" and m.a[0] in ("lt", "le") and is_b(m.a[2] if fn == "np.maximum" else m.a[1]):
            return True
        return limited(t.a[0], b, fn, key, d + 1) and limited(t.a[2], b, fn, key, d + 1)
    if t.k == "call" and t.a[0] == "np.where" and len(t.a[1]) == 3:
        m = t.a[1][0]
        if m.k == "cmp" and m.a[0] in ("lt", "le"):
            lo = fn == "np.maximum"
            if is_b(t.a[1][1]) and is_b(m.a[2] if lo else m.a[1]) and strip(m.a[1] if lo else m.a[2]) is strip(t.a[1][2]):
                return True
            if is_b(t.a[1][2]) and is_b(m.a[1] if lo else m.a[2]) and strip(m.a[2] if lo else m.a[1]) is strip(t.a[1][1]):
                return True
        return all(limited(strip(y), b, fn, key, d + 1) for y in t.a[1][1:])
    if key is not None and key_of(t) == key.replace("tran", "search"):
        return True
    return False


def stores_of(g, key):
    for n in ast.walk(g.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                while isinstance(x, ast.Subscript):
                    if isinstance(x.slice, ast.Constant) and x.slice.value == key:
                        yield n
                        break
                    x = x.value


def warp(p, rep):
    """after a warp the search bounds are the range of warped points drawn within the old search bounds"""
    f = p.func("whitening.warp_input")
    I = Interp(p, Config(collect=True, track_store=lambda b, n: isinstance(n, T) and is_const(n) and cval(n) in ("lb_search", "ub_search")))
    I.run(f)
    rep.used(I)
    for e in I.log:
        if e.kind != "setidx" or not is_const(e.sig[1]) or cval(e.sig[1]) not in ("lb_search", "ub_search"):
            continue
        key = cval(e.sig[1])
        v = e.sig[2]
        want, other = ("min", "max") if key == "lb_search" else ("max", "min")
        base = strip(v)
        pl = NORM.poly(base)
        top = max((c for c in pl.values()), default=0)
        lead = {a for m, c in pl.items() if c == top and len(m) == 1 for a, e2 in m if a.k == "call" and a.a[0] in ("np.min", "np.max", "np.amin", "np.amax")}
        names = {a.a[0][-3:] for a in lead}
        if names:
            rep.check(want in names, "search bounds", f"warped {key}", e.where, f"{key} becomes {show(base, 3)} after a warp")
        # draws
        draws = [z for z in subterms(v) if z.k in ("add", "bin", "mul", "sub") and interpolation(z) is not None]
        for z in draws:
            rep.check(interpolation(z), "search bounds", f"draws for {key}", e.where, f"the points warped to find {key} are not drawn between the search bounds")
