"""C17: original-space densities are Jacobian-corrected exactly once and vanish outside the bounds."""
import itertools
import math

from engine.absint import Config, Interp
from engine.lib import *
from engine.program import AnalysisBroken
from engine.terms import *

EXPLANATION = (
    "Abstract evaluation of the returned terms, per flag combination and per row class. A row class fixes, for two coordinates, whether the point is below, at, "
    "inside, at or above the hard bounds, and whether the mixture density is exactly zero; the masks the code computes are decided on that finite domain and the "
    "returned value is evaluated in a domain {number, mixture density (linear or log, net number of Jacobian corrections, point it was evaluated at), log-Jacobian, "
    "point (given, transformed, twice transformed)}. Inside the bounds the original-space (log-)density must carry exactly one correction, evaluated, like the density, at the "
    "transformed point; elsewhere it must be 0 (-inf); in the transformed space there must be none. Sampling, moments, mode and the distances are checked for the "
    "inverse map being applied exactly when the original space is requested.")

VP = "VariationalPosterior"
PASS = SHAPE | {"np.ascontiguousarray", "np.flatten", "np.asarray", "np.float64", "float"}
UNK = ("?",)
DIMS = 2


def num(v):
    return ("num", v)


class Ev:
    """evaluates a term on one row class: pos = position of each coordinate (-2 below, -1 on the lower bound, 0 inside, 1 on the upper bound, 2 above), zero = density is exactly 0"""

    def __init__(self, me, x, pos, zero, df=math.inf):
        self.me, self.x, self.pos, self.zero, self.df = me, x, pos, zero, df
        self.memo, self.loopv = {}, {}

    def ev(self, t):
        """set of abstract values"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset([UNK])
        r = frozenset(self._ev(t))
        self.memo[t] = r
        return r

    def lift(self, f, *ts):
        out = set()
        for c in itertools.product(*[self.ev(t) for t in ts]):
            out.add(f(*c))
        return out

    def is_pt(self, t):
        return t.k == "attr" and t.a[0] is self.me and t.a[1] == "parameter_transformer"

    def _ev(self, t):
        k, a = t.k, t.a
        if t is self.x:
            return {("pt", 0)}
        if t is sym("df"):
            return {num(self.df)}
        if k == "const":
            v = cval(t)
            if isinstance(v, bool):
                return {("bool", v)}
            if isinstance(v, (int, float)):
                return {num(float(v))}
            return {UNK}
        if k == "mod" or k == "sym" and a[0] == "numpy.inf":
            return {num(math.inf)} if str(a[0]) in ("numpy.inf", "math.inf", "np.inf") else {UNK}
        if k == "attr":
            if self.is_pt(a[0]) and a[1] in ("lb_orig", "ub_orig"):
                return {("bound", a[1][:2])}
            if a[1] == "T":
                return self.ev(a[0])
            return {UNK}
        if k == "ite":
            c = self.ev(a[0])
            out = set()
            if c != {("bool", False)}:
                out |= self.ev(a[1])
            if c != {("bool", True)}:
                out |= self.ev(a[2])
            return out
        if k == "phi":
            site, name, vals = a
            if isinstance(site, tuple) and site and site[0] == "loopexit" and len(vals) == 2:
                lv = mk("loop", site[1:], name)
                lv2 = mk("loop", site[1], name) if len(site) == 2 else lv
                init = self.ev(vals[0])
                self.loopv[lv] = self.loopv[lv2] = init
                return self.ev(vals[1])
            out = set()
            for v in vals:
                out |= self.ev(v)
            return out
        if k == "loop":
            return self.loopv.get(t, {UNK})
        if k == "upd":
            out = set()
            for s in self.ev(a[1]):
                if s == ("bool", True):
                    out |= self.ev(a[2])
                elif s == ("bool", False):
                    out |= self.ev(a[0])
                elif a[1].k in ("slice",) or is_const(a[1]) and cval(a[1]) in (Ellipsis, "..."):
                    out |= self.ev(a[2])
                else:
                    out.add(UNK)
            return out
        if k == "idx":
            key = a[1]
            if key.k == "tup":
                r = key.a[0] if key.a else key
                if r.k == "slice":
                    return self.ev(a[0])
                key = r
            if key.k == "slice" or key.k == "mod" or key is NONE:
                return self.ev(a[0])
            if any(v[0] == "bool" for v in self.ev(key)):
                return self.ev(a[0])
            return {UNK}
        if k in ("inv", "not"):
            return self.lift(lambda v: self.b1(lambda x: not x, v), a[0])
        if k in ("and", "or"):
            vs = list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else list(a)
            return self.boolop(k, vs)
        if k == "cmp":
            return self.lift(lambda u, v: self.cmp(a[0], u, v), a[1], a[2])
        if k == "neg":
            return self.lift(self.neg, a[0])
        if k == "add":
            return self.fold(self.add, t, a)
        if k == "mul":
            return self.fold(self.mul, t, a)
        if k == "bin":
            if a[0] == "-":
                return self.mix(t, self.lift(lambda u, v: self.add(u, self.neg(v)), a[1], a[2]))
            if a[0] == "/":
                return self.mix(t, self.lift(lambda u, v: self.mul(u, self.recip(v)), a[1], a[2]))
            if a[0] in ("&", "|"):
                return self.boolop("and" if a[0] == "&" else "or", [a[1], a[2]])
            return self.mix(t, {UNK})
        if k == "call":
            return self.call(t)
        return {UNK}

    def boolop(self, k, vs):
        f = all if k == "and" else any

        def g(*xs):
            if any(x[0] == "dim" for x in xs):
                if all(x[0] in ("dim", "bool") for x in xs):
                    return ("dim", tuple(f(x[1][i] if x[0] == "dim" else x[1] for x in xs) for i in range(DIMS)))
                return UNK
            bs = [x[1] for x in xs if x[0] == "bool"]
            if len(bs) == len(xs):
                return ("bool", f(bs))
            if (k == "and" and False in bs) or (k == "or" and True in bs):
                return ("bool", k == "or")
            return UNK
        return self.lift(g, *vs)

    def b1(self, f, v):
        if v[0] == "bool":
            return ("bool", f(v[1]))
        if v[0] == "dim":
            return ("dim", tuple(f(x) for x in v[1]))
        return UNK

    def cmp(self, op, u, v):
        F = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y,
             "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}.get(op)
        if F is None:
            return UNK
        w = {"lb": -1, "ub": 1}
        if u[0] == "pt" and u[1] == 0 and v[0] == "bound":
            return ("dim", tuple(F(p, w[v[1]]) for p in self.pos))
        if v[0] == "pt" and v[1] == 0 and u[0] == "bound":
            return ("dim", tuple(F(w[u[1]], p) for p in self.pos))
        if u[0] == "num" and v[0] == "num":
            return ("bool", F(u[1], v[1]))
        if u[0] == "den" and u[1] == "lin" and v == num(0.0):
            return ("bool", F(0 if self.zero else 1, 0))
        if v[0] == "den" and v[1] == "lin" and u == num(0.0):
            return ("bool", F(0, 0 if self.zero else 1))
        return UNK

    def neg(self, v):
        if v[0] == "num":
            return num(-v[1])
        if v[0] == "jac":
            return ("jac", -v[1], v[2])
        if v[0] == "nden":
            return ("den",) + v[1:]
        if v[0] == "den":
            return ("nden",) + v[1:]
        return UNK

    def recip(self, v):
        if v[0] == "ejac":
            return ("ejac", -v[1], v[2])
        if v[0] == "num":
            return num(1 / v[1]) if v[1] else UNK
        return UNK

    def add(self, u, v):
        for x, y in ((u, v), (v, u)):
            if x[0] == "num" and y[0] == "num":
                return num(x[1] + y[1])
            if x[0] == "num" and math.isinf(x[1]) and y[0] in ("den", "jac"):
                return x
            if x[0] == "num" and x[1] == 0 and y[0] in ("den", "jac", "ejac", "nden"):
                return y
            if x[0] == "den" and x[1] == "log" and y[0] == "jac":
                return ("den", "log", x[2] - y[1], x[3], x[4] | {y[2]})
            if x[0] == "den" and y[0] == "den" and x[1] == y[1] == "lin" and x[2:] == y[2:]:
                return x
            if x[0] == "jac" and y[0] == "jac" and x[2] == y[2]:
                return ("jac", x[1] + y[1], x[2])
        return UNK

    def mul(self, u, v):
        for x, y in ((u, v), (v, u)):
            if x[0] == "num" and y[0] == "num":
                return num(x[1] * y[1]) if not (x[1] == 0 and math.isinf(y[1]) or y[1] == 0 and math.isinf(x[1])) else UNK
            if x[0] == "num" and x[1] == 0:
                return x
            if x[0] == "num" and x[1] == 1:
                return y
            if x[0] == "num" and x[1] == -1:
                return self.neg(y)
            if x[0] == "den" and x[1] == "lin" and y[0] == "ejac":
                return ("den", "lin", x[2] - y[1], x[3], x[4] | {y[2]})
            if x[0] == "ejac" and y[0] == "ejac" and x[2] == y[2]:
                return ("ejac", x[1] + y[1], x[2])
        return UNK

    def fold(self, f, t, xs):
        acc = None
        for x in xs:
            s = self.ev(x)
            acc = s if acc is None else {f(u, v) for u in acc for v in s}
        if f == self.add and UNK in acc:
            # accumulation: (0 or density) + something built from the point and the components
            vs = [self.ev(x) for x in xs]
            if len(xs) == 2:
                for i in (0, 1):
                    o = xs[1 - i]
                    if vs[i] <= {num(0.0)} and vs[1 - i] == {UNK}:
                        return self.mix(o, {UNK})
        return self.mix(t, acc)

    def mix(self, t, got):
        """an otherwise unknown expression of the point and the mixture components is (a summand of) the mixture density"""
        if UNK not in got or t.k in ("upd", "ite", "phi", "loop"):
            return got
        comp = contains(t, lambda y: y.k == "attr" and y.a[0] is self.me and y.a[1] in ("mu", "sigma"))
        if not comp:
            return got
        pts, ok = set(), True
        st, seen = [t], set()
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y is not t:
                v = self.ev(y) if y.k in ("upd", "call", "sym", "idx", "ite", "phi") else frozenset([UNK])
                if any(z[0] == "pt" for z in v):
                    pts |= {z[1] for z in v if z[0] == "pt"}
                    continue
                den = {z for z in v if z[0] == "den"}
                if any(z[0] in ("jac", "ejac") for z in v) or any(z[2] or z[4] for z in den):
                    ok = False
                if den and UNK not in v:
                    for z in den:
                        pts |= z[3]
                    continue
            if y.k == "attr" and y.a[1] in ("shape", "size", "ndim", "dtype") or y.k == "call" and y.a[0] in ("len", "np.shape", "np.size", "np.zeros_like"):
                continue
            st.extend(children(y))
        if not ok or not pts:
            return got
        out = set(got) - {UNK}
        out |= {("den", "lin", 0, frozenset(pts), frozenset())}
        return out

    def call(self, t):
        n, args, kws = t.a[0], t.a[1], dict(t.a[2])
        last = n.split(".")[-1]
        if n.endswith("ParameterTransformer.__call__") or n.endswith("ParameterTransformer.inverse") or n.endswith("ParameterTransformer.log_abs_det_jacobian"):
            if len(args) < 2:
                return {UNK}
            own = self.is_pt(args[0])

            def g(v):
                if v[0] != "pt":
                    return UNK
                d = v[1] if isinstance(v[1], int) else 99
                if not own:
                    d = 99
                if last == "__call__":
                    return ("pt", d + 1)
                if last == "inverse":
                    return ("pt", d - 1)
                return ("jac", 1, d)
            return self.lift(g, args[1])
        if n in PASS and args:
            return self.ev(args[0])
        if n in ("np.zeros", "np.zeros_like"):
            return {num(0.0)}
        if n in ("np.ones", "np.ones_like"):
            if any(x.k == "sym" and "bool" in x.a[0] for x in list(args[1:]) + list(kws.values())):
                return {("bool", True)}
            return {num(1.0)}
        if n in ("np.full", "np.full_like") and (len(args) > 1 or "fill_value" in kws):
            return self.ev(args[1] if len(args) > 1 else kws["fill_value"])
        if n in ("np.logical_and", "np.logical_or", "np.bitwise_and", "np.bitwise_or") and len(args) == 2:
            return self.boolop("and" if n.endswith("and") else "or", list(args))
        if n in ("np.logical_not", "np.invert") and args:
            return self.lift(lambda v: self.b1(lambda x: not x, v), args[0])
        if n in ("np.all", "np.any") and args:
            f = all if n == "np.all" else any
            ax = args[1] if len(args) > 1 else kws.get("axis")
            if ax is None or not is_const(ax) or cval(ax) not in (1, -1):
                return {UNK}
            return self.lift(lambda v: ("bool", f(v[1])) if v[0] == "dim" else v if v[0] == "bool" else UNK, args[0])
        if n == "np.where" and len(args) == 3:
            out = set()
            for c in self.ev(args[0]):
                if c[0] == "bool":
                    out |= self.ev(args[1 if c[1] else 2])
                else:
                    out |= {UNK}
            return out
        if n in ("np.exp", "math.exp") and args:
            r = self.lift(lambda v: ("ejac", v[1], v[2]) if v[0] == "jac" else ("den", "lin") + v[2:] if v[0] == "den" and v[1] == "log" else
                          num(math.exp(v[1])) if v[0] == "num" and v[1] < 100 else UNK, args[0])
            return self.mix(t, r)
        if n in ("np.log", "math.log") and args:
            return self.lift(lambda v: (num(-math.inf) if self.zero else ("den", "log") + v[2:]) if v[0] == "den" and v[1] == "lin" else
                             ("jac", v[1], v[2]) if v[0] == "ejac" else
                             num(math.log(v[1]) if v[1] > 0 else -math.inf) if v[0] == "num" and v[1] >= 0 else UNK, args[0])
        if n in ("np.isfinite", "math.isfinite", "np.isinf", "math.isinf") and args:
            return self.lift(lambda v: ("bool", math.isfinite(v[1]) == n.endswith("isfinite")) if v[0] == "num" else UNK, args[0])
        if n in ("np.abs", "abs", "np.absolute") and args:
            return self.lift(lambda v: num(abs(v[1])) if v[0] == "num" else UNK, args[0])
        if n == "np.negative" and args:
            return self.lift(self.neg, args[0])
        if n in ("np.subtract", "np.divide", "np.add", "np.multiply", "np.true_divide") and len(args) > 1:
            op = {"np.subtract": lambda u, v: self.add(u, self.neg(v)), "np.add": self.add, "np.multiply": self.mul}.get(n, lambda u, v: self.mul(u, self.recip(v)))
            return self.mix(t, self.lift(op, args[0], args[1]))
        if last == "logsumexp":
            r = self.mix(t, {UNK})
            return {("den", "log") + v[2:] if v[0] == "den" else v for v in r}
        if n in ("np.sum", "np.dot", "np.matmul", "np.prod", "np.einsum") or last in ("pdf",) and "norm" in n:
            return self.mix(t, {UNK})
        return {UNK}


def describe(v):
    if v[0] == "num":
        return f"the constant {v[1]}"
    if v[0] == "den":
        pts = ", ".join({0: "the given point", 1: "the transformed point", 2: "the twice transformed point", -1: "the inversely transformed point"}.get(q, "a wrongly transformed point") for q in sorted(v[3]))
        return f"the {'log-' if v[1] == 'log' else ''}density at {pts} with {v[2]} Jacobian correction(s)" + (
            f" evaluated at transform depth {sorted(v[4])}" if v[4] and v[4] != frozenset([1]) else "")
    return str(v)


def pdf(p, rep):
    f = p.func(VP + ".pdf")
    params = f.posonly
    me, x = sym(params[0]), sym(params[1])
    if not {"orig_flag", "log_flag"} <= set(params + f.kwonly):
        raise AnalysisBroken("pdf lost its flag arguments")
    known = 0
    poss = [c for c in itertools.product((-2, -1, 0, 1, 2), repeat=DIMS)]
    for orig in (True, False):
        for log in (True, False):
            for grad in (False, True):
                if grad and orig and log:
                    continue
                I = Interp(p, Config())
                outs = I.run(f, args={"orig_flag": const(orig), "log_flag": const(log), "grad_flag": const(grad)})
                rep.used(I)
                rets = [v for _, ctl, v in outs if ctl == "return"]
                sc = f"{'original' if orig else 'transformed'} space, {'log-' if log else ''}density{', with gradient' if grad else ''}"
                if not rets:
                    rep.bad("density", sc, f.where, "no value is returned for this combination of flags")
                    continue
                for v in rets:
                    if v.k == "tup":
                        v = v.a[0] if v.a else v
                    elif grad and v.k == "ite":
                        v = idx(v, const(0))
                    for pos in poss:
                        inside = all(c == 0 for c in pos)
                        for zero, df in itertools.product((False, True), (math.inf,) if grad else (math.inf, 0.0, 5.0, -5.0)):
                            got = Ev(me, x, pos, zero, df).ev(v)
                            if UNK in got or not got:
                                rep.notes.append(f"{sc} {pos} zero={zero} df={df}: value not decided")
                                got = got - {UNK}
                            for g in got:
                                known += 1
                                e = expected(orig, log, inside, zero, g)
                                if e is not True:
                                    kind = "inside the bounds" if inside else "on a hard bound" if all(abs(c) < 2 for c in pos) else "outside the bounds"
                                    if not orig:
                                        kind = "any point"
                                    rep.bad("density", f"{sc}, {kind}" + (", zero density" if zero else ""), f.where, f"{e}, but {describe(g)} is returned")
                                else:
                                    rep.ok("density", f"{sc} {pos} zero={zero} df={df}", f.where)
    rep.at_least("density row classes decided", known, 100)


def expected(orig, log, inside, zero, g):
    """True, or what should have been returned"""
    if orig and not inside:
        z = num(-math.inf) if log else num(0.0)
        return True if g == z else f"the {'log-density must be -inf' if log else 'density must be 0'} outside the hard bounds"
    if zero and g == num(-math.inf if log else 0.0):
        return True
    form = "log" if log else "lin"
    if g[0] != "den":
        return f"the {'log-' if log else ''}density of the mixture is requested"
    if g[1] != form:
        return f"a {'log-' if log else ''}density is requested"
    c = 1 if orig else 0
    if g[2] != c:
        return "the density must be Jacobian-corrected exactly once" if orig else "a transformed-space density must not be Jacobian-corrected"
    if g[3] != frozenset([c]):
        return f"the mixture must be evaluated at the {'transformed' if orig else 'given'} point"
    if orig and g[4] != frozenset([1]):
        return "the Jacobian must be evaluated at the transformed point"
    if not orig and g[4]:
        return "a transformed-space density must not involve the Jacobian"
    return True


def logpdf(p, rep):
    f = p.func(VP + ".log_pdf")
    I = Interp(p, Config(collect=True, opaque=(VP + ".pdf", "VariationalPosterior.pdf"), track_call=lambda n: n.endswith("VariationalPosterior.pdf"), track_store=lambda *a: True))
    I.run(f)
    rep.used(I)
    n = 0
    for e in I.log:
        if e.kind != "call":
            continue
        n += 1
        kws = dict(e.sig[2])
        lf = kws.get("log_flag")
        if lf is None:
            ups = [w.sig[2] for w in I.log if w.kind == "setidx" and w.sig[1] is const("log_flag") and w.sig[0] in kws.values()]
            ups += [y.a[2] for v in kws.values() for y in subterms(v) if y.k == "upd" and y.a[1] is const("log_flag")]
            lf = ups[0] if ups else None
        rep.check(lf is TRUE, "log-flag", "log_pdf delegates", e.where, f"log_pdf asks for log_flag={show(lf) if lf is not None else 'default'}")
    rep.count("log_pdf delegations", n)


def chain(t, me):
    """(net transforms applied to the outside of t, innermost term) for values mapped as a whole"""
    d = 0
    while True:
        if t.k == "call" and t.a[0].endswith(("ParameterTransformer.inverse", "ParameterTransformer.__call__")) and len(t.a[1]) > 1:
            own = t.a[1][0].k == "attr" and t.a[1][0].a[0] is me
            d += (1 if t.a[0].endswith("inverse") else -1) if own else 50
            t = t.a[1][1]
        elif t.k == "call" and t.a[0] in PASS and t.a[1]:
            t = t.a[1][0]
        else:
            return d, t


def leaves(t, d=0):
    if d < 40 and t.k == "ite":
        yield from leaves(t.a[1], d + 1)
        yield from leaves(t.a[2], d + 1)
    elif d < 40 and t.k == "phi":
        for v in t.a[2]:
            yield from leaves(v, d + 1)
    else:
        yield t


def alts(t, me, depth=0):
    """transform depth of every alternative of a value"""
    for l in leaves(t):
        k, inner = chain(l, me)
        if inner.k in ("ite", "phi") and depth < 6:
            for k2, i2 in alts(inner, me, depth + 1):
                yield k + k2, i2
        else:
            yield k, inner


def sample(p, rep):
    f = p.func(VP + ".sample")
    me = sym(f.posonly[0])
    n = 0
    for orig in (True, False):
        I = Interp(p, Config())
        outs = I.run(f, args={"orig_flag": const(orig)})
        rep.used(I)
        for _, ctl, v in outs:
            if ctl != "return":
                continue
            for r in leaves(v):
                if r.k != "tup" or len(r.a) < 2:
                    continue
                for k, inner in alts(r.a[0], me):
                    empty = inner.k == "call" and inner.a[0] in ("np.zeros", "np.empty", "np.ones")
                    if empty:
                        continue
                    n += 1
                    inner_tr = contains(inner, lambda y: y.k == "call" and (y.a[0].endswith(("ParameterTransformer.inverse", "ParameterTransformer.__call__"))))
                    if inner_tr:
                        rep.notes.append("sample: transform inside the sampling expression")
                        continue
                    rep.check(k == (1 if orig else 0), "samples", f"samples in the {'original' if orig else 'transformed'} space", f.where,
                              f"samples requested in the {'original' if orig else 'transformed'} space are mapped {k} time(s) through the inverse transform: {show(inner, 3)}")
    rep.at_least("sample returns", n, 2)


def flag_of(p, q, a, name, st=None):
    v = a.get(name)
    if v is None:
        v = default_of(p, q, name)
    return v


def moments(p, rep):
    f = p.func(VP + ".moments")
    me = sym(f.posonly[0])
    n = 0
    for orig in (True, False):
        for cov in (True, False):
            I = Interp(p, Config(opaque=("VariationalPosterior.sample",)))
            outs = I.run(f, args={"orig_flag": const(orig), "cov_flag": const(cov)})
            rep.used(I)
            for _, ctl, v in outs:
                if ctl != "return":
                    continue
                vs = list(v.a) if v.k == "tup" else [v]
                rep.check(len(vs) == (2 if cov else 1), "moments", f"moments returned with cov_flag={cov}", f.where, f"{len(vs)} value(s) returned")
                for i, m in enumerate(vs):
                    what = ("mean", "covariance")[i] if i < 2 else str(i)
                    sm = [y for y in subterms(m) if y.k == "call" and y.a[0] == "VariationalPosterior.sample"]
                    tr = [y for y in subterms(m) if y.k == "call" and ".ParameterTransformer." in "." + y.a[0]]
                    n += 1
                    if tr:
                        rep.bad("moments", f"{what} in the {'original' if orig else 'transformed'} space is mapped", f.where,
                                "moments do not commute with the transform: a mapped moment is not the moment of the mapped posterior")
                    if orig:
                        rep.check(bool(sm), "moments", f"{what} in the original space is computed from samples", f.where,
                                  f"the original-space {what} is not computed from original-space samples")
                    for y in sm:
                        a = bind(p, y.a[0], y.a[1], y.a[2])
                        fl = flag_of(p, y.a[0], a, "orig_flag")
                        if fl is not None and is_const(fl):
                            rep.check(bool(cval(fl)) == orig, "moments", f"{what} in the {'original' if orig else 'transformed'} space: samples", f.where,
                                      f"{what} requested with orig_flag={orig} uses samples drawn with orig_flag={cval(fl)}")
                        if a.get(f.posonly[0], a.get("self")) is not None and a.get("self") is not me:
                            rep.bad("moments", f"{what}: samples of another posterior", f.where, "samples of another posterior are used")
                        nn = a.get("N")
                        if nn is not None:
                            rep.check(contains(nn, lambda z: z is sym("N")), "moments", f"{what}: number of samples", f.where, f"the number of samples is {show(nn)} instead of the requested N")
                        df = a.get("df")
                        if df is not None and is_const(df) and not math.isinf(cval(df)) and cval(df) != 0:
                            rep.bad("moments", f"{what}: heavy-tailed samples", f.where, "the moments are those of a heavy-tailed variant, not of the posterior")
                    if orig and sm:
                        # mean over the sample axis
                        rd = [y for y in subterms(m) if y.k == "call" and y.a[0] in ("np.mean", "np.median", "np.average", "np.std", "np.var", "np.sum", "np.cov", "np.nanmean", "np.corrcoef")
                              and contains(y, lambda z: z in sm)]
                        for y in rd:
                            if y.a[0] in ("np.median", "np.std", "np.var", "np.corrcoef"):
                                rep.bad("moments", f"{what} statistic", f.where, f"{y.a[0]} is not the {what}")
                            ax = dict(y.a[2]).get("axis", y.a[1][1] if len(y.a[1]) > 1 and y.a[0] == "np.mean" else None)
                            if y.a[0] in ("np.mean", "np.average"):
                                tr_ = any(z.k == "call" and z.a[0] == "np.transpose" or z.k == "attr" and z.a[1] == "T" for z in subterms(y.a[1][0]))
                                if ax is not None and is_const(ax) and not tr_:
                                    rep.check(cval(ax) in (0, -2), "moments", f"{what} axis", f.where, "the mean is not taken over the samples")
    rep.at_least("moments values", n, 4)


def mode(p, rep):
    f = p.func(VP + ".mode")
    me = sym(f.posonly[0])
    n = 0
    for orig in (True, False):
        trk = lambda q: q in ("VariationalPosterior.sample", "VariationalPosterior.pdf", "VariationalPosterior.log_pdf", "ParameterTransformer.inverse", "ParameterTransformer.__call__") or q.endswith("minimize")
        I = Interp(p, Config(collect=True, track_call=trk, track_store=lambda *a: True))
        outs = I.run(f, args={"orig_flag": const(orig)})
        rep.used(I)
        sp = "original" if orig else "transformed"
        log = list(I.log)
        for e in list(log):
            if e.kind == "call" and e.sig[0].endswith("minimize"):
                a = list(e.sig[1]) + [v for k, v in e.sig[2] if k == "fun"]
                for fn in a[:1] + [v for k, v in e.sig[2] if k == "fun"]:
                    if fn.k == "fn" and fn in I.closures:
                        fs, env = I.closures[fn][0], I.closures[fn][1]
                        try:
                            J = Interp(p, Config(collect=True, track_call=trk))
                            J.closures = dict(I.closures)
                            J.types = dict(I.types)
                            args = {k: const(orig) for k in fs.posonly if k == "orig_flag"}
                            J.run(fs, args=args, closure_env=env, selfcls=None)
                            log += J.log
                            rep.used(J)
                        except AnalysisBroken:
                            rep.notes.append("objective of the mode search not interpreted")
        for e in log:
            if e.kind != "call":
                continue
            q = e.sig[0]
            if q in ("VariationalPosterior.sample", "VariationalPosterior.pdf", "VariationalPosterior.log_pdf"):
                a = bind(p, e.sig[0], e.sig[1], e.sig[2])
                fl = a.get("orig_flag")
                if fl is None and "kwargs" not in a:
                    fl = dict(e.sig[2]).get("orig_flag") or TRUE
                if fl is not None and is_const(fl):
                    n += 1
                    rep.check(bool(cval(fl)) == orig, "mode", f"mode in the {sp} space: {q.split('.')[-1]}", e.where, f"the mode in the {sp} space is searched with {q}(orig_flag={cval(fl)})")
            elif q == "ParameterTransformer.inverse":
                n += 1
                rep.check(orig, "mode", f"mode in the {sp} space: starting points", e.where, "a transformed-space search is started from mapped points")
            elif q == "ParameterTransformer.__call__":
                rep.bad("mode", f"mode in the {sp} space: forward transform", e.where, "the search space is transformed")
            elif q.endswith("minimize"):
                b = dict(e.sig[2]).get("bounds")
                if b is not None and not orig:
                    rep.check(b is NONE or not contains(b, lambda y: y.k == "attr" and y.a[1] in ("lb_orig", "ub_orig")), "mode", "mode in the transformed space: bounds", e.where, "a transformed-space search is bounded by the original bounds")
        for st, ctl, v in outs:
            if ctl != "return":
                continue
            if not orig:
                for l in leaves(v):
                    if l.k == "attr" and l.a[0] is me and l.a[1] == "_mode":
                        rep.bad("mode", "mode in the transformed space: cache", f.where, "the cached original-space mode is returned for the transformed space")
        for e in I.log:
            if e.kind == "setattr" and e.sig[1] == "_mode" and e.sig[0] is me and e.sig[2] is not NONE:
                rep.check(orig, "mode", "the cache holds the original-space mode", e.where, "the transformed-space mode is stored in the cache of the original-space mode")
    rep.at_least("mode calls", n, 3)


def distances(p, rep):
    """two posteriors may have different transforms: only their original-space representations can be compared"""
    n = 0
    for q in ("mtv", "kl_div"):
        f = p.func(f"{VP}.{q}")
        I = Interp(p, Config(collect=True, track_call=lambda z: z in ("VariationalPosterior.sample", "VariationalPosterior.pdf", "VariationalPosterior.log_pdf", "VariationalPosterior.moments")))
        I.run(f)
        rep.used(I)
        for e in I.log:
            if e.kind != "call":
                continue
            a = bind(p, e.sig[0], e.sig[1], e.sig[2])
            fl = a.get("orig_flag") or dict(e.sig[2]).get("orig_flag") or TRUE
            if is_const(fl):
                n += 1
                rep.check(bool(cval(fl)), "distances", f"{q}: {e.sig[0]} of {show(e.sig[1][0], 2)}", e.where,
                          "two posteriors are compared in a transformed space, which need not be the same for both")
            if e.sig[0] in ("VariationalPosterior.pdf", "VariationalPosterior.log_pdf"):
                lf = a.get("log_flag")
                rep.count("pdf calls in distances", rep.counts.get("pdf calls in distances", 0) + 1)
    rep.at_least("distance calls", n, 4)


def defaults(p, rep):
    for q in ("sample", "pdf", "moments", "mode"):
        qn = f"{VP}.{q}"
        d = default_of(p, qn, "orig_flag")
        if d is not None:
            rep.check(d is TRUE, "default-space", f"{q}: default space", p.func(qn).where, f"the documented default is the original space, the code defaults to orig_flag={show(d)}")
    d = default_of(p, VP + ".pdf", "log_flag")
    if d is not None:
        rep.check(d is FALSE, "default-space", "pdf: default scale", p.func(VP + ".pdf").where, f"the documented default is the density, the code defaults to log_flag={show(d)}")


def run(p, rep):
    rep.rule("density", "For every flag combination and row class, the returned (log-)density has exactly the corrections, evaluation point and outside value the space requires.")
    rep.rule("log-flag", "log_pdf is pdf with log_flag=True.")
    rep.rule("samples", "Samples go through the inverse transform once in the original space and never in the transformed space.")
    rep.rule("moments", "Original-space moments are statistics of N original-space samples; transformed-space moments involve no map.")
    rep.rule("mode", "The mode search stays in the requested space, and only the original-space mode is cached.")
    rep.rule("distances", "Distances between posteriors use original-space samples, densities and moments on both sides.")
    rep.rule("default-space", "Public queries default to the original space and to densities.")
    pdf(p, rep)
    logpdf(p, rep)
    sample(p, rep)
    moments(p, rep)
    mode(p, rep)
    distances(p, rep)
    defaults(p, rep)
