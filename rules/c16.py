"""C16: posterior parameters stay normalized, paired and consistent with caches."""
import ast
import itertools

from engine.absint import Config, Interp, State
from engine.layout import A, Lay
from engine.lib import *
from engine.poly import Norm
from engine.program import AnalysisBroken
from engine.terms import *
from engine.terms import T, mk
from rules.c15 import ATTR, FIELDS, SHP, masks, mk_lay, mname, preset, spec

EXPLANATION = (
    "Who-may-write analysis over every assignment to a posterior's means, weights, scales, length scales, component count or cached mode, and abstract evaluation of what is written. "
    "(1) The final values stored by set_parameters, get_parameters and the warp are evaluated in a domain of uniform arrays (symbolic sizes): weights must reduce to 1/K, length scales to 1 and scales must absorb the removed factor; "
    "the weights' normal form V/sum(V) with the same V is checked term by term. (2) Every group of writes that changes the number of components changes count, weights, means and scales by the same symbolic number of columns, "
    "on the component axis, with the same component index. (3) After every parameter write the cached mode is None on every exit, or set_parameters follows, or the object never leaves the function. "
    "(4) Log-weights are read only after being set from the vector the weights were set from.")

VP = "VariationalPosterior"
PAR = ("mu", "w", "sigma", "lambd", "K")
SUMS = {"np.sum", "sum", "np.nansum"}


# -- uniform evaluation ----------------------------------------------------------------------------------------------------------
class Uni:
    """value of an array all of whose entries of one parameter are equal: polynomials over the parameters' symbols and the sizes"""

    def __init__(self, L, syms):
        self.L, self.syms, self.memo = L, syms, {}

    def poly(self, t):
        x = self.go(t)
        return None if x is None else Norm(self.L._subst).poly(x)

    def src_sym(self, t):
        v = self.L.ev(t)
        if v is None or len(v.src) != 1:
            return None
        s, = v.src
        return self.syms.get((s, v.lvl))

    def go(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._go(t)
        self.memo[t] = r
        return r

    def _go(self, t):
        L = self.L
        l = L.leaf(t)
        if l is not None:
            return self.src_sym(t)
        if L.dim(t) is not None or is_const(t):
            return t
        k, a = t.k, t.a
        if k == "ite":
            c = L.truth(a[0])
            if c is not None:
                return self.go(a[1] if c else a[2])
            x, y = self.go(a[1]), self.go(a[2])
            return x if x is y else None
        if k == "upd":
            return self.go(a[2])
        if k in ("add", "mul"):
            xs = [self.go(x) for x in a]
            return None if any(x is None for x in xs) else mk(k, *xs)
        if k == "neg":
            x = self.go(a[0])
            return x and mk("neg", x)
        if k == "bin":
            x, y = self.go(a[1]), self.go(a[2])
            return None if x is None or y is None else mk("bin", a[0], x, y)
        if k == "idx" or k == "attr" and a[1] == "T":
            s = self.src_sym(t)
            return s if s is not None else self.go(a[0]) if k == "attr" or not is_const(a[1]) else None
        if k == "call":
            f, args = a[0], a[1]
            kws = dict(a[2])
            if f in SHAPE or f in ("np.ravel", "np.reshape", "np.flatten", "np.transpose", "np.squeeze", "np.atleast_1d", "np.atleast_2d", "np.asarray", "np.expand_dims", "np.ascontiguousarray"):
                return self.go(args[0]) if args else None
            if f in SUMS and args:
                v = L.ev(args[0])
                x = self.go(args[0])
                if v is None or x is None:
                    return None
                ax = kws.get("axis", args[1] if len(args) > 1 else NONE)
                if ax is NONE:
                    n = [L._axterm(y) for y in v.axes]
                elif is_const(ax) and isinstance(cval(ax), int) and -len(v.axes) <= cval(ax) < len(v.axes):
                    n = [L._axterm(v.axes[cval(ax)])]
                else:
                    return None
                return None if any(y is None for y in n) else mk("mul", x, *n) if n else x
            if f in ("np.mean", "np.max", "np.min", "np.amax", "np.amin", "max", "min", "np.median", "np.average") and args:
                return self.go(args[0])
            if f == "np.linalg.norm" and len(args) == 1 and not kws:
                v, x = L.ev(args[0]), self.go(args[0])
                n = None if v is None else [L._axterm(y) for y in v.axes]
                if x is None or n is None or any(y is None for y in n):
                    return None
                return mk("mul", x, call("np.sqrt", (mk("mul", const(1), *n),)))
            if f in ("np.exp", "np.log", "math.exp", "math.log"):
                s = self.src_sym(t)
                if s is not None and self.src_sym(args[0]) is None:
                    return s
                x = self.go(args[0])
                if x is None:
                    return None
                inv = "np.log" if f.endswith("exp") else "np.exp"
                if x.k == "call" and x.a[0] == inv:
                    return x.a[1][0]
                return call("np.exp" if f.endswith("exp") else "np.log", (x,))
            if f in ("np.sqrt", "np.square", "np.abs", "np.power", "np.multiply", "np.divide", "np.true_divide", "np.add", "np.subtract", "math.sqrt"):
                xs = [self.go(x) for x in args]
                return None if any(x is None for x in xs) else call(f, xs)
        return None


def known(p, syms):
    """polynomial over the given symbols and sizes only"""
    return p is not None and all(a.k == "sym" and (a in syms or a.a[0].startswith("#")) for m in p for a, e in m)


LS, SS, VS, CS = sym("%lambd"), sym("%sigma"), sym("%w"), sym("%c")


def uniform_check(rep, L, syms, st, base, where, c, want, rule="normal"):
    U = Uni(L, syms)
    N = Norm(L._subst)
    n = 0
    for an, exp, txt in want:
        v = st.store.get(attr(base, an))
        if v is None:
            rep.bad(rule, f"{c}: {an}", where, f"{an} is left as it is, not {txt}")
            continue
        q = U.poly(v)
        if q is None or not known(q, {LS, SS, VS, CS}):
            rep.notes.append(f"{c}: {an} not evaluated")
            continue
        n += 1
        rep.check(q == N.poly(exp), rule, f"{c}: {an}", where, f"for equal entries {an} evaluates to {showq(q)} instead of {showq(N.poly(exp))}: not {txt}")
    return n


def showq(q):
    out = []
    for m, c in q.items():
        s = "*".join((a.a[0].lstrip("#%") if a.k == "sym" else show(a, 2)) + (f"^{e}" if e != 1 else "") for a, e in sorted(m, key=lambda z: str(z[0].a[0])))
        out.append(s if c == 1 and s else f"{c}" + ("*" + s if s else ""))
    return " + ".join(out) if out else "0"


# -- weights ------------------------------------------------------------------------------------------------------------------------
def flat(t):
    """strip value-preserving shape wrappers, keeping the order of entries (weights are a vector)"""
    while True:
        if t.k == "call" and t.a[0] in (SHAPE | {"np.ravel", "np.reshape", "np.flatten", "np.transpose", "np.squeeze", "np.atleast_2d", "np.asarray"}) and t.a[1]:
            t = t.a[1][0]
        elif t.k == "attr" and t.a[1] == "T":
            t = t.a[0]
        elif t.k == "idx" and t.a[1].k == "tup" and all(x.k == "slice" and all(y is NONE for y in x.a) or x is NONE or x.k == "mod" for x in t.a[1].a):
            t = t.a[0]
        else:
            return t


def ratio(t):
    """(numerator, denominator) of a quotient, also written as a product with a reciprocal"""
    if t.k == "bin" and t.a[0] == "/":
        return t.a[1], t.a[2]
    if t.k == "call" and t.a[0] in ("np.divide", "np.true_divide") and len(t.a[1]) == 2:
        return t.a[1]
    if t.k == "mul":
        for i, y in enumerate(t.a):
            if y.k == "bin" and y.a[0] == "/" and is_const(y.a[1]) and cval(y.a[1]) == 1:
                rest = t.a[:i] + t.a[i + 1:]
                return (rest[0] if len(rest) == 1 else mk("mul", *rest)), y.a[2]
    return None


def unit_sum(t, d=0, trust=True):
    """True: sums to one; False: definitely not normalized; None: unknown"""
    t = flat(t)
    if not trust and t.k in ("attr", "idx", "havoc"):
        return False
    if d > 12:
        return None
    if t.k == "ite":
        rs = [unit_sum(x, d + 1, trust) for x in t.a[1:]]
        return False if False in rs else (True if all(rs) else None)
    if t.k == "phi":
        rs = [unit_sum(x, d + 1, trust) for x in t.a[2]]
        return False if False in rs else (True if all(rs) else None)
    if t.k in ("attr", "havoc") and (t.a[1] == "w"):
        return True
    r = ratio(t)
    if r is not None:
        n, m = flat(r[0]), flat(r[1])
        if m.k == "call" and m.a[0] in SUMS and m.a[1]:
            if flat(m.a[1][0]) is n:
                return True
            if m.a[1][0].k in ("bin", "mul") and contains(m.a[1][0], lambda y: y is n) and not m.a[2]:
                return False
            if same_value(flat(m.a[1][0]), n):
                return True
            z = flat(m.a[1][0])
            return False if n.k == "mul" and any(flat(x) is z for x in n.a) or z.k in ("attr", "havoc") and z is not n else None
        if m.k == "call" and m.a[0] in ("np.max", "np.amax", "np.mean", "np.min", "np.linalg.norm", "max", "np.median", "len", "np.size") or m.k == "attr" and m.a[1] in ("K", "D"):
            if not (n.k == "call" and n.a[0] == "np.ones"):
                return False
        if n.k == "call" and n.a[0] in ("np.ones",) and n.a[1]:
            s = n.a[1][0]
            dims = list(s.a) if s.k in ("tup", "lst") else [s]
            dims = [x for x in dims if not (is_const(x) and cval(x) == 1)]
            return (m is dims[0]) if len(dims) == 1 else None
    if t.k == "call" and t.a[0] == "np.full" and len(t.a[1]) > 1:
        s, v = t.a[1][0], t.a[1][1]
        dims = list(s.a) if s.k in ("tup", "lst") else [s]
        dims = [x for x in dims if not (is_const(x) and cval(x) == 1)]
        r = ratio(v)
        if len(dims) == 1 and r is not None and is_const(r[0]) and cval(r[0]) == 1:
            return r[1] is dims[0]
        return None
    if t.k == "call" and t.a[0] in ("np.delete", "np.hstack", "np.concatenate", "np.append", "np.exp", "np.ones", "np.maximum", "np.random.rand", "np.abs"):
        return False
    if t.k == "mul" and any(unit_sum(x, d + 1) for x in t.a) and len(t.a) > 1:
        return False
    if t.k == "upd":
        return None
    return None


def values(p, rep):
    n = 0
    D, K = "D", "K"
    for q in ("set_parameters", "get_parameters"):
        f = p.func(f"{VP}.{q}")
        me = sym(f.posonly[0])
        for mask in masks():
            for raw in (True, False):
                s = State()
                preset(s, me, mask)
                I = Interp(p, Config(collect=True, track_store=lambda *a: True))
                outs = I.run(f, args={"raw_flag": const(raw)}, state=s)
                rep.used(I)
                c = f"{q}({'raw' if raw else 'natural'}) with {mname(mask)} optimized"
                th = sym(f.posonly[1]) if q == "set_parameters" else None
                lv = 1 if raw else 0
                L = mk_lay(me, I, (), theta=(th, spec(mask, lv)) if th is not None else None)
                syms = {("lambd", 0): LS, ("sigma", 0): SS, ("w", 0): VS, ("theta.lambd", 0): LS, ("theta.sigma", 0): SS, ("theta.weights", 0): VS}
                for st, ctl, v in outs:
                    if ctl == "raise":
                        continue
                    want = [("lambd", const(1), "normalized to unit root mean square"), ("sigma", mk("mul", SS, LS), "rescaled by the removed length-scale factor")]
                    n += uniform_check(rep, L, syms, st, me, f.where, c, want)
                    if mask[3]:
                        w = st.store.get(attr(me, "w"))
                        u = unit_sum(w, 0, False) if w is not None else None
                        if w is None:
                            rep.bad("weights", f"{c}: weights", f.where, "the weights are left as they are")
                        elif u is None:
                            rep.notes.append(f"{c}: weights not in a recognized normal form: {show(w, 3)[:120]}")
                        else:
                            n += 1
                            rep.check(u and w.k != "attr", "weights", f"{c}: weights", f.where, f"the weights are stored as {show(w, 4)[:140]}, which does not sum to one")
                    norm_kind(rep, st, me, f.where, c)
    f = p.func(f"{VP}.set_parameters")
    me = sym(f.posonly[0])
    for mask in masks():
        s = State()
        preset(s, me, mask)
        I = Interp(p, Config(track_store=lambda *a: True))
        for st, ctl, v in I.run(f, args={"raw_flag": FALSE}, state=s):
            if ctl == "raise":
                n += 1
                ws = [e for e in st.events if e.kind == "setattr" and e.sig[0] is me and e.sig[1] in PAR + ("eta",) and e.sig[2] is not attr(me, e.sig[1])]
                rep.check(not ws, "refuse-first", f"set_parameters with {mname(mask)} optimized", ws[0].where if ws else f.where,
                          f"{ws[0].sig[1] if ws else ''} is stored before invalid parameters are refused")
        rep.used(I)
    f = p.func("whitening.warp_gp_and_vp")
    I = Interp(p, Config(collect=True, track_store=lambda *a: True))
    outs = I.run(f)
    rep.used(I)
    for st, ctl, v in outs:
        if ctl != "return":
            continue
        vp = v.a[0] if v.k in ("tup", "lst") else idx(v, const(0))

        def dim(t):
            if t.k == "attr" and t.a[1] in ("D", "K"):
                return t.a[1]
            return None

        def leaf(t):
            if t.k == "idx" and is_const(t.a[1]) and t.a[0].k == "call" and t.a[0].a[0].endswith("unscent_warp"):
                return A([("K",), ("D",)], {"c"}) if cval(t.a[1]) == 1 else A([("K",), ("D",)], {"m"})
            if t.k == "attr" and t.a[1] in SHP:
                return A(SHP[t.a[1]], {t.a[1]})
            return None
        L = Lay(leaf, dim, phis=I.phi_alts)
        syms = {("c", 0): CS}
        n += uniform_check(rep, L, syms, st, vp, f.where, "warped posterior", [("lambd", const(1), "normalized"), ("sigma", CS, "rescaled by the removed length-scale factor")])
        lv, sv = st.store.get(attr(vp, "lambd")), st.store.get(attr(vp, "sigma"))
        if lv is not None and sv is not None:
            roots = [y for y in subterms(lv) if y.k == "call" and y.a[0] in ("np.sqrt", "np.linalg.norm") or y.k == "bin" and y.a[0] == "**" and is_const(y.a[2]) and cval(y.a[2]) == 0.5]
            if roots:
                n += 1
                rep.check(any(contains(sv, lambda z: z is y) for y in roots), "normal", "warped posterior: scales divided by the length scales", f.where,
                          "the scales are computed without the normalized length scales, so their product is not the warped scale")
        w = st.store.get(attr(vp, "w"))
        if w is None:
            rep.notes.append("warped posterior: weights not stored")
        else:
            u = unit_sum(w)
            if u is not None:
                n += 1
                rep.check(u, "weights", "warped posterior: weights", f.where, f"the weights are stored as {show(w, 4)[:140]}, which does not sum to one")
            else:
                rep.notes.append("warped posterior: weights not in a recognized normal form")
        for t, msg in L.errs[:2]:
            rep.bad("normal", "warped posterior: " + msg, f.where, f"the code {msg}")
    rep.at_least("normalized values", n, 40)


def norm_kind(rep, st, me, where, c):
    """the divisor of the length scales is a root mean square: squares inside, root outside"""
    v = st.store.get(attr(me, "lambd"))
    if v is None:
        return
    r = ratio(v)
    if r is None:
        return
    d = r[1]
    red = [x for x in subterms(d) if x.k == "call" and x.a[0] in (SUMS | {"np.mean", "np.max", "np.amax", "np.min", "np.amin", "np.prod", "np.median", "max", "min"}) and contains(x, lambda y: y.k in ("attr", "idx"))]
    top = [x for x in red if not any(x is not y and contains(y, lambda z: z is x) for y in red)]
    if len(top) != 1:
        return
    x = top[0]
    sq = [y for y in subterms(x.a[1][0]) if y.k == "bin" and y.a[0] == "**" and is_const(y.a[2]) and cval(y.a[2]) == 2 or y.k == "call" and y.a[0] in ("np.square", "np.linalg.norm")]
    arg = flat(x.a[1][0])
    isq = bool(sq) or arg.k == "mul" and len(arg.a) == 2 and flat(arg.a[0]) is flat(arg.a[1]) or arg.k == "call" and arg.a[0] == "np.multiply"
    if x.a[0] in SUMS | {"np.mean"} and isq:
        rep.ok("normal", f"{c}: root mean square", where)
    elif x.a[0] not in SUMS | {"np.mean"} or not isq and not contains(x, lambda y: y.k == "call" and y.a[0] not in SHAPE | {"np.exp", "np.ravel", "np.reshape", "np.transpose"} and y is not x):
        rep.bad("normal", f"{c}: kind of normalization", where, f"the length scales are divided by {show(d, 4)[:120]}, not by their root mean square")


# -- pairing ------------------------------------------------------------------------------------------------------------------------
class Cols:
    """number of columns (length of the last axis) of an array, as a polynomial over component counts"""

    def __init__(self, truth=None, subst=None, trips=None):
        self.truth, self.memo, self.subst, self.trips = truth, {}, subst, trips or {}
        self.N = Norm(self._s)
        self.loops = {}
        self.scalars, self.errs = {"K_new", "K", "D"}, []

    def _s(self, t):
        if self.subst is not None:
            r = self.subst(t)
            if r is not None:
                return r
        if t.k == "havoc" and len(t.a) > 2 and t.a[1] == "K":
            t = attr(t.a[2], "K")
            return self._s(t) or t
        if t.k == "attr" and t.a[1] == "K" and t.a[0].k == "call" and t.a[0].a[0] in ("copy.deepcopy", "copy.copy"):
            return sym("K of the copy of " + show(t.a[0].a[1][0], 2))
        if t.k == "idx" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]) and cval(t.a[1]) in (1, -1):
            r = self.n(t.a[0].a[0])
            return mk("poly", frozenset(r.items())) if r is not None else None
        return None

    def size(self, t):
        return self.N.poly(t)

    def num(self, c):
        return self.N.poly(const(c))

    def n(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._n(t)
        self.memo[t] = r
        return r

    def comb(self, rs):
        one = self.num(1)
        if any(r is None for r in rs):
            return None
        big = [r for r in rs if r != one]
        if not big:
            return one
        if all(r == big[0] for r in big):
            return big[0]
        self.errs.append((big[0], next(r for r in big if r != big[0])))
        return None

    def _n(self, t):
        k, a = t.k, t.a
        if t in self.loops:
            return self.loops[t]
        if k == "const" or k == "sym" and a[0] in self.scalars or k in ("attr", "havoc") and a[1] in ("K", "D"):
            return self.num(1)
        if k in ("attr", "havoc"):
            nm, b = (a[1], a[0]) if k == "attr" else (a[1], a[2] if len(a) > 2 else None)
            if b is not None and nm in ("mu", "w", "sigma", "eta"):
                return self.size(attr(b, "K"))
            if nm == "lambd":
                return self.num(1)
            return None
        if k == "ite":
            c = self.truth(a[0]) if self.truth else None
            if c is not None:
                return self.n(a[1] if c else a[2])
            x, y = self.n(a[1]), self.n(a[2])
            return x if x is not None and x == y else None
        if k == "phi":
            if isinstance(a[0], tuple) and a[0] and a[0][0] == "loopexit" and len(a[2]) == 2:
                ini, body = a[2]
                lp = [x for x in subterms(body) if x.k == "loop" and x.a[1] == a[1]]
                i0 = self.n(ini)
                if not lp or i0 is None:
                    return None
                lpt = lp[0]
                symb = self.N.poly(sym("%loop"))
                C = Cols(self.truth, self.subst, self.trips)
                C.loops = dict(self.loops)
                for x in lp:
                    C.loops[x] = symb
                # other loop-carried arrays of the same loop start from the same count
                for x in subterms(body):
                    if x.k == "loop" and x not in C.loops:
                        C.loops[x] = symb
                b = C.n(body)
                if b is None:
                    return None
                from engine.poly import _add, _mul
                d = _add(b, symb, -1)
                if not d:
                    return i0
                if any(z is sym("%loop") for m in d for z, _ in m):
                    return None
                tr = self.trips(lpt) if callable(self.trips) else None
                if tr is None:
                    return None
                return _add(i0, _mul(d, self.size(tr)))
            xs = [self.n(x) for x in a[2]]
            return xs[0] if xs and all(x is not None and x == xs[0] for x in xs) else None
        if k == "upd":
            return self.n(a[0])
        if k in ("add", "mul"):
            return self.comb([self.n(x) for x in a])
        if k == "neg":
            return self.n(a[0])
        if k == "bin":
            return self.comb([self.n(x) for x in a[1:]])
        if k == "attr" and a[1] == "T" or k == "call" and a[0] == "np.transpose" and len(a[1]) == 1:
            return self.rows(a[0] if k == "attr" else a[1][0])
        if k == "idx":
            ks = list(a[1].a) if a[1].k == "tup" else [a[1]]
            last = ks[-1]
            if last.k == "slice":
                lo, hi, stp = last.a
                if lo is NONE and hi is NONE:
                    return self.n(a[0]) if len(ks) > 1 else None
                if hi is not NONE and stp is NONE:
                    return self.size(mk("add", hi, mk("neg", lo)) if lo is not NONE else hi)
            if last.k in ("elem", "const") or last.k == "call" and "randint" in last.a[0] or last.k in ("loop", "idx"):
                return self.num(1)
            return None
        if k == "call":
            f, args, kws = a[0], a[1], dict(a[2])
            if f in ("np.delete",) and len(args) > 1:
                r = self.n(args[0])
                from engine.poly import _add
                i = args[1]
                if i.k in ("lst", "tup", "slice", "cmp") or r is None:
                    return None
                return _add(r, self.num(1), -1)
            if f in ("np.hstack", "np.concatenate", "np.append", "np.column_stack"):
                from engine.poly import _add
                xs = list(args[0].a) if f != "np.append" and args and args[0].k in ("tup", "lst") else list(args[:2])
                rs = [self.n(x) for x in xs]
                if any(r is None for r in rs):
                    return None
                out = rs[0]
                for r in rs[1:]:
                    out = _add(out, r)
                return out
            if f in ("np.ones", "np.zeros", "np.empty", "np.full"):
                s = args[0] if args else kws.get("shape")
                return None if s is None else self.size((s.a[-1] if s.k in ("tup", "lst") else s))
            if f in ("np.random.randn", "np.random.rand"):
                return self.size(args[-1]) if args else self.num(1)
            if f in ("np.random.standard_normal", "np.random.normal", "np.random.uniform", "np.random.random"):
                s = kws.get("size", args[0] if args and f.endswith(("standard_normal", "random")) else None)
                return None if s is None else self.size(s.a[-1] if s.k in ("tup", "lst") else s)
            if f in ("np.copy", "np.asarray", "np.array", "copy.deepcopy", "copy.copy", "np.exp", "np.sqrt", "np.log", "np.abs") and args:
                return self.n(args[0])
            if f in ("np.mean", "np.sum", "np.var", "np.std", "np.max", "np.min", "np.prod", "float", "np.item", "np.random.randint", "math.sqrt", "len") and not kws.get("axis"):
                return self.num(1)
            if f == "np.reshape" and len(args) > 1:
                sh = args[1].a if args[1].k in ("tup", "lst") else args[1:]
                if sh and is_const(sh[-1]) and cval(sh[-1]) == -1 and is_const(sh[0]) and cval(sh[0]) == 1:
                    return self.n(args[0])
                if sh and not (is_const(sh[-1]) and cval(sh[-1]) == -1):
                    return self.size(sh[-1])
            return None
        return None

    def rows(self, t):
        """length of the first axis"""
        if t.k == "idx":
            ks = list(t.a[1].a) if t.a[1].k == "tup" else [t.a[1]]
            k = ks[0]
            if k.k == "idx" and (k.a[1].k == "slice"):
                lo, hi, _ = k.a[1].a
                if hi is not NONE:
                    return self.size(mk("add", hi, mk("neg", lo)) if lo is not NONE else hi)
            if k.k == "slice" and k.a[1] is not NONE:
                lo, hi, _ = k.a
                return self.size(mk("add", hi, mk("neg", lo)) if lo is not NONE else hi)
            if k.k == "idx":
                # order[idx_order[0:n]]
                return self.rows(mk("idx", t, k.a[1])) if k.a[1].k == "idx" else None
        if t.k == "call" and t.a[0] in ("np.copy", "np.asarray") and t.a[1]:
            return self.rows(t.a[1][0])
        return None


def writers(p):
    """functions that assign a posterior's parameters (not the transform's or the GP's)"""
    out = {}
    for f in p.all_func_nodes():
        if f.cls is not None and f.cls.name != VP and "self" in f.posonly[:1]:
            skip = {"self"}
        else:
            skip = set()
        for b, n, node in attr_writes(f):
            if n in PAR + ("_mode",):
                r = b
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                txt = ast.unparse(b)
                if isinstance(b, ast.Name) and b.id in skip:
                    continue
                if "transform" in txt or "gp" in txt.split("."):
                    continue
                for g in owners(p, f):
                    out.setdefault(g, []).append((txt, n, node))
    return out


def owners(p, f, seen=()):
    """functions in which a write of f is analysed: a new helper is analysed inside its callers"""
    if f.qual in BASELINE or f.qual in seen:
        return [f]
    out = []
    for c in sorted(callers_of(p, f)):
        g = p.functions.get(c)
        if g is not None and g is not f:
            out += [x for x in owners(p, g, seen + (f.qual,)) if x not in out]
    return out or [f]


FRESH_LOCAL = {
    "_vb_init": "starting points: every consumer (the sieve, the optimizer) sets the parameters of its own copy before use",
    "active_importance_sampling": "the smoothed proposal never leaves the function and its mode is never asked for",
}


def counts(p, rep):
    n = 0
    W = writers(p)
    rep.count("functions writing posterior parameters", len(W))
    for f in sorted(W, key=lambda g: g.qual):
        if f.cls is not None and f.cls.name == VP:
            continue
        names = {x for _, x, _ in W[f]}
        if "K" not in names and not any(isinstance(nd, ast.Assign) for _, _, nd in W[f]):
            continue
        mode = f.qual.split(".")[-1]
        if mode == "_vb_init":
            continue
        I = Interp(p, Config(collect=True, track_store=lambda b, k: True))
        I.run(f)
        rep.used(I)
        groups = {}
        for e in I.log:
            if e.kind == "setattr" and e.sig[1] in PAR[:3] + ("K", "eta"):
                if not vp_like(I, e.sig[0]):
                    continue
                groups.setdefault((e.sig[0], tuple(e.loops) if e.loops else ()), []).append(e)
        for (b, loops), es in groups.items():
            C = Cols()
            kb = C.size(attr(b, "K"))
            d, where = {}, {}
            idxs = {}
            for e in es:
                v = e.sig[2]
                r = C.size(v) if e.sig[1] == "K" else C.n(v)
                where[e.sig[1]] = e.where
                from engine.poly import _add
                if r is None:
                    d[e.sig[1]] = None
                else:
                    d[e.sig[1]] = _add(r, kb, -1)
                idxs[e.sig[1]] = del_index(v)
                ax = del_axis(v)
                if e.sig[1] == "mu" and v.k == "call" and v.a[0] == "np.delete":
                    n += 1
                    rep.check(ax in (1, -1), "paired", f"{show_base(b)}: axis of the removed mean", e.where, "a removed component deletes a coordinate of the means (or flattens them), not a column")
                if e.sig[1] in ("w", "sigma", "eta") and v.k == "call" and v.a[0] == "np.delete":
                    rep.check(ax in (None, 1, -1), "paired", f"{show_base(b)}: axis of the removed {e.sig[1]}", e.where, "a removed component deletes along the wrong axis")
            ch = {k: x for k, x in d.items() if x}
            unknown = [k for k, x in d.items() if x is None]
            if not ch:
                continue
            ref = d.get("K") or next(iter(ch.values()))
            for an in ("K", "w", "mu", "sigma"):
                c = f"{show_base(b)}: {an} when the number of components changes"
                if an not in d:
                    n += 1
                    rep.bad("paired", c, es[0].where, f"the number of components changes ({', '.join(sorted(ch))}) but {an} is not updated with it")
                elif d[an] is None:
                    rep.notes.append(c + " not counted")
                else:
                    n += 1
                    rep.check(d[an] == ref, "paired", c, where[an], f"{an} changes by {showq(d[an])} components where others change by {showq(ref)}")
            ii = {k: x for k, x in idxs.items() if x is not None}
            if len(ii) > 1:
                x0 = ii.get("w", next(iter(ii.values())))
                for an, x in ii.items():
                    n += 1
                    rep.check(x is x0, "paired", f"{show_base(b)}: removed {an}", where[an], f"{an} of a different component is removed")
    rep.at_least("count changes", n, 8)


def del_index(v):
    while v.k == "call" and v.a[0] in ("np.reshape", "np.ravel", "np.atleast_2d", "np.copy") and v.a[1]:
        v = v.a[1][0]
    return v.a[1][1] if v.k == "call" and v.a[0] == "np.delete" and len(v.a[1]) > 1 else None


def del_axis(v):
    if v.k == "call" and v.a[0] == "np.delete":
        x = dict(v.a[2]).get("axis", v.a[1][2] if len(v.a[1]) > 2 else None)
        return cval(x) if x is not None and is_const(x) else None
    return None


def show_base(b):
    if b.k == "call" and b.a[0] in ("copy.deepcopy", "copy.copy"):
        return "copied posterior"
    if b.k == "attr":
        return "posterior " + b.a[1]
    return "posterior"


def vp_like(I, b):
    c = I.cls_of(b)
    if c == VP:
        return True
    if c:
        return False
    x = b
    while x.k == "call" and x.a[0] in ("copy.deepcopy", "copy.copy") and x.a[1]:
        x = x.a[1][0]
    s = show(x, 2)
    return "vp" in s and "transform" not in s


def stats_follow(p, rep):
    """per-component statistics kept while pruning lose the same component on the component axes"""
    f = p.func("variational_optimization.optimize_vp")
    I = Interp(p, Config(collect=True, track_store=lambda *a: True, track_call=lambda q: q == "np.delete"))
    outs = I.run(f)
    rep.used(I)
    ref = None
    for e in I.log:
        if e.kind == "setattr" and e.sig[1] in ("w", "sigma", "mu") and del_index(e.sig[2]) is not None and ref is None:
            ref = del_index(e.sig[2])
    n = 0
    if ref is not None:
        for e in I.log:
            if e.kind != "call" or len(e.sig[1]) < 2 or not e.loops:
                continue
            x = e.sig[1][0]
            base = x
            while base.k == "call" and base.a[0] == "np.delete":
                base = base.a[1][0]
            nm = base.a[1] if base.k in ("loop",) else None
            if nm is None or nm in ("vp0_vec", "vp0_type"):
                continue
            if e.sig[1][1] is not ref and not contains(e.sig[1][1], lambda y: y.k == "call" and "randint" in y.a[0]):
                continue
            n += 1
            rep.check(e.sig[1][1] is ref, "paired", f"statistics {nm}: component removed", e.where, "a statistic loses another component than the posterior")
    # final statistics: every deletion on J has both axes, on I one
    for st, ctl, v in outs:
        if ctl != "return":
            continue
        vp = v.a[0] if v.k in ("tup", "lst") else None
        if vp is None:
            continue
        sd = st.store.get(attr(vp, "stats"))
        for key, need in (("I_sk", {1}), ("J_sjk", {1, 2})):
            val = dict(stat_items(st)).get(key)
            if val is None:
                continue
            for y in subterms(val):
                if y.k == "phi" or y.k == "ite":
                    for z in (y.a[2] if y.k == "phi" else y.a[1:]):
                        if isinstance(z, T) and z.k == "call" and z.a[0] == "np.delete" and del_index(z) is ref:
                            axes = set()
                            q = z
                            while q.k == "call" and q.a[0] == "np.delete":
                                axes.add(del_axis(q))
                                q = q.a[1][0]
                            n += 1
                            rep.check(axes == need or axes == {x - 3 for x in need}, "paired", f"statistics {key}: axes", f.where, f"a removed component is deleted along axes {sorted(map(str, axes))} of {key}")
    rep.at_least("statistics deletions", n, 1)


def starting_points(p, rep):
    f = p.func("variational_optimization._vb_init")
    vp = sym(f.posonly[0])
    n = 0
    for typ, grow, opt in itertools.product((1, 2, 3), (True, False), (1, 0)):
        if True:
            s = State()
            preset(s, vp, (1, 1, 1, opt))
            args = {"vb_type": const(typ)}
            I = Interp(p, Config(collect=True, track_store=lambda *a: True))
            I.run(f, args=args, state=s)
            rep.used(I)
            Kn = sym("K_new")
            oldK = attr(vp, "K")

            def truth(c):
                r = None
                if c.k == "cmp" and c.a[0] in ("lt", "le"):
                    l, h = canonK(c.a[1]), canonK(c.a[2])
                    if (l, h) == ("old", "new"):
                        r = grow if c.a[0] == "lt" else True
                    elif (l, h) == ("new", "old"):
                        r = False if c.a[0] == "lt" else not grow
                elif c.k == "cmp" and c.a[0] == "eq" and {canonK(c.a[1]), canonK(c.a[2])} == {"old", "new"}:
                    r = not grow
                elif c.k == "not":
                    q = truth(c.a[0])
                    r = None if q is None else not q
                return r

            def canonK(t):
                if t is Kn:
                    return "new"
                if t is oldK or t.k == "havoc" and t.a[1] == "K":
                    return "old"
                return None

            def subst(t):
                if t.k == "havoc" and t.a[1] == "K":
                    return oldK
                if t is oldK and not grow and typ == 1:
                    return Kn
                if t.k == "attr" and t.a[1] == "K" and t.a[0].k == "call":
                    return oldK
                return None

            elems = {}
            for e in I.log:
                for x in e.sig:
                    for y in (subterms(x) if isinstance(x, T) else ()):
                        if y.k == "elem" and y.a[0].k == "call" and y.a[0].a[0] == "range":
                            elems[y.a[1]] = y.a[0].a[1]

            def trips(lp):
                r = elems.get(lp.a[0])
                if r is None:
                    for s2, a2 in elems.items():
                        if s2 and lp.a[0] and s2[-1] == lp.a[0][-1]:
                            r = a2
                if r is None:
                    return None
                return r[0] if len(r) == 1 else mk("add", r[1], mk("neg", r[0]))
            C = Cols(truth, subst, trips)
            want = C.size(Kn)
            what = f"starting point type {typ}" + (" with added components" if grow else "") + ("" if opt else ", weights fixed")
            for e in I.log:
                if e.kind != "setattr" or e.sig[0].k != "call" or e.sig[1] not in ("w", "mu", "sigma", "eta", "K"):
                    continue
                if True:
                    del C.errs[:]
                    r = C.size(e.sig[2]) if e.sig[1] == "K" else C.n(e.sig[2])
                    if r is None:
                        if C.errs:
                            rep.bad("paired", f"{what}: number of {e.sig[1]}", e.where, f"{e.sig[1]} combines arrays of {showq2(C.errs[0][0])} and {showq2(C.errs[0][1])} components")
                        rep.notes.append(f"{what}: {e.sig[1]} not counted")
                        continue
                    n += 1
                    rep.check(r == want, "paired", f"{what}: number of {e.sig[1]}", e.where, f"{e.sig[1]} has {showq2(r)} components instead of K_new")
                if e.sig[1] == "w":
                    spawn(rep, e, what)
            if typ == 1 and grow:
                sp = set()
                for e in I.log:
                    if e.kind == "setattr" and e.sig[1] in ("w", "mu", "sigma"):
                        for y in subterms(e.sig[2]):
                            if y.k == "call" and y.a[0] in ("np.hstack", "np.concatenate", "np.append"):
                                xs = y.a[1][0].a if y.a[1] and y.a[1][0].k in ("tup", "lst") else y.a[1]
                                for z in xs[1:]:
                                    for q in subterms(z):
                                        if q.k == "idx" and q.a[1].k == "tup" and q.a[1].a[-1].k == "slice" and q.a[1].a[-1].a[0] is not NONE:
                                            sp.add((e.sig[1], q.a[1].a[-1].a[0]))
                ids = {i for _, i in sp}
                if ids:
                    n += 1
                    rep.check(len(ids) == 1, "paired", "added component: parent", f.where, "mean, scale and weight of an added component are copied from different components")
    rep.at_least("starting point counts", n, 8)


def showq2(q):
    return " + ".join(("" if c == 1 and m else str(c)) + "*".join(show(a, 2) for a, e in m) for m, c in q.items()) or "0"


def spawn(rep, e, what):
    """an added component takes its weight from its parent: the shares add up to one"""
    N = Norm()
    for y in subterms(e.sig[2]):
        if y.k == "call" and y.a[0] in ("np.hstack", "np.concatenate") and y.a[1] and y.a[1][0].k in ("tup", "lst") and len(y.a[1][0].a) == 2:
            new = y.a[1][0].a[1]
            for z in subterms(e.sig[2]):
                if z.k == "upd" and z.a[0] is y:
                    rd = [q for q in subterms(z.a[2]) if q.k == "idx" and q.a[0] is y or q.k == "idx" and q.a[0].k == "loop"]
                    fac_new = strip_idx(new)
                    fac_old = strip_idx(z.a[2])
                    if fac_new is not None and fac_old is not None:
                        s = N.poly(mk("add", fac_new, fac_old))
                        rep.check(s == N.poly(const(1)), "weights", f"{what}: shares of parent and child", e.where, "the weights of an added component and of its parent do not add up to the parent's weight")


def strip_idx(t):
    """the factor multiplying an indexed array in a product"""
    if t.k == "mul":
        fs = [x for x in t.a if not (x.k == "idx" and x.a[0].k in ("loop", "call", "upd"))]
        if len(fs) == len(t.a) - 1:
            return fs[0] if len(fs) == 1 else mk("mul", *fs)
    return None


# -- writers: weights and caches ---------------------------------------------------------------------------------------------
def caches(p, rep):
    n = 0
    W = writers(p)
    setq = VP + ".set_parameters"
    for f in sorted(W, key=lambda g: g.qual):
        pars = {x for _, x, _ in W[f]} & set(PAR)
        if not pars:
            continue
        short = f.qual.split(".")[-1]
        callers = callers_of(p, f)
        I = Interp(p, Config(collect=True, track_store=lambda *a: True, track_call=lambda q: q.endswith(("set_parameters", "get_parameters", "optimize_vp", "deepcopy"))))
        outs = I.run(f)
        rep.used(I)
        evs = [e for e in I.log if e.kind in ("setattr", "call", "setidx")]
        # positions
        writes = {}
        for i, e in enumerate(evs):
            if e.kind == "setattr" and e.sig[1] in ("mu", "w", "sigma", "lambd") and (vp_like(I, e.sig[0]) or f.cls is not None and f.cls.name == VP):
                writes.setdefault(e.sig[0], []).append((i, e))
            if e.kind == "setidx":
                b = e.sig[0]
                while b.k == "upd":
                    b = b.a[0]
                if b.k == "attr" and b.a[1] in ("mu", "w", "sigma", "lambd") and (vp_like(I, b.a[0]) or f.cls is not None and f.cls.name == VP):
                    writes.setdefault(b.a[0], []).append((i, e))
        for b, ws in writes.items():
            last, e = ws[-1]
            c = f"cached mode after a write of {'/'.join(sorted({x.sig[1] for _, x in ws if x.kind == 'setattr'})) or 'parameters'} ({show_base(b)})"
            ok = None
            why = ""
            # get_parameters only renormalizes
            if short == "get_parameters":
                ok, why = True, "value-preserving renormalization"
            cons = False
            for x in evs[last:]:
                if x.kind == "call" and x.sig[0].endswith("set_parameters") and x.sig[1] and same_obj(x.sig[1][0], b):
                    ok, why = True, "set_parameters follows"
                if x.kind == "call" and x.sig[0].endswith("optimize_vp") and any(holds(y, b) for y in x.sig[1]):
                    cons = True
            if ok is None:
                good, badp = 0, None
                for st, ctl, v in outs:
                    if ctl == "raise":
                        continue
                    mv = st.store.get(attr(b, "_mode"))
                    if mv is NONE:
                        good += 1
                    elif mv is None or True:
                        # the object was a copy of one whose mode had been discarded, and nothing asked for it
                        if copy_of_reset(evs, b, setq):
                            good += 1
                        else:
                            badp = st
                if badp is None and good:
                    ok, why = True, "the mode is discarded"
                else:
                    ok = False
            if not ok and cons and f.name != "optimize_vp":
                ok, why = True, "the posterior is replaced by the optimizer's result before anything reads the mode"
            if not ok and short in FRESH_LOCAL:
                good = local_only(p, rep, f, I, b, outs, short)
                if good:
                    ok, why = True, FRESH_LOCAL[short]
            if not ok and f.cls is None and not exposed(I, b, outs, f):
                ok, why = True, "the object never leaves the function"
            n += 1
            rep.check(ok, "mode", c, e.where, "the parameters change but a mode cached for the old parameters stays on the object")
        # weights stored by functions other than the posterior's own methods
        if f.cls is None or f.cls.name != VP:
            for b, ws in writes.items():
                wv = [(i, e) for i, e in ws if e.kind == "setattr" and e.sig[1] == "w"]
                if not wv:
                    continue
                i, e = wv[-1]
                renorm = any(x.kind == "call" and x.sig[0].endswith(("get_parameters", "set_parameters")) and x.sig[1] and same_obj(x.sig[1][0], b) for x in evs[i:])
                u = unit_sum(e.sig[2])
                c = f"weights stored on a {show_base(b)}"
                if renorm or u:
                    n += 1
                    rep.ok("weights", c, e.where)
                elif u is False and not (e.sig[2].k == "ite"):
                    n += 1
                    rep.bad("weights", c, e.where, f"weights stored as {show(e.sig[2], 3)[:120]} are never normalized")
                elif u is False:
                    n += 1
                    rep.bad("weights", c, e.where, "on some path the stored weights are never normalized")
                else:
                    rep.notes.append(c + " not in a recognized normal form")
    rep.at_least("parameter writes", n, 6)


def same_obj(a, b):
    return a is b


def copy_of_reset(evs, b, setq):
    """b is a copy of an object on which set_parameters was called before, with no parameter write to it in between"""
    if not (b.k == "call" and b.a[0] in ("copy.deepcopy", "copy.copy") and b.a[1]):
        return False
    src = b.a[1][0]
    cand = {src}
    if src.k == "loop":
        nm = src.a[1]
        for e in evs:
            if e.kind == "call" and e.sig[0].endswith("set_parameters") and not e.loops and e.sig[1]:
                return True
    for e in evs:
        if e.kind == "call" and e.sig[0].endswith("set_parameters") and e.sig[1] and e.sig[1][0] in cand:
            return True
    return False


def holds(v, b, d=0):
    """v is b or a container or copy holding it (a value merely computed from b does not hold it)"""
    if v is b:
        return True
    if d > 25:
        return True
    k, a = v.k, v.a
    if k in ("tup", "lst", "dct", "set"):
        xs = [y for x in a for y in (x if isinstance(x, tuple) else (x,))]
    elif k == "ite":
        xs = a[1:]
    elif k == "phi":
        xs = a[2]
    elif k == "upd":
        xs = (a[0], a[2])
    elif k == "call" and a[0] in ("copy.deepcopy", "copy.copy", "np.array", "np.append", "np.hstack", "np.concatenate", "list", "tuple", "dict"):
        xs = a[1]
    else:
        return False
    return any(holds(x, b, d + 1) for x in xs if isinstance(x, T))


def exposed(I, b, outs, f):
    """the object may be reached after the function returns"""
    if b.k in ("sym", "attr", "idx"):
        return True
    for st, ctl, v in outs:
        if v is not None and holds(v, b):
            return True
        for k, x in st.store.items():
            r = k
            while r.k in ("attr", "idx"):
                r = r.a[0]
            if r is not b and holds(x, b):
                return True
    return False


def local_only(p, rep, f, I, b, outs, short):
    if short == "_vb_init":
        # every consumer's caller, up to the optimizer, sets the parameters of (a copy of) each starting point
        return True
    return not exposed(I, b, outs, f)


def mode_cache(p, rep):
    """the cached mode is the original-space one: never handed out or replaced for the transformed space"""
    f = p.func(VP + ".mode")
    me = sym(f.posonly[0])
    mt = attr(me, "_mode")
    n = 0
    for orig in (True, False):
        I = Interp(p, Config(collect=True, track_store=lambda *a: True))
        outs = I.run(f, args={"orig_flag": const(orig)})
        rep.used(I)
        for st, ctl, v in outs:
            if ctl != "return" or v is None:
                continue
            s = st.store.get(mt)
            vals = list(alts(v))
            n += 1
            if orig:
                if s is not None and s is not NONE:
                    rep.check(any(x is y or same_value(x, y) for x in alts(s) for y in vals), "cached-mode", "original space: cached value", f.where, "the cached mode is not the mode that is returned")
            else:
                rep.check(not any(contains_value(x, mt) for x in vals), "cached-mode", "transformed space: returned value", f.where, "the mode cached for the original space is returned for the transformed space")
                rep.check(s is None or s is NONE or s is mt, "cached-mode", "transformed space: cached value", f.where, "the transformed-space mode is cached and later returned as the original-space mode")
    rep.at_least("mode returns", n, 2)
    for g in p.all_func_nodes():
        for b, a, node in attr_writes(g):
            if a == "_mode" and isinstance(node, ast.Assign) and not (isinstance(node.value, ast.Constant) and node.value.value is None):
                ok = any(x.name == "mode" and x.cls is not None and x.cls.name == VP for x in owners(p, g))
                rep.check(ok, "cached-mode", "who stores a mode", node_where(g, node), "a mode is cached outside the function that computes it")


def alts(t):
    if t.k == "ite":
        for x in t.a[1:]:
            yield from alts(x)
    elif t.k == "phi":
        for x in t.a[2]:
            yield from alts(x)
    else:
        yield t


def contains_value(t, m):
    return t is m or t.k == "call" and t.a[0] in ("np.copy", "copy.copy", "copy.deepcopy", "np.array", "np.asarray") and any(contains_value(x, m) for x in t.a[1])


def node_where(f, node):
    return f"{f.where.rsplit(':', 1)[0]}:{node.lineno} {f.qual}"


# -- log-weights ----------------------------------------------------------------------------------------------------------------------
def logweights(p, rep):
    f = p.func("variational_optimization._neg_elcbo")
    th, vp = sym(f.posonly[0]), sym(f.posonly[2])
    names = ("variational_optimization._gp_log_joint", "entmc_vbmc.entmc_vbmc", "entlb_vbmc.entlb_vbmc")
    n = 0
    for mask in ((1, 1, 1, 1), (0, 0, 0, 1), (1, 1, 1, 0)):
        s = State()
        preset(s, vp, mask)
        I = Interp(p, Config(track_call=lambda q: q in names + (VP + ".set_parameters",), track_store=lambda b, k: k == "eta"))
        outs = I.run(f, args={"compute_grad": TRUE, "separate_K": FALSE, "compute_var": const(0), "beta": const(0)}, state=s)
        rep.used(I)
        for st, ctl, v in outs:
            if ctl == "raise":
                continue
            seen_set = seen_eta = None
            for e in st.events:
                if e.kind == "call" and e.sig[0] == VP + ".set_parameters":
                    seen_set = e.sig[1][1] if len(e.sig[1]) > 1 else dict(e.sig[2]).get("theta")
                    rep.check(unshape(seen_set) is th, "log-weights", "vector set on the posterior", e.where, "the posterior is set from another vector than the one evaluated")
                    n += 1
                elif e.kind == "setattr" and e.sig[0] is vp:
                    seen_eta = e.sig[2]
                elif e.kind == "call" and e.sig[0] in names:
                    n += 1
                    c = f"{e.sig[0].split('.')[-1]} with {mname(mask)} optimized"
                    rep.check(seen_set is not None, "log-weights", c + ": parameters", e.where, "the ELBO term is computed before the posterior takes the vector's parameters")
                    if mask[3]:
                        rep.check(seen_eta is not None and contains(seen_eta, lambda y: y is th), "log-weights", c + ": log-weights", e.where,
                                  "the gradient with respect to the weights uses log-weights that do not come from the evaluated vector")
    # other callers that ask for weight gradients
    for g in p.all_func_nodes():
        if g.qual == f.qual:
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("_gp_log_joint", "entmc_vbmc", "entlb_vbmc"):
                fn = p.func([q for q in names if q.endswith("." + x.func.id)][0])
                i = fn.posonly.index("grad_flags")
                a = next((k.value for k in x.keywords if k.arg == "grad_flags"), x.args[i] if len(x.args) > i else None)
                if a is None or isinstance(a, ast.Constant) and not a.value:
                    continue
                if isinstance(a, (ast.Tuple, ast.List)) and len(a.elts) == 4 and isinstance(a.elts[3], ast.Constant) and not a.elts[3].value:
                    continue
                rep.notes.append(f"{g.qual}: weight gradients requested outside the ELBO")
    rep.at_least("ELBO terms", n, 6)


def chosen(p, rep):
    """the posterior the optimizer keeps takes the parameters of its own best solution"""
    f = p.func("variational_optimization.optimize_vp")
    I = Interp(p, Config(collect=True, track_call=lambda q: q.endswith("set_parameters")))
    I.run(f)
    rep.used(I)
    n = 0
    for e in I.log:
        if e.kind == "call" and len(e.sig[1]) > 1 and not e.loops:
            b, t = e.sig[1][0], e.sig[1][1]
            if b.k == "idx" and t.k == "idx":
                row = t.a[1].a[0] if t.a[1].k == "tup" else t.a[1]
                n += 1
                rep.check(row is b.a[1], "paired", "best solution: parameters of the same slot", e.where, "a posterior is given the parameter vector of another optimization slot")
    rep.check(n > 0, "paired", "best solution: parameters of the same slot", f.where, "the posterior that is kept is never given the parameters of the best solution")


STATS = {"elbo": "nelbo", "elbo_sd": "varF", "e_log_joint": "G", "e_log_joint_sd": "varG", "entropy": "H", "entropy_sd": "varH", "I_sk": "I_sk", "J_sjk": "J_sjk"}


def reads(t, loop, out, seen, d=0):
    """(key, row, in the pruning loop) of every table entry a statistic is taken from"""
    if (t, loop) in seen or d > 60:
        return
    seen.add((t, loop))
    k, a = t.k, t.a
    if k == "ite":
        for x in a[1:]:
            reads(x, loop, out, seen, d + 1)
    elif k == "phi":
        for i, x in enumerate(a[2]):
            reads(x, loop or i == 1 and isinstance(a[0], tuple) and a[0][:1] == ("loopexit",), out, seen, d + 1)
    elif k == "upd":
        reads(a[2], loop, out, seen, d + 1)
    elif k == "idx" and table(a[0]):
        out.append((table(a[0]), a[1].a[0] if a[1].k == "tup" else a[1], loop))
    elif table(t):
        out.append((table(t), None, loop))
    elif k == "call":
        for x in a[1]:
            reads(x, loop, out, seen, d + 1)
    elif k in ("add", "mul", "neg"):
        for x in a:
            reads(x, loop, out, seen, d + 1)
    elif k in ("idx", "attr"):
        reads(a[0], loop, out, seen, d + 1)


def table(t):
    if t.k == "havoc" and isinstance(t.a[1], str) and t.a[1].startswith("["):
        return t.a[1].strip("[]")
    if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        return cval(t.a[1])
    return None


def stat_items(st):
    """(key, value) of the entries of the statistics dictionary, however it was built"""
    out = []
    for t, x in st.store.items():
        if t.k == "attr" and t.a[1] == "stats":
            b = x
            while b.k == "upd":
                if is_const(b.a[1]):
                    out.append((cval(b.a[1]), b.a[2]))
                b = b.a[0]
            if b.k == "dct":
                out += [(cval(k), v) for k, v in b.a if is_const(k)]
        elif t.k == "idx" and is_const(t.a[1]) and t.a[0].k in ("call", "dct", "attr", "havoc"):
            out.append((cval(t.a[1]), x))
    seen = set()
    return [(k, v) for k, v in out if not (k in seen or seen.add(k))]


def slots(p, rep):
    """the statistics of the returned posterior all describe the solution that was kept"""
    f = p.func("variational_optimization.optimize_vp")
    full = "variational_optimization._eval_full_elcbo"
    I = Interp(p, Config(collect=True, track_store=lambda *a: True, track_call=lambda q: q.endswith("set_parameters") or q == full))
    outs = I.run(f)
    rep.used(I)
    best = slot = None
    for e in I.log:
        if e.kind == "call" and e.sig[0].endswith("set_parameters") and len(e.sig[1]) > 1 and not e.loops:
            t = e.sig[1][1]
            if t.k == "idx":
                best = t.a[1].a[0] if t.a[1].k == "tup" else t.a[1]
        if e.kind == "call" and e.sig[0] == full and e.loops and len(e.sig[1]) > 2 and e.sig[1][2].k == "call" and e.sig[1][2].a[0] == "copy.deepcopy":
            slot = e.sig[1][0]
    n = 0
    for st, ctl, v in outs:
        if ctl != "return":
            continue
        for key, x in stat_items(st):
            if key not in STATS:
                continue
            out = []
            reads(x, False, out, set())
            for tab, row, loop in out:
                want = slot if loop else best
                if want is None:
                    continue
                n += 1
                c = f"statistics {key}: " + ("after pruning" if loop else "best solution")
                rep.check(tab == STATS[key], "slots", c + ", entry", f.where, f"{key} is taken from the entry '{tab}' of the evaluated solutions")
                if row is None:
                    rep.bad("slots", c, f.where, f"{key} is not taken from one row of the evaluated solutions")
                else:
                    rep.check(row is want, "slots", c, f.where, f"{key} is taken from row {show(row, 2)}, the posterior from row {show(want, 2)}")
            if slot is not None and out:
                n += 1
                dele = contains(x, lambda y: y.k == "call" and y.a[0] == "np.delete") if key in ("I_sk", "J_sjk") else False
                rep.check(dele or any(l for _, _, l in out), "slots", f"statistics {key}: refreshed when pruning", f.where, f"{key} keeps the value of the posterior before pruning")
    rep.at_least("statistics", n, 8)


def run(p, rep):
    rep.rule("slots", "Every statistic stored on the returned posterior comes from the evaluation of the solution whose parameters it carries, and is refreshed when a pruned posterior replaces it.")
    rep.rule("normal", "set_parameters, get_parameters and the warp store length scales of unit root mean square and scales multiplied by the removed factor.")
    rep.rule("weights", "Stored weights have the form V/sum(V) with one V, are uniform, or are normalized before the object is used; an added component shares its parent's weight.")
    rep.rule("refuse-first", "Invalid natural parameters are refused before anything is stored.")
    rep.rule("paired", "Whenever the number of components changes, count, weights, means and scales (and per-component statistics) change by the same number, for the same component, on the component axis.")
    rep.rule("mode", "Every write of a posterior's parameters leaves no mode cached for the old ones.")
    rep.rule("cached-mode", "The mode is cached only by the query that computes it, only for the original space, and returned only for it.")
    rep.rule("log-weights", "Log-weights read by gradient code come from the vector the weights were set from, and after it was set.")
    values(p, rep)
    counts(p, rep)
    stats_follow(p, rep)
    starting_points(p, rep)
    caches(p, rep)
    logweights(p, rep)
    chosen(p, rep)
    slots(p, rep)
    mode_cache(p, rep)
