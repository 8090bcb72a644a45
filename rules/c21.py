"""C21: invalid bounds or starting points are refused before any evaluation."""
import ast
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm
from engine.terms import *

EXPLANATION = (
    "Abstract interpretation of the bounds check: the facts that hold on every normal exit (each guarded raise contributes its negation) must "
    "entail the documented conditions about the very values returned; returned values must be the given ones changed only by recognised "
    "moves towards the interior. The constructor must run the check before anything uses bounds or target and store its results in place.")

CAST = {"np.astype", "np.atleast_1d", "np.atleast_2d", "np.reshape", "np.asarray", "np.array", "np.copy", "np.float64", "np.ravel", "np.asfarray", "float",
        "copy.copy", "copy.deepcopy", "np.squeeze", "np.broadcast_to"}
NAMES = ["x0", "lower_bounds", "upper_bounds", "plausible_lower_bounds", "plausible_upper_bounds"]
WORD = {"x0": "starting points", "lower_bounds": "lower bounds", "upper_bounds": "upper bounds", "plausible_lower_bounds": "plausible lower bounds",
        "plausible_upper_bounds": "plausible upper bounds"}


class Core:
    """terms modulo casts, reshapes and conditionals whose branches agree"""

    def __init__(self):
        self.m = {}

    def __call__(self, t):
        if t not in self.m:
            self.m[t] = self.make(t)
        return self.m[t]

    def make(self, t):
        if t.k == "call" and t.a[0] in CAST and t.a[1]:
            return self(t.a[1][0])
        r = rebuild(t, self)
        if r.k == "ite" and r.a[1] is r.a[2]:
            return r.a[1]
        if r.k == "call" and r.a[3] is not None:
            r = mk("call", r.a[0], r.a[1], r.a[2], None)
        return r


def leaves(t):
    """where the elements of t may come from"""
    st, out, seen = [t], set(), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            st += [x.a[1], x.a[2]]
        elif x.k == "call" and x.a[0] == "np.where" and len(x.a[1]) == 3:
            st += list(x.a[1][1:])
        elif x.k == "call" and x.a[0] in ("np.minimum", "np.maximum", "np.clip", "np.fmin", "np.fmax"):
            st += list(x.a[1])
        elif x.k == "call" and x.a[0] in CAST and x.a[1]:
            st.append(x.a[1][0])
        elif x.k == "upd":
            st += [x.a[0], x.a[2]]
        elif x.k == "idx":
            st.append(x.a[0])
        elif x.k == "phi":
            st += list(x.a[2]) if len(x.a) > 2 and isinstance(x.a[2], tuple) else []
        else:
            out.add(x)
    return out


def atoms(facts, core):
    """facts about whole arrays: ('all', term) / ('none', term)"""
    out = set()
    st = [(core(t), v) for t, v in facts.items()]
    seen = set()
    while st:
        t, v = st.pop()
        if (t, v) in seen:
            continue
        seen.add((t, v))
        if t.k == "not" or t.k == "inv":
            st.append((t.a[0], not v))
        elif t.k == "and" and v or t.k == "or" and not v:
            st += [(x, v) for x in t.a]
        elif t.k == "call" and t.a[0] in ("np.all", "all", "np.alltrue") and v and t.a[1]:
            st.append((mk("ALL", t.a[1][0]), True))
        elif t.k == "call" and t.a[0] in ("np.any", "any", "np.sometrue") and not v and t.a[1]:
            st.append((mk("NONE", t.a[1][0]), True))
        elif t.k in ("ALL", "NONE"):
            x = t.a[0]
            other = "NONE" if t.k == "ALL" else "ALL"
            if x.k in ("inv", "not") or x.k == "call" and x.a[0] in ("np.invert", "np.logical_not"):
                st.append((mk(other, x.a[0] if x.k != "call" else x.a[1][0]), True))
                continue
            conj = parts(x, ("&", "and"), ("np.logical_and",))
            disj = parts(x, ("|", "or"), ("np.logical_or",))
            if t.k == "ALL" and conj:
                st += [(mk("ALL", y), True) for y in conj]
            elif t.k == "NONE" and disj:
                st += [(mk("NONE", y), True) for y in disj]
            else:
                out.add((t.k, x))
    return out


def parts(x, ops, fns):
    if x.k == "bin" and x.a[0] in ops:
        return [x.a[1], x.a[2]]
    if x.k in ops:
        return list(x.a)
    if x.k in ("bitand", "bitor") and {"bitand": "&", "bitor": "|"}[x.k] in ops:
        return list(x.a)
    if x.k == "call" and x.a[0] in fns:
        return list(x.a[1])
    return None


class Bounds:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep

    def exits(self):
        """[(returned cores, atoms, raw returned, facts)] of the normal exits of the check"""
        f = self.p.func("VBMC._bounds_check")
        I = Interp(self.p, Config())
        core = Core()
        out = []
        for s, c, v in I.run(f):
            if c == "return":
                if v.k not in ("tup", "lst") or len(v.a) != 5:
                    self.rep.notes.append("the bounds check does not return five values")
                    continue
                out.append(([core(x) for x in v.a], atoms(s.facts, core), list(v.a), s.facts))
        self.rep.used(I)
        return f, core, out


def cmp_fact(A, op, a, b):
    return ("ALL", mk("cmp", op, a, b)) in A


def strictly(A, a, b):
    """every a < b; 'nan' when undefined values could pass"""
    if cmp_fact(A, "lt", a, b):
        return True
    if ("NONE", mk("cmp", "le", b, a)) in A:
        fin = lambda x: any(("NONE", mk("call", g, (x,), (), None)) in A for g in ("np.isnan",)) or ("ALL", mk("call", "np.isfinite", (x,), (), None)) in A
        return True if fin(a) and fin(b) else "nan"
    return False


def run(p, rep, only=None):
    rep.rule("refused", "on every normal exit of the bounds check the documented conditions hold for the returned values")
    rep.rule("adjusted inward", "returned bounds and points are the given ones, moved only by recognised steps towards the interior")
    rep.rule("constructor", "the constructor checks first and uses exactly the checked values")
    B = Bounds(p, rep)
    f, core, ex = B.exits()
    rep.at_least("exits of the bounds check", len(ex), 1)
    w = f.where
    for (X, L, U, PL, PU), A, raw, facts in ex:
        nm = lambda t: show(t, 3)
        for what, a, b in (("lower < plausible lower", L, PL), ("plausible lower < plausible upper", PL, PU), ("plausible upper < upper", PU, U)):
            r = strictly(A, a, b)
            rep.check(r is True, "refused", f"order: {what}", w, "undefined (NaN) bounds pass this comparison" if r == "nan" else
                      f"construction can succeed without {what} having been established for the bounds used")
        # starting points: some checked value of X within the given hard bounds
        xs = {x for x in subterms(X)} | {X}
        low = [t for k, t in A if k == "NONE" and t.k == "cmp" and t.a[0] in ("lt", "le") and t.a[1] in xs and t.a[2] is L] + \
              [t for k, t in A if k == "ALL" and t.k == "cmp" and t.a[0] in ("lt", "le") and t.a[2] in xs and t.a[1] is L]
        up = [t for k, t in A if k == "NONE" and t.k == "cmp" and t.a[0] in ("lt", "le") and t.a[2] in xs and t.a[1] is U] + \
             [t for k, t in A if k == "ALL" and t.k == "cmp" and t.a[0] in ("lt", "le") and t.a[1] in xs and t.a[2] is U]
        rx = lambda t: sym("x0") in leaves(t)
        rep.check(any(rx(t.a[1]) or rx(t.a[2]) for t in low), "refused", "starting points above the lower bounds", w, "a starting point below a hard lower bound is accepted")
        rep.check(any(rx(t.a[1]) or rx(t.a[2]) for t in up), "refused", "starting points below the upper bounds", w, "a starting point above a hard upper bound is accepted")
        # finite plausible bounds (as given or derived)
        for n, t in (("plausible_lower_bounds", PL), ("plausible_upper_bounds", PU)):
            ok = any(x.k == "call" and (x.a[0] == "np.isfinite" and k == "ALL") and sym(n) in leaves(x.a[1][0]) and (x.a[1][0] is t or x.a[1][0] in set(subterms(t)))
                     for k, x in A) or (
                any(k == "NONE" and x.k == "call" and x.a[0] == "np.isinf" and sym(n) in leaves(x.a[1][0]) for k, x in A) and
                any(k == "NONE" and x.k == "call" and x.a[0] == "np.isnan" and sym(n) in leaves(x.a[1][0]) for k, x in A))
            rep.check(ok, "refused", f"finite {WORD[n]}", w, f"non-finite {WORD[n]} are accepted")
        # real-valued
        for n, t in zip(NAMES, (X, L, U, PL, PU)):
            sub = set(subterms(t)) | {t}
            ok = any(x.k == "call" and x.a[0] == "np.isreal" and k == "ALL" and (x.a[1][0] in sub) and sym(n) in leaves(x.a[1][0]) for k, x in A) or \
                any(x.k == "call" and x.a[0] == "np.iscomplex" and k == "NONE" and x.a[1][0] in sub and sym(n) in leaves(x.a[1][0]) for k, x in A) or \
                any(t2.k == "call" and t2.a[0] == "np.iscomplexobj" and v is False and sym(n) in leaves(core(t2.a[1][0])) for t2, v in facts.items()) or \
                any(t2.k == "call" and t2.a[0] in ("np.isrealobj",) and v is True and sym(n) in leaves(core(t2.a[1][0])) for t2, v in facts.items())
            rep.check(ok, "refused", f"real {WORD[n]}", w, f"complex-valued {WORD[n]} are accepted")
        # half-bounded variables
        fin = lambda t: mk("call", "np.isfinite", (t,), (), None)
        inf = lambda t: mk("call", "np.isinf", (t,), (), None)
        pairs = [frozenset(y) for k, x in A if k == "NONE" for y in [parts(x, ("&", "and"), ("np.logical_and",))] if y]
        xor = [x for k, x in A if k == "NONE" and (x.k == "cmp" and x.a[0] == "ne" or x.k == "bin" and x.a[0] == "^" or x.k == "call" and x.a[0] == "np.logical_xor")] + \
              [x for k, x in A if k == "ALL" and x.k == "cmp" and x.a[0] == "eq"]
        both = lambda x: {frozenset(y for y in children(x) if isinstance(y, T) and y.k == "call")} & {frozenset([fin(L), fin(U)]), frozenset([inf(L), inf(U)])}
        sym_ok = any(both(x) for x in xor)

        def isin(t):
            return {inf(t), mk("inv", fin(t)), mk("call", "np.invert", (fin(t),), (), None), mk("call", "np.logical_not", (fin(t),), (), None)}

        def isfi(t):
            return {fin(t), mk("inv", inf(t)), mk("call", "np.invert", (inf(t),), (), None), mk("call", "np.logical_not", (inf(t),), (), None)}
        for what, a, b in (("bounded below only", L, U), ("bounded above only", U, L)):
            ok = sym_ok or any(len(q) == 2 and q & isfi(a) and q & isin(b) for q in pairs)
            rep.check(ok, "refused", f"variables {what}", w, f"a variable {what} is accepted")
        # dimensions
        for n, t in zip(NAMES[1:], raw[1:]):
            rep.check(shaped(t) or shape_fact(facts, t), "refused", f"dimension of {WORD[n]}", w, f"{WORD[n]} of another dimension than the starting points are accepted")
        inward(p, rep, core, X, L, U, PL, PU, w)
    constructor(p, rep)


def shaped(t):
    """t has shape (1, D) by a reshape, or because its shape was compared with it"""
    rows = lambda s: s.k in ("tup", "lst") and len(s.a) == 2 and is_const(s.a[0]) and cval(s.a[0]) == 1
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "call" and x.a[0] == "np.reshape" and len(x.a[1]) >= 2 and (rows(x.a[1][1]) or len(x.a[1]) == 3 and is_const(x.a[1][1]) and cval(x.a[1][1]) == 1):
            return True
        if x.k == "call" and x.a[0] == "np.broadcast_to" and len(x.a[1]) == 2 and rows(x.a[1][1]):
            return True
        st += [y for y in children(x)]
    return False


def shape_fact(facts, t):
    return any(f.k == "cmp" and f.a[0] == "eq" and v and f.a[1].k == "attr" and f.a[1].a[1] == "shape" and f.a[2].k == "tup" and
               any(s is f.a[1].a[0] for s in subterms(t)) for f, v in facts.items())


def inward(p, rep, core, X, L, U, PL, PU, w):
    N = Norm()
    rep.check(L is sym("lower_bounds"), "adjusted inward", "lower bounds unchanged", w, f"the hard lower bounds returned are {show(L, 4)}")
    rep.check(U is sym("upper_bounds"), "adjusted inward", "upper bounds unchanged", w, f"the hard upper bounds returned are {show(U, 4)}")

    def amount(t):
        """signed multiple of a width of the interval (an infinite one may have been replaced); 0 when t is no width"""
        while t.k in ("upd", "idx") or t.k == "call" and t.a[0] in ("np.where", "np.abs", "abs", "np.nan_to_num"):
            if t.k == "upd":
                v = N.poly(t.a[2])
                if not (len(v) == 1 and all(m == frozenset() and c > 0 for m, c in v.items())):
                    return 0
                t = t.a[0]
            elif t.k == "idx":
                t = t.a[0]
            elif t.a[0] == "np.where":
                v = [x for x in t.a[1][1:] if not is_const(x)]
                if len(v) != 1:
                    return 0
                t = v[0]
            else:
                return abs(amount(t.a[1][0]))
        pl = N.poly(t)
        for s in (1, -1):
            if pl == {frozenset([(U, 1)]): s, frozenset([(L, 1)]): -s}:
                return s
        if t.k == "call" and t.a[0] == "np.spacing":
            return 1
        if len(pl) == 1:
            (m, c), = pl.items()
            if m == frozenset():
                return c
            if len(m) == 1:
                (at, e), = m
                return 0 if at is t or e != 1 else amount(at) * c
        return 0

    def shift(pl):
        """sum of multiples of interval widths: (sign, total) or None"""
        sg, tot = set(), 0
        un = dict(pl)
        u, l = un.pop(frozenset([(U, 1)]), 0), un.pop(frozenset([(L, 1)]), 0)
        if u != -l:
            return None
        if u:
            sg.add(u > 0)
            tot += abs(u)
        for m, c in un.items():
            q = 1
            for at, e in m:
                q *= amount(at) if e == 1 else 0
            if not q:
                return None
            sg.add(c * q > 0)
            tot += abs(c * q) if m else 0
        return None if len(sg) != 1 else (1 if True in sg else -1, tot)

    def inside(t, b, sign):
        """t is the bound b moved towards the interior by a positive amount (or not at all)"""
        if t is b or t.k == "idx" and t.a[0] is b:
            return True
        if t.k == "upd":
            r = [inside(t.a[0], b, sign), inside(t.a[2], b, sign)]
            return False if False in r else None if None in r else True
        if t.k == "call" and t.a[0] == "np.where" and len(t.a[1]) == 3:
            r = [inside(x, b, sign) for x in t.a[1][1:]]
            return False if False in r else None if None in r else True
        pl = dict(N.poly(t))
        bm = frozenset([(b, 1)])
        if t.k == "call" and t.a[0] == "np.nextafter":
            return None
        q = shift(pl)
        if q is not None:                   # next to a bound at zero
            return q[0] == sign and q[1] < 0.5
        pl = {m: c for m, c in pl.items()}
        pl[bm] = pl.get(bm, 0) - 1
        if pl[bm] == 0:
            pl.pop(bm)
        q = shift(pl)
        return None if q is None else q[0] == sign and q[1] < 0.5

    def wrap(t, fns):
        return t.k == "call" and t.a[0] in fns and len(t.a[1]) == 2

    # starting points: clipped to bounds moved inward
    def point(t, d=0):
        if t is sym("x0"):
            return True
        if d > 12:
            return None
        if t.k == "ite":
            r = [point(x, d + 1) for x in t.a[1:]]
            return False if False in r else None if None in r else True
        if t.k == "call" and t.a[0] == "np.clip" and len(t.a[1]) == 3:
            a, lo, hi = t.a[1]
            r = [point(a, d + 1), inside(lo, L, 1), inside(hi, U, -1)]
            return False if False in r else None if None in r else True
        for fn, b, s in (("np.maximum", L, 1), ("np.minimum", U, -1)):
            if wrap(t, (fn,)):
                a = [x for x in t.a[1] if sym("x0") in leaves(x)]
                o = [x for x in t.a[1] if sym("x0") not in leaves(x)]
                if len(a) != 1:
                    return None
                if contains(o[0], lambda z: z is (U if b is L else L)) and not contains(o[0], lambda z: z is b):
                    return False
                r = [point(a[0], d + 1), inside(o[0], b, s)]
                return False if False in r else None if None in r else True
        return None
    r = point(X)
    if r is None:
        rep.notes.append(f"adjustment of the starting points not recognised: {show(X, 4)}")
    else:
        rep.check(r, "adjusted inward", "starting points", w, "starting points are moved to or beyond the hard bounds")

    # plausible bounds: raised towards the interior, widened only to contain the starting points
    def plaus(t, own, b, raise_fn, widen_fn, ext, sign, d=0):
        if t is own or d > 0 and own not in leaves(t):
            return True
        if d > 14:
            return None
        if t.k == "ite" or t.k == "call" and t.a[0] == "np.where":
            r = [plaus(x, own, b, raise_fn, widen_fn, ext, sign, d + 1) for x in (t.a[1:] if t.k == "ite" else t.a[1][1:])]
            return False if False in r else None if None in r else True
        if wrap(t, (raise_fn, widen_fn)):
            a = [x for x in t.a[1] if own in leaves(x)]
            o = [x for x in t.a[1] if own not in leaves(x)]
            if len(a) != 1:
                return None
            inner = plaus(a[0], own, b, raise_fn, widen_fn, ext, sign, d + 1)
            if t.a[0] == raise_fn:
                if contains(o[0], lambda z: z is (U if b is L else L)) and not contains(o[0], lambda z: z is b):
                    return False
                r = False if o[0].k == "call" and o[0].a[0][-3:] in ("min", "max") and sym("x0") in leaves(o[0].a[1][0]) else inside(o[0], b, sign)
            else:
                r = o[0].k == "call" and o[0].a[0] in (ext, ext.replace("np.", "np.a"), ext.replace("np.", "np.nan")) and point(o[0].a[1][0]) or None
                if o[0].k == "call" and o[0].a[0] in ("np.min", "np.max", "np.amin", "np.amax") and o[0].a[0][-3:] != ext[-3:]:
                    r = False
                if inside(o[0], b, sign):
                    r = False               # clipped to the wrong side of the effective bound
            return False if False in (r, inner) else None if None in (r, inner) else True
        return None
    for nme, t, own, b, rf, wf, ext, s in (("plausible lower bounds", PL, sym("plausible_lower_bounds"), L, "np.maximum", "np.minimum", "np.min", 1),
                                           ("plausible upper bounds", PU, sym("plausible_upper_bounds"), U, "np.minimum", "np.maximum", "np.max", -1)):
        r = plaus(t, own, b, rf, wf, ext, s)
        if r is None:
            rep.notes.append(f"adjustment of the {nme} not recognised: {show(t, 4)}")
        else:
            rep.check(r, "adjusted inward", nme, w, f"{nme} are moved away from the interior or not to include the starting points")


def constructor(p, rep):
    f = p.func("VBMC.__init__")
    USE = {"ParameterTransformer", "VariationalPosterior", "_init_optim_state", "_init_log_joint", "FunctionLogger"}
    I = Interp(p, Config(collect=True, track_call=lambda n: n == "?call" or n == "FunctionLogger.__call__" or n.split(".")[-1] in USE | {"_bounds_check"}, track_store=lambda b, n: n in NAMES,
                         opaque={"VBMC._bounds_check", "VBMC._init_optim_state", "VBMC._init_log_joint"}))
    ends = I.run(f)
    rep.used(I)
    seen = None
    stored = {}
    for e in I.log:
        if e.kind == "call":
            nm = e.sig[0].split(".")[-1]
            if nm == "_bounds_check":
                seen = e.sig[3]
                got = bind(p, "VBMC._bounds_check", e.sig[1], e.sig[2]) or {}
                for n in NAMES:
                    a = got.get(n)
                    if a is None:
                        continue
                    lv = leaves(a)
                    other = [m for m in NAMES if m != n and sym(m) in lv]
                    rep.check(sym(n) in lv and not other, "constructor", f"checked {WORD[n]}", e.where, f"the bounds check receives {show(a, 3)} as {WORD[n]}")
                    if n in ("lower_bounds", "upper_bounds") and a is not sym(n):
                        d = [x for x in lv if x is not sym(n)]
                        for x in d:
                            sg = infinite(x)
                            if sg is not None:
                                rep.check(sg == (-1 if n == "lower_bounds" else 1), "constructor", f"default {WORD[n]}", e.where, f"omitted {WORD[n]} become {show(x, 3)}")
            elif e.sig[0] == "?call":
                t = e.sig[1][0]
                if contains(t, lambda z: z.k == "sym" and z.a[0] in ("log_density", "log_prior", "sample_prior", "log_likelihood")):
                    rep.bad("constructor", "evaluation in the constructor", e.where, f"{show(t, 3)} is evaluated during construction")
            elif nm in USE:
                rep.check(seen is not None, "constructor", f"check before {nm}", e.where, f"{nm} is used before the bounds have been checked")
                if nm == "ParameterTransformer":
                    got = bind(p, "ParameterTransformer", e.sig[1], e.sig[2]) or {}
                    for k, n in (("lb_orig", 1), ("ub_orig", 2), ("plb_orig", 3), ("pub_orig", 4)):
                        if k in got:
                            rep.check(is_item(got[k], seen, n), "constructor", f"transformer {k}", e.where, f"the transform is built with {k} = {show(got[k], 3)}, not the checked bounds")
                        elif not any(x.k == "star" for x in e.sig[1]) and all(isinstance(q, str) for q, _ in e.sig[2]):
                            rep.bad("constructor", f"transformer {k}", e.where, f"the transform is built without the checked {WORD[NAMES[n]]}")
            else:
                rep.bad("constructor", "evaluation in the constructor", e.where, f"{nm} is evaluated during construction")
        elif e.kind == "setattr" and e.sig[0] is sym("self"):
            n, v = e.sig[1], e.sig[2]
            stored.setdefault(n, []).append(e)
            if n == "x0":
                if seen is None:
                    continue
                if is_item(v, seen, 0):
                    continue
                mid = contains(v, lambda z: is_item(z, seen, 3)) and contains(v, lambda z: is_item(z, seen, 4))
                tr = contains(v, lambda z: z.k == "call" and z.a[0].startswith("ParameterTransformer"))
                rep.check(tr or mid or contains(v, lambda z: is_item(z, seen, 0)), "constructor", "stored starting points", e.where,
                          f"the starting points used are {show(v, 3)}, not the checked ones")
            else:
                rep.check(seen is not None and is_item(v, seen, NAMES.index(n)), "constructor", f"stored {WORD[n]}", e.where,
                          f"the {WORD[n]} used are {show(v, 3)}, not the checked ones")
    rep.check(seen is not None, "constructor", "bounds check", f.where, "the constructor does not check the bounds")
    for n in NAMES[1:]:
        if n not in stored:
            ok = any(c == "return" and is_item(s.store.get(attr(sym("self"), n)) or NONE, seen, NAMES.index(n)) for s, c, v in ends) if seen is not None else False
            rep.check(ok, "constructor", f"stored {WORD[n]}", f.where, f"the checked {WORD[n]} are not stored")
    # any other function that sets them
    k = 0
    for g in p.all_func_nodes():
        if g.cls is None or g.cls.name != "VBMC":
            continue
        for b, n, node in attr_writes(g):
            if n in NAMES and isinstance(b, ast.Name) and b.id == "self":
                k += 1
                rep.check(g.qual == "VBMC.__init__" or only_called_from(p, g, {"VBMC.__init__"}), "constructor", f"writer of {n}", f"{g.mod.rel}:{node.lineno} {g.qual}",
                          f"{g.qual} changes self.{n} after the bounds were checked")
    rep.at_least("stores of bounds", k + len(stored), 4)


def is_item(t, c, n):
    while t.k == "call" and t.a[0] in CAST and t.a[1]:
        t = t.a[1][0]
    if c is not None and t.k == "idx" and t.a[0].k == "idx" and is_const(t.a[1]) and t.a[0].a[1].k in ("slc", "slice"):
        lo = t.a[0].a[1].a[0]
        base = cval(lo) if is_const(lo) and cval(lo) is not None else 0
        step = t.a[0].a[1].a[2] if len(t.a[0].a[1].a) > 2 else NONE
        if strip(t.a[0].a[0]) is strip(c) and isinstance(base, int) and step is NONE:
            return cval(t.a[1]) + (base if base >= 0 else base + 5) == n
    return c is not None and t.k == "idx" and strip(t.a[0]) is strip(c) and is_const(t.a[1]) and cval(t.a[1]) == n


def infinite(x):
    """the sign of an array of infinities, None otherwise"""
    if is_const(x):
        v = cval(x)
        return None if not isinstance(v, float) or v not in (float("inf"), float("-inf")) else 1 if v > 0 else -1
    if x.k == "neg":
        r = infinite(x.a[0])
        return None if r is None else -r
    if x.k in ("mod", "name", "glob", "attr", "sym"):
        return 1 if str(x.a[-1]).lower() in ("numpy.inf", "np.inf", "math.inf", "inf", "infty") else None
    if x.k == "call":
        if x.a[0] in ("np.full", "np.full_like") and len(x.a[1]) == 2:
            return infinite(x.a[1][1])
        if x.a[0] in CAST and x.a[1]:
            return infinite(x.a[1][0])
        return None
    if x.k == "mul" or x.k == "bin" and x.a[0] == "*":
        fs = [y for y in children(x) if isinstance(y, T)]
        r = [infinite(y) for y in fs]
        if not any(y is not None for y in r):
            return None
        sg = 1
        for y, q in zip(fs, r):
            if q is not None:
                sg *= q
            elif is_const(y) and isinstance(cval(y), (int, float)):
                sg *= 1 if cval(y) > 0 else -1
            elif not (y.k == "call" and y.a[0] in ("np.ones", "np.ones_like")):
                return None
        return sg
    return None
