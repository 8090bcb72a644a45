"""C15: every producer and consumer of the packed parameter vector agrees on its layout."""
import ast
import itertools

from engine.absint import Config, Interp, State
from engine.layout import A, Lay, bad, iscat
from engine.lib import *
from engine.program import AnalysisBroken
from engine.terms import *
from engine.terms import T

EXPLANATION = (
    "The layout is specified once: means (component-major), scales (per component), length scales (per coordinate), weights (per component), each present iff its optimize_ flag is set. "
    "For all 16 flag combinations, raw or not, and for one or several components/GP samples, the source of each producer and consumer is interpreted and its array terms are evaluated in a domain of axis labels "
    "(which dimension varies along each axis, slowest first), so order='F'/'C', reshapes, tiles, transposes, slices and concatenations are compared with the specification: the vector get_parameters returns, the slices "
    "set_parameters and the soft-bound loss take, the bounds get_bounds builds, the bound gradient, and the gradients of the expected log joint and of both entropies, flag by flag. "
    "Any operation in these functions that combines two different dimensions element by element is reported too.")

VP = "VariationalPosterior"
FIELDS = ("mu", "sigma", "lambd", "weights")
AX = {"mu": ("K", "D"), "sigma": ("K",), "lambd": ("D",), "weights": ("K",)}
ATTR = {"mu": "mu", "sigma": "sigma", "lambd": "lambd", "weights": "w"}
SHP = {"mu": (("D",), ("K",)), "sigma": ((), ("K",)), "lambd": (("D",), ()), "w": ((), ("K",)), "eta": ((), ("K",))}


def masks():
    return list(itertools.product((1, 0), repeat=4))


def preset(s, base, mask):
    for n, v in zip(FIELDS, mask):
        s.store[attr(base, "optimize_" + n)] = const(bool(v))


def spec(mask, lvl):
    """pieces of the packed vector: (field, axis, log level)"""
    return [(f, AX[f], 0 if f == "mu" else lvl) for f, m in zip(FIELDS, mask) if m]


def mname(mask):
    on = [f for f, m in zip(FIELDS, mask) if m]
    return "+".join(on) if on else "nothing"


def mk_lay(base, I, one=(), theta=None, extra=None, gp=None):
    def dim(t):
        if t.k == "attr" and t.a[0] is base and t.a[1] in ("D", "K"):
            return t.a[1]
        if t is sym("K"):
            return "K"
        if t.k == "call" and t.a[0] == "len" and len(t.a[1]) == 1 and t.a[1][0].k == "attr" and t.a[1][0].a[1] == "posteriors":
            return "S"
        if t.k == "sym" and t.a[0] == "#N":
            return "N"
        return None

    def leaf(t):
        if t.k == "attr" and t.a[0] is base and t.a[1] in SHP:
            return A(SHP[t.a[1]], {t.a[1]})
        if theta is not None and t is theta[0]:
            return A([("cat", tuple(A([ax], {"theta." + f}, lv) for f, ax, lv in theta[1]))], {"theta." + f for f, _, _ in theta[1]})
        if t.k == "attr" and t.a[1] == "X" and t.a[0].k == "sym":
            return A([("N",), ("D",)], {"X"})
        if t is sym("X"):
            return A([("N",), ("D",)], {"X"})
        if t.k == "attr" and t.a[1] == "alpha":
            return A([("N",), ()])
        if t.k == "attr" and t.a[1] == "hyp":
            return A([("?",)])
        if t.k == "attr" and t.a[1] == "sW":
            return A([("N",), ()])
        if t.k == "attr" and t.a[1] == "L":
            return A([("N",), ("N",)])
        if extra is not None:
            return extra(t)
        return None
    return Lay(leaf, dim, one, phis=I.phi_alts)


def norm(ax, one):
    return tuple(x for x in ax if x not in one)


def pieces(v):
    """pieces of a one-dimensional value, or None"""
    if v is None or len(v.axes) != 1:
        return None
    ax = v.axes[0]
    ps = list(ax[1]) if iscat(ax) else [A([ax], v.src, v.lvl)]
    return [p for p in ps if not (iscat(p.axes[0]) and not p.axes[0][1])]


def show_ps(ps):
    return "[" + ", ".join((",".join(sorted(p.src)) + ":" if p.src else "") + Lay.showax(p.axes[0]) + (f" log{p.lvl:+d}" if p.lvl else "") for p in ps) + "]"


def sure(p):
    return not any(x == "?" for x in p.axes[0]) and not iscat(p.axes[0])


def cmp_layout(rep, rule, construct, where, v, want, one, what, srcs=True, lvls=True):
    """compare the pieces of v with [(field, axis, lvl)]"""
    ps = pieces(v)
    if ps is None:
        if v is not None and len(v.axes) > 1:
            rep.bad(rule, construct, where, f"{what} is not one-dimensional")
            return True
        rep.notes.append(f"{construct}: {what} not followed")
        return False
    if any(not sure(p) for p in ps):
        rep.notes.append(f"{construct}: {what} followed only in part: {show_ps(ps)}")
        return False
    w = [A([norm(ax, one)], {f}, lv) for f, ax, lv in want]
    txt = f"{what} is laid out {show_ps(ps)} instead of {show_ps(w)}"
    if len(ps) != len(w):
        rep.bad(rule, construct, where, txt)
        return True
    for p, q in zip(ps, w):
        if bad(p.axes[0]) or p.axes[0] != q.axes[0]:
            rep.bad(rule, construct, where, txt)
            return True
        f, = q.src
        if srcs and p.src and not f in {x.replace("theta.", "") for x in p.src} and not f == "?":
            rep.bad(rule, construct, where, txt)
            return True
        if lvls and p.lvl is not None and q.lvl is not None and p.lvl != q.lvl:
            rep.bad(rule, construct, where, txt + " (logarithm applied differently)")
            return True
    rep.ok(rule, construct, where)
    return True


def report_errs(rep, L, rule, construct, where):
    for t, msg in L.errs[:3]:
        rep.bad(rule, construct + ": " + msg, where, f"the code {msg}; this works only when the two sizes happen to be equal ({show(t, 3)[:160]})")


def get_parameters(p, rep):
    f = p.func(VP + ".get_parameters")
    me = sym(f.posonly[0])
    n = 0
    for mask in masks():
        for raw in (True, False):
            s = State()
            preset(s, me, mask)
            I = Interp(p, Config())
            outs = I.run(f, args={"raw_flag": const(raw)}, state=s)
            rep.used(I)
            for one in ((), ("K",)):
                want = [({"weights": "w"}.get(x, x), ax, lv) for x, ax, lv in spec(mask, 1 if raw else 0)]
                for st, ctl, v in outs:
                    if ctl != "return":
                        continue
                    L = mk_lay(me, I, one)
                    a = L.ev(v)
                    # the normalization rescales sigma by the length scales: the scale of a component is what varies along the axis
                    c = f"get_parameters({'raw' if raw else 'natural'}) with {mname(mask)} optimized"
                    if a is not None:
                        n += cmp_layout(rep, "pack", c, f.where, a, want, one, "the packed vector")
                    else:
                        rep.notes.append(c + ": not followed")
                    report_errs(rep, L, "pack", c, f.where)
    rep.at_least("packed vectors", n, 16)


def set_parameters(p, rep):
    f = p.func(VP + ".set_parameters")
    me = sym(f.posonly[0])
    th = sym(f.posonly[1])
    n = 0
    for mask in masks():
        for raw in (True, False):
            s = State()
            preset(s, me, mask)
            I = Interp(p, Config())
            outs = I.run(f, args={"raw_flag": const(raw)}, state=s)
            rep.used(I)
            for one in ((), ("K",)):
                c = f"set_parameters({'raw' if raw else 'natural'}) with {mname(mask)} optimized"
                L = mk_lay(me, I, one, theta=(th, spec(mask, 1 if raw else 0)))
                for st, ctl, v in outs:
                    if ctl == "raise":
                        continue
                    for fld, m in zip(FIELDS, mask):
                        an = ATTR[fld]
                        val = st.store.get(attr(me, an))
                        if not m:
                            # untouched, or only renormalized
                            if val is not None and contains(val, lambda x: x is th) and fld in ("mu", "weights"):
                                rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is not optimized but takes values from the vector")
                            continue
                        if val is None:
                            rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is optimized but not taken from the vector")
                            continue
                        a = L.ev(val)
                        if a is None or any("?" in x for x in a.axes):
                            rep.notes.append(f"{c}: {an} not followed")
                            continue
                        n += 1
                        want = tuple(norm(x, one) for x in SHP[an])
                        src = {x for x in a.src if x.startswith("theta.")}
                        if a.axes != want:
                            rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is unpacked with axes ({', '.join(L.showax(x) for x in a.axes)}) instead of ({', '.join(L.showax(x) for x in want)})")
                        elif src and src != {"theta." + fld}:
                            rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is unpacked from the part of the vector that holds {', '.join(sorted(x[6:] for x in src))}")
                        elif not src:
                            rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is optimized but not taken from the vector")
                        elif a.lvl is not None and a.lvl != 0:
                            rep.bad("unpack", f"{c}: {an}", f.where, f"{an} is unpacked {'without undoing the logarithm' if a.lvl > 0 else 'through one exponential too many'}")
                        else:
                            rep.ok("unpack", f"{c}: {an}", f.where)
                report_errs(rep, L, "unpack", c, f.where)
    rep.at_least("unpacked parameters", n, 40)


def bounds(p, rep):
    f = p.func(VP + ".get_bounds")
    me = sym(f.posonly[0])
    n = 0
    for mask in masks():
        if not any(mask):
            continue
        for kk in (NONE, sym("K")):
            s = State()
            preset(s, me, mask)
            I = Interp(p, Config())
            outs = I.run(f, args={"K": kk}, state=s)
            rep.used(I)
            want = []
            if mask[0]:
                want.append(("X", ("K", "D"), 0))
            if mask[1] or mask[2]:
                want.append(("X", ("K", "D"), 1))
            if mask[3]:
                want.append(("?", ("K",), None))

            def extra(t):
                if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
                    if t.a[0] is sym("options"):
                        return A(())
                    nm = str(cval(t.a[1]))
                    if contains(t.a[0], lambda z: z.k == "attr" and z.a[1] == "bounds"):
                        # bounds of earlier calls: per coordinate
                        return A([("D",)] if not nm.startswith("eta") else ())
                return None
            for st, ctl, v in outs:
                if ctl != "return":
                    continue
                d = dict_entries(st, v) or {}
                d = {(cval(k) if isinstance(k, T) else k): x for k, x in d.items()}
                for one in ((), ("K",)):
                    L = mk_lay(me, I, one, extra=extra)
                    for b in ("lb", "ub"):
                        c = f"soft bounds {b} with {mname(mask)} optimized"
                        if b not in d:
                            rep.notes.append(c + ": not found")
                            continue
                        a = L.ev(d[b])
                        if a is None:
                            rep.notes.append(c + ": not followed")
                            continue
                        n += cmp_layout(rep, "bounds", c, f.where, a, want, one, "the vector of soft bounds", srcs=False)
                    report_errs(rep, L, "bounds", f"soft bounds with {mname(mask)} optimized", f.where)
    rep.at_least("bound vectors", n, 16)


def bound_loss(p, rep):
    f = p.func("variational_optimization._vp_bound_loss")
    vp, th = sym(f.posonly[0]), sym(f.posonly[1])
    n = 0
    for mask in masks():
        if not any(mask):
            continue
        for grad in (True, False):
            s = State()
            preset(s, vp, mask)
            I = Interp(p, Config(collect=True, track_call=lambda q: q.endswith("_soft_bound_loss")))
            outs = I.run(f, args={"compute_grad": const(grad)}, state=s)
            rep.used(I)
            ext = []
            if mask[0]:
                ext.append(("mu", ("K", "D"), 0))
            if mask[1] or mask[2]:
                ext.append(("scale", ("K", "D"), 1))
            if mask[3]:
                ext.append(("weights", ("K",), 1))
            th_spec = spec(mask, 1)
            for one in ((), ("K",)):
                c = f"bound loss with {mname(mask)} optimized"

                def extra(t):
                    if t.k == "idx" and is_const(t.a[1]) and cval(t.a[1]) == 1 and t.a[0].k == "call" and t.a[0].a[0].endswith("_soft_bound_loss"):
                        return A([("cat", tuple(A([norm(ax, one)], {"grad." + x}) for x, ax, _ in ext))], {"grad"})
                    return None
                L = mk_lay(vp, I, one, theta=(th, th_spec), extra=extra)
                for e in I.log:
                    if e.kind != "call" or not e.sig[1]:
                        continue
                    a = L.ev(e.sig[1][0])
                    if a is None:
                        rep.notes.append(c + ": argument not followed")
                        continue
                    ps = pieces(a)
                    n += cmp_layout(rep, "bound-loss", c + ": penalized vector", e.where, a, ext, one, "the penalized vector", srcs=False)
                    if ps is not None and len(ps) == len(ext):
                        for q, (x, _, _) in zip(ps, ext):
                            src = {z.replace("theta.", "") for z in q.src}
                            src = {{"w": "weights"}.get(z, z) for z in src}
                            exp = {"mu": {"mu"}, "weights": {"weights"}, "scale": {"sigma", "lambd"}}[x]
                            if src and src != exp:
                                rep.bad("bound-loss", c + f": {x} part", e.where, f"the part of the penalized vector compared with the {x} bounds is computed from {', '.join(sorted(src))}")
                    # the bounds passed are the vectors themselves, in their order
                if grad:
                    for st, ctl, v in outs:
                        if ctl != "return" or v.k not in ("tup", "lst") or len(v.a) != 2:
                            continue
                        a = L.ev(v.a[1])
                        if a is None:
                            rep.notes.append(c + ": gradient not followed")
                            continue
                        ps = pieces(a)
                        n += cmp_layout(rep, "bound-loss", c + ": gradient", f.where, a, spec(mask, 0), one, "the gradient of the bound loss", srcs=False, lvls=False)
                        if ps is not None:
                            for q, (x, _, _) in zip(ps, spec(mask, 0)):
                                src = {z[5:] for z in q.src if z.startswith("grad.")}
                                exp = {"mu": "mu", "weights": "weights"}.get(x, "scale")
                                if src and src != {exp}:
                                    rep.bad("bound-loss", c + f": gradient of {x}", f.where, f"the gradient with respect to {x} is taken from the part that belongs to {', '.join(sorted(src))}")
                report_errs(rep, L, "bound-loss", c, f.where)
    rep.at_least("bound-loss vectors", n, 16)


def gradient(p, rep, q, outf, params, label):
    """gradients of one function: per flag, axis and order; `outf(value)` gives the gradient term"""
    f = p.func(q)
    vp = sym(f.posonly[0])
    n = 0
    store = {}
    for mask in masks():
        for jac in (True, False):
            I = Interp(p, Config(collect=True, track_store=lambda *a: True))
            args = dict(params)
            args["grad_flags"] = mk("tup", *[const(bool(m)) for m in mask])
            args["jacobian_flag"] = const(jac)
            outs = I.run(f, args=args)
            rep.used(I)
            store[mask, jac] = (I, [v for _, ctl, v in outs if ctl == "return"])
            if not any(mask):
                continue
            for one in ((), ("K",), ("S",), ("K", "S")):
                if q.endswith("_vbmc") and "S" in one:
                    continue
                L = mk_lay(vp, I, one)
                c = f"{label} with gradients of {mname(mask)}" + ("" if jac else ", natural parameters")
                for v in store[mask, jac][1]:
                    g = outf(v)
                    if g is None or g is NONE:
                        continue
                    a = L.ev(g)
                    if a is None or len(a.axes) != 1:
                        if a is not None and len(a.axes) > 1 and all("?" not in x for x in a.axes):
                            rep.bad("gradient", c, f.where, f"the gradient has axes ({', '.join(L.showax(x) for x in a.axes)}) instead of one")
                            continue
                        rep.notes.append(c + f": not followed ({a})")
                        continue
                    want = spec(mask, 0)
                    if cmp_layout(rep, "gradient", c, f.where, a, want, one, "the gradient", srcs=False, lvls=False):
                        n += 1
                    ps = pieces(a)
                    if ps is not None and len(ps) == len(want) and jac:
                        for r, (x, _, _) in zip(ps, want):
                            own = {"sigma": "sigma", "lambd": "lambd", "weights": "eta"}.get(x)
                            oth = {"sigma", "lambd", "eta"} & r.src
                            if x == "weights" and oth and "eta" not in oth or x in ("sigma", "lambd") and "eta" in oth:
                                rep.bad("gradient", c + f": part of {x}", f.where, f"the part of the gradient at the place of {x} is the one of {', '.join(sorted(oth))}")
                if one == ():
                    # writes inside the loops
                    for e in I.log:
                        if e.kind == "setidx":
                            b = L.ev(e.sig[0])
                            if b is None:
                                continue
                            k = e.sig[1]
                            region = L.index(mk("idx", e.sig[0], k), e.sig[0], k)
                            check_index(rep, L, b, k, "loop-writes", f"{label}: index of an array", e.where)
                            val = L.ev(e.sig[2])
                            if region is not None and val is not None and len(val.axes) and all("?" not in x for x in region.axes + val.axes):
                                L.elt(mk("idx", e.sig[0], k), [region, val])
                                n1 = len(val.axes)
                                if n1 > len(region.axes) or any(x != y and x != () for x, y in zip(val.axes[::-1], region.axes[::-1])) or any(x != () for x in val.axes[:max(0, n1 - len(region.axes))]):
                                    rep.bad("loop-writes", f"{label}: shape of a stored value", e.where,
                                            f"an array with axes ({', '.join(L.showax(x) for x in val.axes)}) is stored where ({', '.join(L.showax(x) for x in region.axes)}) is expected")
                                else:
                                    rep.ok("loop-writes", f"{label}: store", e.where)
                report_errs(rep, L, "gradient", label, f.where)
    # parts of the joint gradient equal the parts computed alone: order among same-sized parts
    for mask in masks():
        if sum(mask) < 2:
            continue
        for jac in (True, False):
            for v in store[mask, jac][1]:
                js = cat_terms(outf(v), (), store[mask, jac][0], vp)
                if js is None or len(js) != sum(mask):
                    continue
                for t, x in zip(js, [z for z, m in zip(FIELDS, mask) if m]):
                    alone = {}
                    for z in FIELDS:
                        sm = tuple(int(y == z) for y in FIELDS)
                        for w in store[sm, jac][1]:
                            r = cat_terms(outf(w), (), store[sm, jac][0], vp)
                            if r and len(r) == 1:
                                alone[z] = r[0]
                    if alone.get(x) is t:
                        rep.ok("gradient", f"{label}: joint part of {x}", f.where)
                    elif any(alone.get(z) is t for z in FIELDS):
                        z = [z for z in FIELDS if alone.get(z) is t][0]
                        rep.bad("gradient", f"{label} with gradients of {mname(mask)}: part of {x}", f.where, f"the part of the gradient at the place of {x} is the one of {z}")
    # a log or softmax reparameterization applies exactly when the parameters are transformed
    for i, x in enumerate(FIELDS):
        sm = tuple(int(y == x) for y in FIELDS)
        a = [cat_terms(outf(w), (), store[sm, True][0], vp) for w in store[sm, True][1]]
        b = [cat_terms(outf(w), (), store[sm, False][0], vp) for w in store[sm, False][1]]
        if len(a) == 1 and len(b) == 1 and a[0] and b[0] and len(a[0]) == 1 and len(b[0]) == 1:
            same = a[0][0] is b[0][0]
            if x == "mu" and not same:
                rep.notes.append(f"{label}: gradient of mu depends on the transformation flag")
            if x != "mu":
                rep.check(not same, "gradient", f"{label}: transformation of {x}", f.where, f"the gradient with respect to {x} is the same for transformed and for natural parameters")
    rep.at_least(f"{label} gradients", n, 16)


def cat_terms(t, one, I, vp):
    """terms of the non-empty pieces of the concatenation a value comes from (reductions over samples removed)"""
    if t is None:
        return None
    L = mk_lay(vp, I, one)
    seen = 0
    while seen < 30:
        seen += 1
        if t.k == "ite":
            c = L.truth(t.a[0])
            if c is None:
                return None
            t = t.a[1] if c else t.a[2]
        elif t.k == "bin" and t.a[0] == "/":
            t = t.a[1]
        elif t.k == "mul" and len(t.a) == 2 and any(not contains(x, lambda y: y.k == "call" and y.a[0] in ("np.concatenate", "np.hstack")) for x in t.a):
            t = [x for x in t.a if contains(x, lambda y: y.k == "call" and y.a[0] in ("np.concatenate", "np.hstack"))]
            if len(t) != 1:
                return None
            t = t[0]
        elif t.k == "idx":
            t = t.a[0]
        elif t.k == "call" and t.a[0] in ("np.sum", "np.mean", "np.ravel", "np.copy", "np.asarray") and t.a[1]:
            t = t.a[1][0]
        elif t.k == "call" and t.a[0] in ("np.concatenate", "np.hstack") and t.a[1] and t.a[1][0].k in ("tup", "lst"):
            out = []
            for x in t.a[1][0].a:
                v = L.ev(x)
                if v is None or not v.axes:
                    return None
                if iscat(v.axes[0]):
                    if not v.axes[0][1]:
                        continue
                    r = cat_terms(x, one, I, vp)
                    if r is None:
                        return None
                    out += r
                else:
                    out.append(x)
            return out
        else:
            return None
    return None


def check_index(rep, L, b, k, rule, construct, where):
    """an index that runs over one dimension addresses an axis over that dimension"""
    ks = list(k.a) if k.k == "tup" else [k]
    i = 0
    for x in ks:
        if L._newaxis(x):
            continue
        if is_const(x) and cval(x) is Ellipsis or i >= len(b.axes):
            return
        ax = b.axes[i]
        i += 1
        y = x.a[0] if x.k == "slice" else x
        if y.k == "elem" and y.a[0].k == "call" and y.a[0].a[0] == "range" and not iscat(ax) and "?" not in ax:
            r = y.a[0].a[1]
            hi = r[1] if len(r) > 1 else r[0]
            l = L.labels(hi)
            if l is not None and len(l) == 1:
                rep.check(ax in ((l[0],), ()) or ax == tuple(l), rule, construct, where, f"an index over {L.showax(l)}s addresses an axis over {L.showax(ax)}s")


def flags_order(p, rep):
    f = p.func("variational_optimization._neg_elcbo")
    names = f.posonly
    th, vp = sym(names[0]), sym(names[2])
    n = 0
    trk = lambda q: q in ("variational_optimization._gp_log_joint", "entmc_vbmc.entmc_vbmc", "entlb_vbmc.entlb_vbmc", "variational_optimization._vp_bound_loss", VP + ".set_parameters")
    for mask in masks():
        for cg in (True, False):
            s = State()
            preset(s, vp, mask)
            I = Interp(p, Config(collect=True, track_call=trk, track_store=lambda *a: True))
            outs = I.run(f, args={"compute_grad": const(cg), "separate_K": FALSE, "compute_var": const(0), "beta": const(0)}, state=s)
            rep.used(I)
            for e in I.log:
                if e.kind == "call" and e.sig[0] in ("variational_optimization._gp_log_joint", "entmc_vbmc.entmc_vbmc", "entlb_vbmc.entlb_vbmc"):
                    a = bind(p, e.sig[0], e.sig[1], e.sig[2])
                    g = a.get("grad_flags")
                    if g is None:
                        continue
                    want = [bool(m) and cg for m in mask]
                    c = f"gradient flags passed to {e.sig[0].split('.')[-1]} with {mname(mask)} optimized"
                    if g.k in ("tup", "lst") and len(g.a) == 4 and all(is_const(x) for x in g.a):
                        n += 1
                        got = [bool(cval(x)) for x in g.a]
                        # computing more than is used is the caller's loss only if the result is used
                        rep.check(got == want, "flags", c, e.where, f"the gradient flags are {got} for (mu, sigma, lambd, weights) = {want}")
                    elif is_const(g):
                        n += 1
                        rep.check([bool(cval(g))] * 4 == want, "flags", c, e.where, f"the gradient flags are all {bool(cval(g))} for {want}")
                    j = a.get("jacobian_flag")
                    if j is None:
                        j = default_of(p, e.sig[0], "jacobian_flag")
                    if j is not None and is_const(j):
                        rep.check(bool(cval(j)), "flags", f"{e.sig[0].split('.')[-1]}: transformed parameters", e.where, "the optimized vector is transformed, but the gradient is requested for natural parameters")
            # eta: log-weights of the vector
            for one in ((), ("K",)):
                L = mk_lay(vp, I, one, theta=(th, spec(mask, 1)))
                for e in I.log:
                    if e.kind == "setattr" and e.sig[0] is vp and e.sig[1] == "eta":
                        a = L.ev(e.sig[2])
                        c = f"log-weights with {mname(mask)} optimized"
                        if a is None or any("?" in x for x in a.axes):
                            continue
                        src = {x for x in a.src if x.startswith("theta.")}
                        n += 1
                        rep.check(not src or src == {"theta.weights"}, "flags", c, e.where, f"the log-weights are read from the part of the vector that holds {', '.join(sorted(x[6:] for x in src))}")
                report_errs(rep, L, "flags", f"ELBO with {mname(mask)} optimized", f.where)
            # the weight penalty's gradient is added at the weights
            if cg and mask[3]:
                for e in I.log:
                    if e.kind == "setidx" and contains(e.sig[2], lambda x: x.k == "idx" and is_const(x.a[1]) and cval(x.a[1]) == "weight_penalty"):
                        k = e.sig[1]
                        L = mk_lay(vp, I, (), theta=(th, spec(mask, 1)))
                        fake = A([("cat", tuple(A([ax], {"theta." + x}) for x, ax, _ in spec(mask, 0)))])
                        L.memo[e.sig[0]] = fake
                        r = L.index(mk("idx", e.sig[0], k), e.sig[0], k)
                        if r is not None:
                            n += 1
                            rep.check(set(r.src) == {"theta.weights"}, "flags", f"weight penalty with {mname(mask)} optimized", e.where, "the gradient of the weight penalty is added to parameters other than the weights")
                        for _, msg in L.errs[:1]:
                            rep.bad("flags", f"weight penalty with {mname(mask)} optimized", e.where, "the gradient of the weight penalty: " + msg)
    rep.at_least("flag tuples and slices", n, 30)


def scale_flag(p, rep):
    """the optimizer works on the raw vector: no caller mixes raw and natural vectors"""
    n = 0
    names = (VP + ".get_parameters", VP + ".set_parameters")
    d = [default_of(p, q, "raw_flag") for q in names]
    if all(x is not None and is_const(x) for x in d):
        rep.check(d[0] is d[1], "scale", "default of raw_flag", p.func(names[0]).where, "get_parameters and set_parameters disagree on the default scale")
    def flag(c, get):
        r = next((k.value for k in c.keywords if k.arg == "raw_flag"), None)
        pos = 0 if get else 1
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            return None
        if r is None and len(c.args) > pos:
            r = c.args[pos]
        if r is None:
            x = d[0 if get else 1]
            return bool(cval(x)) if x is not None and is_const(x) else None
        return bool(r.value) if isinstance(r, ast.Constant) else None

    def pcall(x, nm):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == nm
    for f in p.all_func_nodes():
        inner = set()
        for x in ast.walk(f.node):
            if pcall(x, "set_parameters"):
                r = flag(x, False)
                t = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "theta"), None)
                where = f"{f.mod.rel}:{x.lineno} ({f.qual})"
                if pcall(t, "get_parameters"):
                    inner.add(t)
                    q = flag(t, True)
                    if q is not None and r is not None:
                        n += 1
                        rep.check(q == r, "scale", "vector passed between posteriors", where, "a raw vector is set as a natural one, or the reverse")
                elif r is not None:
                    n += 1
                    rep.check(r, "scale", "vector from the optimizer", where, "a vector of the optimizer (log scale) is set as natural parameters")
        for x in ast.walk(f.node):
            if pcall(x, "get_parameters") and x not in inner:
                r = flag(x, True)
                if r is not None:
                    n += 1
                    rep.check(r, "scale", "vector for the optimizer", f"{f.mod.rel}:{x.lineno} ({f.qual})", "natural parameters are handed to code that works on the log scale")
    rep.at_least("parameter vector calls", n, 4)


def run(p, rep):
    rep.rule("pack", "get_parameters returns [means component by component, scales, length scales, weights], each iff optimized, constrained parts in logs iff raw.")
    rep.rule("unpack", "set_parameters takes each parameter from exactly the part of the vector that holds it, in the same element order, undoing the logarithm iff raw.")
    rep.rule("bounds", "get_bounds builds the lower and upper vectors in the layout the bound loss penalizes.")
    rep.rule("bound-loss", "The bound loss slices the vector by the layout and returns its gradient in it.")
    rep.rule("gradient", "The gradients of the expected log joint and of the entropies are returned in the layout, one part per requested parameter, whether or not the parameters are transformed.")
    rep.rule("loop-writes", "Inside the gradient loops, indices address the axis they range over and stored arrays have the axes of the place they are stored in.")
    rep.rule("flags", "The ELBO requests gradients flag by flag in layout order, and reads log-weights from and adds the weight penalty to the weights' part.")
    rep.rule("scale", "Raw and natural vectors are never interchanged.")
    get_parameters(p, rep)
    set_parameters(p, rep)
    bounds(p, rep)
    bound_loss(p, rep)
    second = lambda v: v.a[1] if v.k in ("tup", "lst") and len(v.a) > 1 else None
    gradient(p, rep, "variational_optimization._gp_log_joint", second, {"compute_var": const(0), "separate_K": FALSE, "avg_flag": const(1)}, "expected log joint")
    gradient(p, rep, "entmc_vbmc.entmc_vbmc", second, {}, "Monte Carlo entropy")
    gradient(p, rep, "entlb_vbmc.entlb_vbmc", second, {}, "entropy lower bound")
    flags_order(p, rep)
    scale_flag(p, rep)
