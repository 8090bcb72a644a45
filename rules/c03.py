"""C03: original-space and transformed-space quantities are never mixed."""
from engine.absint import Config, Interp
from engine.program import AnalysisBroken
from engine.terms import *
from engine.lib import *
from engine.spaces import *
from engine.spaces import O, T_, X

EXPLANATION = (
    "Space (units-of-measure) inference over value-number terms of every function: points, bounds and log-densities are labelled original or "
    "transformed from declared sources (bounds, log columns, GP and mixture attributes, transform calls, sampling flags); every addition, "
    "comparison, concatenation, store into a labelled slot and call argument with a declared space is checked. Unlabelled values never alarm.")
MIXOPS = {"-", "+", "Lt", "LtE", "Gt", "GtE", "Eq", "NotEq", "lt", "le", "gt", "ge"}
MIXCALLS = {"np.minimum", "np.maximum", "np.clip", "np.append", "np.concatenate", "np.vstack", "np.hstack", "np.where", "np.fmin",
            "np.fmax", "scipy.spatial.distance.cdist", "np.isclose", "np.allclose", "np.array_equal", "np.row_stack", "np.add", "np.subtract"}
# (call, argument position or keyword) of external / attribute calls
EXTERNAL = {
    "GP.predict": {1: T_, "x_star": T_, 2: T_, "y_star": T_}, "GP.predict_full": {1: T_, "x_star": T_, 2: T_, "y_star": T_},
    "GP.fit": {1: T_, "X": T_, 2: T_, "y": T_}, "GP.update": {1: T_, "X_new": T_, 2: T_, "y_new": T_},
    "GP.quad": {}, "gpyreg.slice_sample.SliceSampler": {1: T_, 3: T_, 4: T_},
}
FLAGGED = {"VariationalPosterior.pdf": "x", "VariationalPosterior.log_pdf": "x"}
ORIG_CALLS = {"log_joint", "log_likelihood", "log_density", "fun", "log_prior"}
WHITEN = ("whitening.warp_input", "whitening.warp_gp_and_vp")


def run(p, rep):
    rep.rule("no-mix", "no operation combines or compares an original-space value with a transformed-space value")
    rep.rule("call-space", "every argument with a declared space receives a value of that space")
    rep.rule("slot-space", "every variable or state entry with a declared space is assigned values of that space")
    rep.rule("logjac-direction", "a log-density changes space only by adding (original) or subtracting (transformed) the log-Jacobian")
    rep.rule("right-transform", "in re-parameterization, points leave the old space by the old transform and enter the new space by the new one")
    rep.rule("crossings", "each stage crosses between the spaces where it must: the named slot is fed from a transform call or a slot of the same space")
    n = dict(op=0, callarg=0, store=0)
    for f, I, log in sweep(p, {"VBMC.__init__": ("VBMC._init_optim_state",)}):
        S = Spaces(I, f)
        rep.functions |= I.stats["functions"]
        for e in log:
            if e.kind == "op" and e.sig[0] in MIXOPS:
                n["op"] += mix(rep, S, [e.sig[1], e.sig[2]], e, e.sig[0])
                jacdir(rep, S, e)
            elif e.kind == "call":
                n["callarg"] += calls(p, rep, S, e)
            elif e.kind in ("setattr", "setidx"):
                n["store"] += store(rep, S, I, e)
        if f.qual in RETURNS and RETURNS[f.qual] and not f.qual.startswith("ParameterTransformer."):
            n["return"] = n.get("return", 0) + returns(rep, S, I, f)
    for k, v in n.items():
        if k != "return":
            rep.at_least("labelled " + k + "s", v, 20)
    whiten(p, rep)
    crossings(p, rep)


def returns(rep, S, I, f):
    want, n = RETURNS[f.qual], 0
    for s, c, v in Interp(I.p, Config()).run(f):
        if c != "return" or v is None:
            continue
        vs = list(v.a) if isinstance(want, tuple) and v.k == "tup" else [v]
        ws = want if isinstance(want, tuple) else (want,)
        for i, (x, w) in enumerate(zip(vs, ws)):
            got = S.sp(x)
            if w and got:
                n += 1
                rep.check(got == w, "slot-space", f"{f.name}: result {i}", f.where, f"result {i} must be in {w} space but {show(x, 5)} is {got}")
    return n


def mix(rep, S, args, e, what):
    ss = [S.sp(a) for a in args]
    known = [s for s in ss if s is not None]
    if len(known) < 2:
        return 0
    j = [jac(a) for a in args]
    if any(j):
        return 0
    rep.check(len(set(known)) == 1 and X not in known, "no-mix", f"{e.func}: {what} {short(args)}", e.where,
              f"{what} combines " + " with ".join(f"{show(a, 4)} ({s})" for a, s in zip(args, ss) if s))
    return 1


def short(args):
    return ", ".join(sorted(show(strip(a), 3)[:50] for a in args))


def jacdir(rep, S, e):
    op, a, b = e.sig
    if op not in ("+", "-"):
        return
    if op == "+" and (jac(a) or jac(b)) and not (jac(a) and jac(b)):
        o, s = (b, jac(a)) if jac(a) else (a, jac(b))
    elif op == "-" and jac(b) and not jac(a):
        o, s = a, -jac(b)
    else:
        return
    sp = S.sp(o)
    if sp is None:
        return
    rep.check(sp == (O if s > 0 else T_), "logjac-direction", f"{e.func}: {'+' if s > 0 else '-'} {show(strip(o), 3)[:60]}", e.where,
              f"log-Jacobian {'added to' if s > 0 else 'subtracted from'} the {sp} value {show(o, 4)}")


def calls(p, rep, S, e):
    qual, args, kws = e.sig[0], list(e.sig[1]), list(e.sig[2])
    if qual in MIXCALLS:
        a = args[1:] if qual == "np.where" else args
        if a and a[0].k in ("tup", "lst") and qual not in ("np.where",):
            a = list(a[0].a)
        a = [x for x in a if S.sp(x) is not None]
        return mix(rep, S, a, e, qual) if len(a) > 1 else 0
    want = []
    if qual in p.functions or qual in p.classes:
        b = bind(p, qual, args, kws)
        fq = qual if qual in p.functions else qual + ".__init__"
        for k, v in b.items():
            w = PARAMS.get((fq, k))
            if w is None and qual.endswith("._compute_acquisition_function") and k == "Xs":
                w = T_
            if w:
                want.append((k, v, w))
        if qual in FLAGGED and FLAGGED[qual] in b:
            fl = b.get("orig_flag", default_of(p, qual, "orig_flag") or TRUE)
            if is_const(fl):
                want.append((FLAGGED[qual], b[FLAGGED[qual]], O if cval(fl) else T_))
    if qual in EXTERNAL:
        for i, a in enumerate(args):
            if i in EXTERNAL[qual]:
                want.append((str(i), a, EXTERNAL[qual][i]))
        for k, v in kws:
            if k in EXTERNAL[qual]:
                want.append((k, v, EXTERNAL[qual][k]))
    last = args[0].a[1] if qual == "?call" and args and args[0].k == "attr" else qual.split(".")[-1]
    if last in ORIG_CALLS and len(args) > 1:
        want.append(("point", args[1], O))
    if last in ("log_pdf", "pdf") and qual not in FLAGGED and len(args) > 1 and (qual.startswith("Prior") or root_attr(args[0]) and
                                                                                  root_attr(args[0])[1] == "prior"):
        want.append(("point", args[1], O))
    n = 0
    for k, v, w in want:
        if v is NONE:
            continue
        s = S.sp(v)
        if s is None:
            continue
        n += 1
        rep.check(s == w, "call-space", f"{e.func}: {qual}({k})", e.where, f"argument {k} of {qual} must be in {w} space but {show(v, 5)} is {s}")
    return n


def store(rep, S, I, e):
    b, k, v = e.sig
    if e.kind == "setattr":
        w = S.named(b, k)
        slot = k
        if k == "x0" and I.cls_of(b) == "VBMC":
            w = None
        if I.cls_of(b) == "ParameterTransformer" and k in ("mu", "delta"):
            w = None
    elif is_const(k) and isinstance(cval(k), str):
        w = S.keyed(cval(k))
        slot = cval(k)
    else:
        w = S.sp(b)
        if b.k in ("call", "ite", "loop") and S.sp(b) is not None and root_attr(b) is None and not (b.k == "call" and b.a[0] in KEEP):
            w = None
        slot = (root_attr(b) or ("", show(strip(b), 2)))[1]
    s = S.sp(v)
    if w is None or s is None:
        return 0
    rep.check(s == w, "slot-space", f"{e.func}: {slot}", e.where, f"{slot} holds {w}-space values but is given {show(v, 5)} ({s})")
    return 1


def whiten(p, rep):
    """old transform out, new transform in"""
    f = p.func("whitening.warp_input")
    n = 0
    for q, oldp in (("whitening.warp_input", "vp"), ("whitening.warp_gp_and_vp", "vp_old")):
        f = p.func(q)
        I = Interp(p, Config(collect=True, track_call=lambda n: n.startswith("ParameterTransformer.") or n == "whitening.unscent_warp"))
        I.run(f)
        rep.used(I)
        todo = list(I.log)
        # closures handed to the sigma-point helper are analysed as well
        for e in I.log:
            if e.sig[0] == "whitening.unscent_warp":
                fn = e.sig[1][0]
                if fn.k == "fn" and fn in I.closures:
                    todo += closure_events(p, I, fn)
        for e in todo:
            qn = e.sig[0]
            if qn not in ("ParameterTransformer.__call__", "ParameterTransformer.inverse", "ParameterTransformer.log_abs_det_jacobian"):
                continue
            t, x = e.sig[1][0], e.sig[1][1]
            w = which(t, q, oldp)
            n += 1
            if qn.endswith("inverse"):
                rep.check(w == "old", "right-transform", f"{f.name}: inverse", e.where, f"points are mapped back with {show(t)}, not with the transform they were made by")
            elif qn.endswith("__call__"):
                rep.check(w == "new", "right-transform", f"{f.name}: direct", e.where, f"points are mapped with {show(t)}, not with the new transform")
            else:
                mapped = contains(x, lambda u: u.k == "call" and (u.a[0] == "ParameterTransformer.__call__" or u.a[0] == "whitening.unscent_warp" or u.a[0] == "?call"))
                rep.check(w == ("new" if mapped else "old"), "right-transform", f"{f.name}: log-Jacobian", e.where,
                          f"the log-Jacobian at {show(x, 4)} is taken with {show(t)}")
    rep.at_least("re-parameterization transform calls", n, 6)


def closure_events(p, I, fn):
    func, env, dfr = I.closures[fn]
    J = Interp(p, Config(collect=True, track_call=lambda n: n.startswith("ParameterTransformer.")))
    J.run(func, closure_env=dict(env), selfcls=dfr.selfcls)
    return J.log


def which(t, q, oldp):
    for x in subterms(t):
        if x.k == "attr" and x.a[1] == "parameter_transformer" and not copied(t, x):
            return "old"
    if q.endswith("warp_input"):
        return "new" if t.k == "call" and t.a[0].startswith("copy.") else None
    return "new" if unshape(t) is sym("parameter_transformer") else None


def copied(t, x):
    """t is a copy of the attribute x itself (the new transform of warp_input), not x of a copied object"""
    return t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy") and t.a[1][0] is x


BUILT = ("FunctionLogger", "VariationalPosterior")


def crossings(p, rep):
    """slots whose value has to come out of a transform call"""
    n = 0
    T, INV = "ParameterTransformer.__call__", "ParameterTransformer.inverse"
    f = p.func("VBMC._init_optim_state")
    I = Interp(p, Config(collect=True, track_store=lambda b, n: True))
    I.run(f)
    rep.used(I)
    src = {"lb_tran": "lower_bounds", "ub_tran": "upper_bounds", "plb_tran": "plausible_lower_bounds", "pub_tran": "plausible_upper_bounds"}
    got = {}
    for e in I.log:
        if e.kind == "setidx" and is_const(e.sig[1]):
            got.setdefault(cval(e.sig[1]), []).append(e)
    for k, a in src.items():
        es = got.get(k, [])
        n += 1
        ok = bool(es) and any(call_of(unshape(e.sig[2]), T, a) for e in es[:1])
        rep.check(ok, "crossings", f"_init_optim_state: {k}", f.where, f"{k} is not the transform of {a}")
    for k, a in {"lb_orig": "lower_bounds", "ub_orig": "upper_bounds", "plb_orig": "plausible_lower_bounds", "pub_orig": "plausible_upper_bounds"}.items():
        es = got.get(k, [])
        n += 1
        ok = bool(es) and root_attr(unshape(es[0].sig[2])) == (sym("self"), a)
        rep.check(ok, "crossings", f"_init_optim_state: {k}", f.where, f"{k} is not the validated {a}")
    rep.at_least("crossing slots", n, 8)
    # the recorder and the posterior of a run cross with the run's own transform
    f = p.func("VBMC.__init__")
    I = Interp(p, Config(path_sensitive=True, track_call=lambda n: n.split(".")[-1] in BUILT or n.endswith("__init__")))
    done = set()
    for s, c, v in I.run(f):
        if c == "raise":
            continue
        own = s.store.get(attr(sym("self"), "parameter_transformer"))
        for e in s.events:
            if e.kind != "call":
                continue
            nm = e.sig[0].replace(".__init__", "").split(".")[-1]
            if nm not in BUILT or any(x.k == "star" for x in e.sig[1]) or not all(isinstance(q, str) for q, _ in e.sig[2]):
                continue
            a = e.sig[1] if not e.sig[0].endswith("__init__") else e.sig[1][1:]
            got = (bind(p, nm, a, e.sig[2]) or {}).get("parameter_transformer")
            key = (nm, got is None, got is own)
            if key in done:
                continue
            done.add(key)
            rep.check(own is not None and got is own, "right-transform", f"transform of {nm}", e.where,
                      f"the {nm} of the run is built {'without a transform' if got is None else 'with ' + show(got, 3)}, not with the run's own")
    rep.used(I)
    rep.count("objects built with the run's transform", len(done))


def call_of(t, fn, a):
    return t.k == "call" and t.a[0] == fn and len(t.a[1]) > 1 and root_attr(unshape(t.a[1][1])) == (sym("self"), a)
