"""C20: the inferred target is log-likelihood plus log-prior, with the noise passed through."""
import ast
from engine.absint import Config, Interp, State
from engine.lib import *
from engine.poly import Norm
from engine.terms import *
from rules.c21 import Core

EXPLANATION = (
    "Abstract interpretation of the log-joint construction, one scenario per (prior given or not) x noise mode: every closure that may become the target is itself "
    "interpreted on a symbolic point and its value compared, as a polynomial over the two calls, with log-likelihood + log-prior at that very point, each called once; "
    "the prior conversion is analysed per way of specifying a prior; the noise-mode decision and its uses are evaluated for each combination of options.")

LEVEL = "uncertainty_handling_level"
OPT = "specify_target_noise"
TH = sym("theta!")
CASTS = {"float", "np.asarray", "np.array", "np.copy", "np.float64", "np.squeeze", "np.ravel", "np.reshape", "np.item", "np.asarray_chkfinite", "copy.copy", "copy.deepcopy", "np.astype", "np.sum"}
COPY = {"np.asarray", "np.array", "np.copy", "copy.copy", "copy.deepcopy", "np.astype", "np.ascontiguousarray"}
N = Norm()
LL, PRS = sym("loglikelihood!"), sym("logprior!")


def uncast(t, names):
    def f(x):
        if x.k == "call" and x.a[0] in names and x.a[1]:
            return x.a[1][0]
        if x.k == "call" and x.a[3] is not None:
            return mk("call", x.a[0], x.a[1], x.a[2], None)
        return x
    return rewrite(t, f)


def level_state(lv, given=None):
    """a state in which the noise mode is known, and which way of specifying a prior is used"""
    s = State()
    s.store[idx(attr(sym("self"), "optim_state"), const(LEVEL))] = const(lv)
    for o in ("self",):
        s.store[idx(attr(sym(o), "options"), const(OPT))] = const(lv == 2)
    return s


def notnone(I, s, t):
    I._put(s, mk("cmp", "is", t, const(None)), False)


def log_pdf_call(t):
    """(prior term, point, other arguments) of a call to a prior's log-density, else None"""
    if t.k != "call":
        return None
    if t.a[0].split(".")[-1] == "log_pdf" and t.a[0] != "?call" and len(t.a[1]) >= 1:
        return t.a[1][0], t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("x"), t.a[1][2:]
    if t.a[0] == "?call" and t.a[1]:
        c = t.a[1][0]
        if c.k in ("bound", "attr") and c.a[1] == "log_pdf":
            return c.a[0], t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("x"), t.a[1][2:]
    return None


def target(p, rep):
    f = p.func("VBMC._init_log_joint")
    where = f"{f.mod.rel}:{f.node.lineno}"
    names = f.posonly[1:] if f.posonly and f.posonly[0] == "self" else f.posonly
    rep.rule("target", "the function handed to inference is log-likelihood(theta) + log-prior(theta), each called once with the point itself; noise SD unchanged")
    if not {"log_density", "prior", "log_prior", "sample_prior"} <= set(names):
        rep.notes.append("the construction of the log-joint takes other arguments")
        return
    LD = sym("log_density")
    npaths = 0
    for lv in (0, 1, 2):
        # no prior at all: the user's function itself
        I = Interp(p, Config(path_sensitive=True))
        for s, c, v in I.run(f, args={"prior": const(None), "log_prior": const(None), "sample_prior": const(None)}, state=level_state(lv)):
            npaths += 1
            if c != "return":
                rep.bad("target", "no prior: raises", where, "without a prior the construction of the target fails")
                continue
            if v.k != "tup" or len(v.a) != 3:
                rep.notes.append(f"result of the construction not recognised: {show(v, 3)}")
                continue
            lj = v.a[0]
            if lj is not LD:
                one_target(p, rep, I, s, lj, lv, LD, None, where, f"no prior, mode {lv}")
            else:
                rep.ok("target", f"no prior, mode {lv}", where)
            rep.check(v.a[2] is const(None), "target", "no prior: prior", where, f"without a prior, {show(v.a[2], 3)} is kept as the prior")
        rep.used(I)
        for give in ("prior", "log_prior", "sample_prior"):
            I = Interp(p, Config(path_sensitive=True, track_call=lambda n: n.endswith("convert_to_prior")))
            st = level_state(lv)
            notnone(I, st, sym(give))
            dim = None
            for s, c, v in I.run(f, args={n: const(None) for n in ("prior", "log_prior", "sample_prior") if n != give}, state=st):
                npaths += 1
                for e in s.events:
                    if e.kind == "call":
                        b = bind(p, "convert_to_prior.convert_to_prior", e.sig[1], e.sig[2])
                        for n, w in (("prior", "prior"), ("log_prior", "log_prior"), ("sample_prior", "sample_prior")):
                            exp = sym(n) if n == give else const(None)
                            rep.check(b.get(n, const(None)) is exp, "conversion arguments", f"argument {n}", e.where, f"the conversion of the prior receives {show(b.get(n, const(None)), 3)} as {n}")
                        rep.check(b.get("D") is attr(sym("self"), "D"), "conversion arguments", "argument D", e.where, "the dimension given to the conversion is not the problem's")
                if c != "return":
                    continue
                if v.k != "tup" or len(v.a) != 3:
                    rep.notes.append(f"result of the construction not recognised: {show(v, 3)}")
                    continue
                lj, ll, pr = v.a
                conv = [e.sig[3] for e in s.events if e.kind == "call"]
                lab = f"{give} given, mode {lv}"
                if not conv and pr is const(None):
                    rep.bad("target", f"{give} ignored", where, f"a {give} given by the user is ignored")
                    continue
                if conv:
                    rep.check(pr is conv[-1], "target", "kept prior", where, f"the prior kept is {show(pr, 3)}, not the converted one")
                # dimension
                D = attr(sym("self"), "D")
                okd = any(t.k == "cmp" and t.a[0] == "eq" and {t.a[1], t.a[2]} == {attr(pr, "D"), D} and b for t, b in s.facts.items())
                if not okd:
                    dim = (pr, s)
                if lj is LD:
                    r = no_log_pdf(I, s, pr)
                    rep.check(r is not False, "target", f"log-prior left out ({give} given)", where, "a prior was given but its log-density is not added to the target")
                    continue
                rep.check(ll is LD, "target", "kept log-likelihood", where, f"the log-likelihood kept is {show(ll, 3)}, not the user's function")
                one_target(p, rep, I, s, lj, lv, LD, pr, where, lab)
            rep.used(I)
            if dim is not None:
                refuse(p, rep, f, give, lv, where)
            else:
                rep.ok("dimension", f"{give} given, mode {lv}", where)
    rep.count("construction paths", npaths)
    rep.at_least("construction paths", npaths, 6)


def no_log_pdf(I, s, pr):
    """False when the path is known to have a log-density for the prior, or does not depend on it"""
    for t in (attr(pr, "log_pdf"), mk("bound", pr, "log_pdf", "Prior")):
        z = I.truth(mk("cmp", "is", t, const(None)), s)
        if z is True:
            return True
    q = [t for t in s.facts if contains(t, lambda x: x.k in ("bound", "attr") and x.a[1] == "log_pdf" or is_const(x) and cval(x) == "log_pdf")]
    if not q:
        return False
    for t in q:
        # the condition under which the path is taken must force the absence of a log-density
        for b in [x for x in subterms(t) if x.k == "cmp" and x.a[0] == "is" and x.a[1].k in ("bound", "attr") and x.a[1].a[1] == "log_pdf"]:
            if not holds_with(I, s.facts, {b: False, mk("cmp", "is", pr, const(None)): False}):
                return True
    return False if all(t.k in ("cmp", "not", "and", "or") for t in q) else None


def one_target(p, rep, I, s, lj, lv, LD, PR, where, lab):
    """the closure lj must compute LD(theta) + PR.log_pdf(theta) (PR None: LD(theta))"""
    if lj.k == "bound" and PR is None and False:
        return
    if lj not in I.closures:
        rep.notes.append(f"target not recognised ({lab}): {show(lj, 3)}")
        if PR is not None and (lj.k in ("sym",) or lj is const(None)):
            rep.bad("target", f"value ({lab})", where, f"the target is {show(lj, 3)}")
        return
    g, env, fr = I.closures[lj]
    node = g.node
    w = f"{g.mod.rel}:{node.lineno}"
    if not g.posonly:
        rep.notes.append(f"target closure without arguments ({lab})")
        return
    J = Interp(p, Config(path_sensitive=True, track_call=lambda n: n == "?call" or n.endswith("log_pdf")))
    J.closures.update(I.closures)
    st = s.copy()
    st.events = ()
    for z, c, v in J.run(g, args={g.posonly[0]: TH}, state=st, closure_env=dict(env)):
        if c != "return":
            rep.bad("target", f"raises ({lab})", w, "the target raises by itself")
            continue
        nl = nr = 0
        bad = False
        for e in z.events:
            if e.kind != "call":
                continue
            t = e.sig[3]
            lp = log_pdf_call(t)
            if lp is not None:
                nr += 1
                pt = lp[1]
                if PR is not None and lp[0] is not PR and not (lp[0].k == "sym" and lp[0].a[0] == "self"):
                    rep.check(lp[0] is not const(None), "target", f"log-prior of {show(lp[0], 2)} ({lab})", e.where, "the log-prior evaluated is not that of the prior kept")
            elif e.sig[0] == "?call" and e.sig[1] and e.sig[1][0] is LD:
                nl += 1
                pt = e.sig[1][1] if len(e.sig[1]) > 1 else None
            elif e.sig[0] == "?call" and e.sig[1] and e.sig[1][0] in (sym("log_prior"), const(None)):
                nr += 1
                pt = e.sig[1][1] if len(e.sig[1]) > 1 else None
            else:
                continue
            if pt is None:
                continue
            q = uncast(pt, COPY)
            if q is not TH and contains(q, lambda x: x is TH) and not (q.k == "call" and q.a[0].startswith("np.atleast")):
                bad = True
                rep.bad("target", f"point of the {'log-prior' if lp else 'log-likelihood'} ({lab})", e.where, f"it is evaluated at {show(pt, 3)} instead of the point given")
            elif q is not TH and not contains(q, lambda x: x is TH):
                rep.bad("target", f"point of the {'log-prior' if lp else 'log-likelihood'} ({lab})", e.where, f"it is evaluated at {show(pt, 3)} instead of the point given")
        rep.check(nl == 1, "target", f"log-likelihood calls ({lab})", w, f"the log-likelihood is evaluated {nl} times per target evaluation")
        if PR is not None:
            rep.check(nr == 1, "target", f"log-prior calls ({lab})", w, f"the log-prior is evaluated {nr} times per target evaluation")
        compare(rep, v, lv, LD, PR, w, lab)


def compare(rep, v, lv, LD, PR, w, lab):
    v = uncast(v, CASTS - {"np.sum"})
    if lv == 2 and not (v.k == "tup" and len(v.a) == 2):
        if v.k == "call" and v.a[0] == "?call" and v.a[1] and v.a[1][0] is LD and PR is None:
            rep.ok("target", f"value ({lab})", w)
            return
        rep.bad("target", f"noise ({lab})", w, f"the target returns {show(v, 4)} although a noise estimate is due")
        return
    if lv != 2 and v.k == "tup":
        rep.bad("target", f"noise ({lab})", w, f"the target returns {show(v, 4)} although no noise estimate is expected")
        return
    val = v.a[0] if lv == 2 else v

    def is_ll(t):
        if lv == 2:
            return t.k == "idx" and t.a[1] is const(0) and is_call(t.a[0])
        return is_call(t)

    def is_call(t):
        return t.k == "call" and t.a[0] == "?call" and t.a[1] and t.a[1][0] is LD

    def is_pr(t):
        return log_pdf_call(t) is not None or t.k == "call" and t.a[0] == "?call" and t.a[1] and t.a[1][0] is sym("log_prior")
    def sub(x):
        return LL if is_ll(x) else PRS if is_pr(x) else x
    pl = N.poly(rewrite(val, sub))
    ll = pr = other = 0
    for m, k in pl.items():
        m = list(m)
        if len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0] is LL:
            ll += 1
        elif len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0] is PRS:
            pr += 1
        else:
            other += 1
    good = ll == 1 and pr == (PR is not None) and not other
    if not good and contains(val, lambda x: x.k in ("havoc", "loop", "phi")):
        rep.notes.append(f"value of the target not recognised ({lab}): {show(val, 5)}")
    else:
        rep.check(good, "target", f"value ({lab})", w, f"the target's value is {show(val, 5)}, not log-likelihood + log-prior" if PR is not None else f"the target's value is {show(val, 5)}, not the log-density")
    if lv == 2:
        sd = v.a[1]
        rep.check(sd.k == "idx" and sd.a[1] is const(1) and is_call(sd.a[0]), "target", f"noise ({lab})", w, f"the noise estimate returned is {show(sd, 4)}, not the one reported by the user's function")


def refuse(p, rep, f, give, lv, where):
    """the dimension may be checked by the conversion itself"""
    cv = p.func("convert_to_prior.convert_to_prior")
    I = Interp(p, Config(path_sensitive=True))
    st = State()
    notnone(I, st, sym(give))
    notnone(I, st, sym("D"))
    ok = None
    for s, c, v in I.run(cv, args={n: const(None) for n in ("prior", "log_prior", "sample_prior") if n != give}, state=st):
        if c == "return":
            if v.k == "call" and v.a[0] == "UserFunction":
                continue
            ok = any(t.k == "cmp" and t.a[0] == "eq" and sym("D") in (t.a[1], t.a[2]) and attr(v, "D") in (t.a[1], t.a[2]) and b for t, b in s.facts.items())
            if not ok:
                break
    rep.check(bool(ok) or give != "prior" and ok is None, "dimension", f"{give} given", where, "a prior whose dimension differs from the problem's is accepted")


# ------------------------------------------------------------------ conversion
def conversion(p, rep):
    f = p.func("convert_to_prior.convert_to_prior")
    where = f"{f.mod.rel}:{f.node.lineno}"
    rep.rule("conversion", "each way of specifying a prior gives the matching Prior, two conflicting ways and anything else are refused")
    P_, LP, SP = sym("prior"), sym("log_prior"), sym("sample_prior")
    good = 0

    def isinst(s, nm):
        for t, b in s.facts.items():
            if b and t.k == "call" and t.a[0] == "isinstance" and len(t.a[1]) == 2 and t.a[1][0] is P_:
                x = t.a[1][1]
                ns = [y for y in (x.a if x.k in ("tup", "lst") else [x])]
                if any(nm in show(y, 3) for y in ns):
                    return True
        return False

    def scipy_ok(s):
        return any(b and t.k == "call" and t.a[0].endswith("is_valid_scipy_dist") for t, b in s.facts.items())
    # prior given
    for other in ("log_prior", "sample_prior", None):
        I = Interp(p, Config(path_sensitive=True))
        st = State()
        notnone(I, st, P_)
        args = {n: const(None) for n in ("log_prior", "sample_prior") if n != other}
        if other:
            notnone(I, st, sym(other))
        for s, c, v in I.run(f, args=args, state=st):
            if c != "return":
                continue
            good += 1
            if v is P_:
                rep.check(isinst(s, "Prior"), "conversion", "prior returned unchanged", where, "an object that is not known to be a Prior is accepted as one")
            elif v.k == "call" and v.a[0] == "Product":
                rep.check(v.a[1] and v.a[1][0] is P_ and (isinst(s, "list") or isinst(s, "tuple")), "conversion", "product", where, "a Product prior is built from something that is not the list given")
            elif v.k == "call" and v.a[0] == "SciPy":
                rep.check(v.a[1] and v.a[1][0] is P_ and scipy_ok(s), "conversion", "scipy", where, "a SciPy prior is built from an object not validated as a SciPy distribution")
            elif v.k == "call" and v.a[0] == "UserFunction":
                rep.bad("conversion", "prior dropped", where, "the prior given is dropped in favour of user functions")
            elif v is const(None):
                rep.bad("conversion", "result", where, "the conversion yields no prior")
            else:
                rep.notes.append(f"converted prior not recognised: {show(v, 4)}")
                continue
            if other and v.k != "phi":
                meth = {"log_prior": "log_pdf", "sample_prior": "sample"}[other]
                okq = any(t.k == "cmp" and t.a[0] in ("eq",) and sym(other) in (t.a[1], t.a[2]) and any(x.k in ("bound", "attr") and x.a[1] == meth for x in t.a[1:]) and b for t, b in s.facts.items()) \
                    or any(t.k == "cmp" and t.a[0] == "is" and sym(other) in t.a[1:] and any(x.k in ("bound", "attr") and x.a[1] == meth for x in t.a[1:]) and b for t, b in s.facts.items())
                rep.check(okq, "conversion", f"prior and {other}", where, f"a {other} different from the prior's own is accepted next to a prior")
        rep.used(I)
    # functions given
    for give in (("log_prior",), ("sample_prior",), ("log_prior", "sample_prior")):
        I = Interp(p, Config(path_sensitive=True))
        st = State()
        for g in give:
            notnone(I, st, sym(g))
        for s, c, v in I.run(f, args={n: const(None) for n in ("prior", "log_prior", "sample_prior") if n not in give}, state=st):
            if c != "return":
                continue
            good += 1
            if v.k == "call" and v.a[0] == "UserFunction":
                b = bind(p, "UserFunction", v.a[1], v.a[2])
                for n in ("log_prior", "sample_prior"):
                    exp = sym(n) if n in give else const(None)
                    rep.check(b.get(n, const(None)) is exp, "conversion", f"user function {n}", where, f"the user prior is built with {show(b.get(n, const(None)), 3)} as {n}")
                rep.check(b.get("D") is sym("D"), "conversion", "user function D", where, "the user prior is not built with the dimension given")
            elif v is const(None) or v.k == "call" and v.a[0] in ("Product", "SciPy"):
                if any(b and t.k == "call" and t.a[1] and t.a[1][0] is const(None) for t, b in s.facts.items()):
                    continue        # infeasible: isinstance(None, ...) assumed true
                rep.bad("conversion", "user functions dropped", where, f"the user's functions give {show(v, 3)}")
        rep.used(I)
    # nothing given
    I = Interp(p, Config(path_sensitive=True))
    rep.count("conversion paths", good)
    rep.at_least("conversion paths", good, 4)


def user_function(p, rep):
    """the user's own functions are what the wrapper exposes"""
    c = p.classes.get("UserFunction")
    if c is None or "__init__" not in c.methods:
        return
    f = c.methods["__init__"]
    rep.rule("wrapper", "the wrapper of user functions exposes the very functions given")
    I = Interp(p, Config(path_sensitive=True))
    n = 0
    for s, ct, v in I.run(f):
        if ct == "raise":
            continue
        for a, src in (("log_pdf", "log_prior"), ("sample", "sample_prior"), ("D", "D")):
            x = s.store.get(attr(sym("self"), a))
            if x is None:
                continue
            n += 1
            if x.k in ("fn", "bound"):
                rep.notes.append(f"user function wrapper: {a} is {show(x, 3)}")
                continue
            rep.check(x is sym(src), "wrapper", f"{a}", f"{f.mod.rel}:{f.node.lineno}", f"{a} of the wrapper is {show(x, 3)}")
    rep.used(I)


# ------------------------------------------------------------------ wiring
def wiring(p, rep):
    f = p.func("VBMC.__init__")
    rep.rule("wiring", "the recorded target, its noise mode and the prior kept are those constructed; nothing rewires them later")
    I = Interp(p, Config(collect=True, track_call=lambda n: n.split(".")[-1] in ("_init_log_joint", "FunctionLogger"),
                         track_store=lambda b, n: n in ("log_joint", "log_likelihood", "prior"), opaque={"VBMC._init_log_joint", "VBMC._init_optim_state", "VBMC._bounds_check"}))
    I.run(f)
    rep.used(I)
    built = None
    nfl = 0
    for e in I.log:
        if e.kind == "call" and e.sig[0].endswith("_init_log_joint"):
            built = e.sig[3]
            b = bind(p, "VBMC._init_log_joint", e.sig[1], e.sig[2])
            for n in ("log_density", "prior", "log_prior", "sample_prior"):
                x = b.get(n)
                if x is None and n in b:
                    continue
                rep.check(x is sym(n), "wiring", f"construction argument {n}", e.where, f"the log-joint is constructed with {show(x, 3) if x is not None else 'nothing'} as {n}")
    if built is None:
        rep.notes.append("construction of the log-joint not found in the constructor")
        return
    want = {"log_joint": idx(built, const(0)), "log_likelihood": idx(built, const(1)), "prior": idx(built, const(2))}
    for e in I.log:
        if e.kind == "store":
            n, v = e.sig[1], e.sig[2]
            if n in want and is_const(n) is False and isinstance(n, str):
                if contains(v, lambda x: x is built):
                    rep.check(v is want[n], "wiring", f"self.{n}", e.where, f"self.{n} is {show(v, 3)}")
                elif n == "log_joint":
                    rep.bad("wiring", "self.log_joint", e.where, f"self.log_joint is {show(v, 3)}, not the constructed log-joint")
        if e.kind == "call" and e.sig[0].split(".")[-1] == "FunctionLogger" or e.kind == "call" and e.sig[0].startswith("FunctionLogger.__init__"):
            nfl += 1
            b = bind(p, "FunctionLogger", e.sig[1], e.sig[2])
            x = b.get("fun")
            if x is not None:
                if x is attr(sym("self"), "log_joint"):
                    x = want["log_joint"]
                if not contains(x, lambda z: z.k in ("havoc", "loop")):
                    rep.check(x is want["log_joint"], "wiring", "recorded function", e.where, f"the evaluated function is {show(x, 3)}, not the constructed log-joint")
            lv = b.get("uncertainty_handling_level")
            nf = b.get("noise_flag")
            lvl = lambda t: t.k == "idx" and t.a[1] is const(LEVEL)
            if lv is not None:
                y = uncast(lv, {"int"})
                if y.k in ("idx", "attr", "const", "sym") or is_const(y):
                    rep.check(lvl(y), "wiring", "noise mode", e.where, f"the recorder's noise mode is {show(lv, 3)}")
            if nf is not None:
                flag(p, rep, nf, lvl, e.where)
    rep.at_least("recorder constructions", nfl, 1)


def flag(p, rep, t, lvl, where):
    """noise flag as a function of the mode: False, True, True"""
    terms = [x for x in subterms(t) if lvl(x)]
    if not terms:
        if contains(t, lambda x: is_const(x) and cval(x) == OPT):
            rep.bad("wiring", "noise flag", where, "the recorder's noise flag covers only user-specified noise")
        elif is_const(t):
            rep.bad("wiring", "noise flag", where, "the recorder's noise flag is a constant")
        else:
            rep.notes.append(f"noise flag not recognised: {show(t, 4)}")
        return
    for v, want in ((0, False), (1, True), (2, True)):
        I = Interp(p)
        z = rewrite(t, lambda x: const(v) if lvl(x) else x)
        r = ev(z)
        if r is None:
            rep.notes.append(f"noise flag not evaluated: {show(t, 4)}")
            return
        rep.check(r == want, "wiring", f"noise flag in mode {v}", where, f"in noise mode {v} the recorder's noise flag is {r}")


def ev(t):
    """value of a term over constants, or None"""
    if is_const(t):
        return cval(t)
    if t.k == "cmp" and t.a[0] == "is":
        a = ev(t.a[1])
        return None if a is None else a is ev(t.a[2])
    if t.k == "cmp" and t.a[0] == "in":
        a = ev(t.a[1])
        c = t.a[2]
        if a is None or c.k not in ("tup", "lst", "set") or not all(is_const(x) for x in c.a):
            return None
        return a in [cval(x) for x in c.a]
    if t.k == "cmp":
        a, b = ev(t.a[1]), ev(t.a[2])
        if a is None or b is None:
            return None
        return {"lt": a < b if not isinstance(a, str) else None, "le": a <= b if not isinstance(a, str) else None, "eq": a == b, "ne": a != b}.get(t.a[0])
    if t.k in ("not", "inv") or t.k == "un" and t.a[0] == "not":
        a = ev(t.a[-1])
        return None if a is None else not a
    if t.k == "and":
        r = [ev(x) for x in _parts(t)]
        return False if False in r else None if None in r else all(r)
    if t.k == "or":
        r = [ev(x) for x in _parts(t)]
        return True if True in r else None if None in r else any(r)
    if t.k == "call" and t.a[0] in ("bool", "int") and len(t.a[1]) == 1:
        a = ev(t.a[1][0])
        return None if a is None else {"bool": bool, "int": int}[t.a[0]](a)
    if t.k == "ite":
        c = ev(t.a[0])
        return None if c is None else ev(t.a[1] if c else t.a[2])
    return None


def _parts(t):
    out = []
    for x in t.a:
        out += list(x) if isinstance(x, (tuple, frozenset)) else [x]
    return out


def writers(p, rep):
    """who may rewire"""
    own = {"fun": "FunctionLogger", "noise_flag": "FunctionLogger", LEVEL: "FunctionLogger"}
    n = 0
    for f in p.all_func_nodes():
        for be, a, node in attr_writes(f):
            if a in own or a in ("log_joint", "log_likelihood"):
                n += 1
                home = own.get(a, "VBMC")
                good = f.qual == f"{home}.__init__" or only_called_from(p, f, {f"{home}.__init__"})
                if a == "fun" and not good and f.cls is not None and f.cls.name != home and isinstance(be, ast.Name) and be.id == "self":
                    continue            # an attribute of the same name of another class
                rep.check(good, "wiring", f"writer of {a}", f"{f.mod.rel}:{node.lineno}", f"{a} is assigned outside the constructor of {home}")
    rep.count("assignments of target and mode", n)


# ------------------------------------------------------------------ noise mode
def mode(p, rep):
    f = p.func("VBMC._init_optim_state")
    rep.rule("noise mode", "mode 2 iff target noise is specified, else 1 iff uncertainty handling is requested, else 0; surrogate noise model and recorder follow the mode")
    lk = const(LEVEL)
    n = 0
    for spec, unc, want in ((True, True, 2), (True, False, 2), (False, True, 1), (False, False, 0)):
        for shaping in (False, True):
            I = Interp(p, Config(collect=True, track_store=lambda b, k: True))
            st = State()
            o = attr(sym("self"), "options")
            st.store[idx(o, const(OPT))] = const(spec)
            st.store[idx(o, const("uncertainty_handling"))] = mk("lst", const(1)) if unc else mk("lst")
            st.store[idx(o, const("noise_shaping"))] = const(shaping)
            st.store[idx(o, const("acq_hedge"))] = const(False)
            out = I.run(f, state=st)
            for s, c, v in out:
                if c != "return":
                    continue
                lv = s.store.get(idx(v, lk)) or s.store.get(idx(attr(sym("self"), "optim_state"), lk))
                if lv is None:
                    lv = I.read_idx(s, v, lk)
                nf = s.store.get(idx(v, const("gp_noise_fun"))) or I.read_idx(s, v, const("gp_noise_fun"))
                if not is_const(lv):
                    rep.notes.append(f"noise mode not determined for {spec, unc}: {show(lv, 4)}")
                    continue
                n += 1
                rep.check(cval(lv) == want, "noise mode", f"mode when target noise {'is' if spec else 'is not'} specified and uncertainty handling {'is' if unc else 'is not'} requested",
                          f"{f.mod.rel}:{f.node.lineno}", f"the noise mode becomes {cval(lv)} instead of {want}")
                x = plain_list(nf)
                if x is None:
                    rep.notes.append(f"surrogate noise model not determined: {show(nf, 4)}")
                    continue
                exp = {0: [1, 0, 0], 1: [1, 2, 0], 2: [1, 1, 0]}[want]
                if shaping and exp[1] == 0:
                    exp = [1, 1, 0]
                rep.check(x == exp, "noise mode", f"surrogate noise in mode {want}{' with noise shaping' if shaping else ''}", f"{f.mod.rel}:{f.node.lineno}",
                          f"the surrogate's noise model is {x} instead of {exp}")
            rep.used(I)
    rep.count("mode scenarios", n)


def plain_list(t):
    if t.k in ("lst", "tup"):
        return [cval(x) for x in t.a] if all(is_const(x) for x in t.a) else None
    if t.k == "upd":
        b = plain_list(t.a[0])
        if b is None or not is_const(t.a[1]) or not is_const(t.a[2]):
            return None
        b[cval(t.a[1])] = cval(t.a[2])
        return b
    if t.k == "call" and t.a[0] in ("np.array", "np.asarray", "list") and t.a[1]:
        return plain_list(t.a[1][0])
    return None


def recorder(p, rep):
    """what the recorder does with the target's result, per mode"""
    f = p.func("FunctionLogger.__call__")
    n = 0
    for lv, nf in ((0, False), (1, True), (2, True)):
        I = Interp(p, Config(path_sensitive=True, track_call=lambda x: x == "?call" or x.endswith("_record")))
        st = State()
        st.store[attr(sym("self"), "noise_flag")] = const(nf)
        st.store[attr(sym("self"), LEVEL)] = const(lv)
        fun = attr(sym("self"), "fun")
        for s, c, v in I.run(f, state=st):
            if c != "return" or v.k != "tup" or len(v.a) != 3:
                continue
            n += 1
            sd = uncast(v.a[1], CASTS)
            call_ = lambda t: t.k == "call" and t.a[0] == "?call" and t.a[1] and t.a[1][0] is fun
            if lv == 0:
                ok = sd is const(None)
            elif lv == 1:
                ok = is_const(sd) and cval(sd) == 1
            else:
                ok = sd.k == "idx" and sd.a[1] is const(1) and call_(sd.a[0])
            if not ok and contains(sd, lambda x: x.k in ("havoc", "loop", "phi")):
                rep.notes.append(f"noise recorded in mode {lv}: {show(sd, 4)}")
                continue
            rep.check(ok, "noise mode", f"noise recorded in mode {lv}", f"{f.mod.rel}:{f.node.lineno}", f"in noise mode {lv} the noise SD recorded is {show(sd, 4)}")
            for e in s.events:
                if e.kind == "call" and e.sig[0].endswith("_record"):
                    b = bind(p, "FunctionLogger._record", e.sig[1], e.sig[2])
                    y = uncast(b.get("f_val_orig", const(None)), CASTS | {"np.flat"})
                    while y.k == "idx" and y.a[1] is const(0) and y.a[0].k == "attr" and y.a[0].a[1] == "flat":
                        y = uncast(y.a[0].a[0], CASTS)
                    if lv == 2:
                        okv = y.k == "idx" and y.a[1] is const(0) and call_(y.a[0])
                    else:
                        okv = call_(y)
                    if y.k in ("idx", "call", "bin", "neg") and not contains(y, lambda x: x.k in ("havoc", "loop", "phi")):
                        rep.check(okv, "noise mode", f"value recorded in mode {lv}", e.where, f"in noise mode {lv} the value recorded is {show(y, 4)}")
        rep.used(I)
    rep.count("recorder paths", n)


def run(p, rep):
    rep.rule("dimension", "a prior of another dimension is refused")
    rep.rule("conversion arguments", "the conversion receives the user's prior, log_prior, sample_prior and the problem's dimension")
    target(p, rep)
    conversion(p, rep)
    user_function(p, rep)
    wiring(p, rep)
    writers(p, rep)
    mode(p, rep)
    recorder(p, rep)
