"""C04: direct, inverse and log-Jacobian of the parameter transform are one map."""
import ast
from engine.absint import Config, Interp, State
from engine.program import AnalysisBroken
from engine.terms import *
from engine.lib import *
from engine.poly import Norm, heads, showp, P, freeze

EXPLANATION = (
    "Abstract interpretation of the transform's three operations over all paths (rotation given or not, rescaling given or not, each "
    "variable type present or not, each transform type): the resulting value terms are decomposed into their sequence of elementary steps, "
    "and the inverse must be the reversed sequence of inverse steps, the log-Jacobian the sum of the step derivatives at the same point. "
    "Terms are compared in an algebraic normal form (polynomials over atoms). Unrecognized shapes are reported as notes, never as alarms.")
S = sym("self")
A = lambda n: attr(S, n)
MASK = sym("mask")
# elementary monotone maps of the unit interval and their inverses; both spellings of one function are listed together
FWD = {"parameter_transformer._logit": "logit", "scipy.special.logit": "logit", "parameter_transformer._probit": "probit",
       "scipy.special.ndtri": "probit", "parameter_transformer._student4": "student4"}
INV = {"parameter_transformer._inverse_logit": "logit", "scipy.special.expit": "logit", "parameter_transformer._inverse_probit": "probit",
       "scipy.special.ndtr": "probit", "parameter_transformer._inverse_student4": "student4"}
FAMILY = {"logit": "logit", "norminv": "probit", "probit": "probit", "student4": "student4"}
MATMUL = {"np.matmul", "np.dot"}


def demask(t):
    """x[:, mask] -> x, and copies/casts dropped"""
    if t.k == "idx":
        ks = key_parts(t.a[1])
        if all(x is MASK or x.k == "cmp" or (x.k == "mod" and x.a[0] == "numpy.newaxis") or x is NONE for x in ks):
            return t.a[0]
    return None


N = Norm(demask)


def peel(t, stop, d=0):
    """[(op, operand)] outermost first down to a term satisfying stop; None if unrecognized"""
    out = []
    while True:
        t = unshape(t)
        if stop(t):
            return out, t
        has = lambda x: contains(x, stop)
        if t.k == "bin" and t.a[0] == "/" and has(t.a[1]) and not has(t.a[2]):
            out.append(("mul", N.n(mk("bin", "/", const(1), t.a[2]))))
            t = t.a[1]
        elif t.k == "mul" or t.k == "add":
            ins = [x for x in t.a if has(x)]
            rest = [x for x in t.a if not has(x)]
            if len(ins) != 1:
                return None, t
            out.append((t.k, N.n(mk(t.k, *rest)) if len(rest) > 1 else N.n(rest[0])))
            t = ins[0]
        elif t.k == "bin" and t.a[0] == "-" and has(t.a[1]) and not has(t.a[2]):
            out.append(("add", N.n(mk("neg", t.a[2]))))
            t = t.a[1]
        elif t.k == "neg":
            out.append(("mul", N.n(const(-1))))
            t = t.a[0]
        elif t.k == "bin" and t.a[0] == "@" and has(t.a[1]) and not has(t.a[2]):
            out.append(("mat", unshape(t.a[2])))
            t = t.a[1]
        elif t.k == "call" and t.a[0] in MATMUL and len(t.a[1]) == 2 and has(t.a[1][0]) and not has(t.a[1][1]):
            out.append(("mat", unshape(t.a[1][1])))
            t = t.a[1][0]
        elif t.k == "call" and t.a[0] in ("np.minimum", "np.maximum", "np.fmin", "np.fmax", "np.clip") and has(t.a[1][0]) \
                and not any(has(x) for x in t.a[1][1:]):
            out.append(("clip", t.a[1][1:]))
            t = t.a[1][0]
        elif t.k == "call" and (t.a[0] in FWD or t.a[0] in INV) and len(t.a[1]) == 1:
            out.append(("f", t.a[0]))
            t = t.a[1][0]
        elif t.k == "call" and t.a[0] in ("parameter_transformer._center", "parameter_transformer._uncenter",
                                          "parameter_transformer._to_unit_interval", "parameter_transformer._from_unit_interval") and len(t.a[1]) >= 3:
            f, (x, a, b) = t.a[0].split(".")[1], t.a[1][:3]
            w = mk("bin", "-", b, a)
            out += {"_center": [("mul", N.n(mk("bin", "/", const(1), b))), ("add", N.n(mk("neg", a)))],
                    "_uncenter": [("add", N.n(a)), ("mul", N.n(b))],
                    "_to_unit_interval": [("mul", N.n(mk("bin", "/", const(1), w))), ("add", N.n(mk("neg", a)))],
                    "_from_unit_interval": [("add", N.n(a)), ("mul", N.n(w))]}[f]
            t = x
        elif t.k == "idx" and demask(t) is not None:
            t = t.a[0]
        elif t.k == "upd" and t.a[2].k == "call" and t.a[2].a[0] == "np.nextafter":
            t = t.a[0]
        else:
            return None, t
        d += 1
        if d > 60:
            return None, t


def simplify(steps):
    """merge adjacent multiplications/additions, drop identities"""
    out = []
    for op, v in steps:
        if op == "clip":
            continue
        if op == "mat" and v.k == "call" and v.a[0] in ("np.eye", "np.identity"):
            continue
        if out and out[-1][0] == op and op in ("mul", "add"):
            v = N.n(mk(op, out.pop()[1], v))
        if (op == "mul" and v is const_n(1)) or (op == "add" and v is const_n(0)):
            continue
        out.append((op, v))
    return out


def const_n(c):
    return N.n(const(c))


def text(steps):
    return " · ".join(f"{op} {showp(v, 4) if isinstance(v, T) else v}" for op, v in reversed(steps)) or "identity"


T = mk("sym", "x").__class__


def tr(m):
    if m.k == "call" and m.a[0] == "np.transpose":
        return m.a[1][0]
    return call("np.transpose", [m])


def inv_steps(steps):
    out = []
    for op, v in reversed(steps):
        if op == "mul":
            out.append((op, N.n(mk("bin", "/", const(1), v))))
        elif op == "add":
            out.append((op, N.n(mk("neg", v))))
        elif op == "mat":
            out.append((op, strip(tr(v))))
        else:
            out.append((op, v))
    return out


def run(p, rep):
    rep.rule("whitening-steps", "the direct map applies rotation then division by the scales exactly when they are set; inverse and log-Jacobian undo "
             "scales then rotation, exactly when they are set")
    rep.rule("type-steps", "each variable type uses one pair of direct and inverse steps: shift by the centre, division by the width, and their undoing")
    rep.rule("log-jacobian", "the log-Jacobian contains exactly one term for each step that changes volume, at the same intermediate point, summed over variables")
    rep.rule("tables", "every selectable transform type has a direct map, an inverse and a Jacobian of the same family")
    rep.rule("elementary", "the elementary bounded maps are the documented functions and their inverses")
    rep.rule("equality", "equality compares every parameter the map depends on, between the two objects")
    rep.rule("rotation-orthogonal", "the rotation installed by re-parameterization is an orthogonal factor, so its transpose is its inverse")
    types = tables(p, rep)
    whitening(p, rep, types)
    equality(p, rep)
    elementary(p, rep)
    rotation(p, rep)


# ------------------------------------------------------------------ whitening and unbounded variables
def given(facts, name):
    for t in (mk("cmp", "is", A(name), NONE), mk("cmp", "is", NONE, A(name))):
        if t in facts:
            return not facts[t]
    return None


def splits(I, s):
    """case split of a path on both whitening parameters being given"""
    out = [s]
    for nm in ("R_mat", "scale"):
        nx = []
        for x in out:
            if given(x.facts, nm) is not None:
                nx.append(x)
                continue
            for val in (True, False):
                y = I.assume(x, mk("cmp", "is", A(nm), NONE), val)
                if y is not None and consistent(I, y):
                    nx.append(y)
        out = nx
    return out


def consistent(I, s):
    for t, v in s.facts.items():
        if t.k in ("and", "or"):
            g = dict(s.facts)
            del g[t]
            z = s.copy()
            z.facts = g
            r = I.truth(t, z)
            if r is not None and r != v:
                return False
    return True


def absent(facts, mask):
    f = [facts.get(call(n, [mask])) for n in ("np.any", "np.sum", "any")]
    return False in f


def parts(t):
    """innermost base and [(mask, value)] of an upd chain"""
    out = []
    t = unshape(t)
    while t.k == "upd":
        ks = key_parts(t.a[1])
        if len(ks) != 1:
            return t, None
        out.append((ks[0], t.a[2]))
        t = unshape(t.a[0])
    return t, out


def whitening(p, rep, types):
    n = 0
    for nm, var in (("__call__", "x"), ("inverse", "u"), ("log_abs_det_jacobian", "u")):
        f = p.func("ParameterTransformer." + nm)
        arg = next((a for a in f.posonly[1:]), var)
        X = sym(arg)
        for tt in types:
            st = State()
            st.store[A("bounded_types")] = mk("lst", const(tt))
            I = Interp(p, Config(path_sensitive=True, cap=3000))
            for s, c, v in I.run(f, state=st):
                if c != "return" or v is None:
                    continue
                for s2 in splits(I, s):
                    R, sc = given(s2.facts, "R_mat"), given(s2.facts, "scale")
                    n += one(rep, f, nm, s2, I.simp(v, s2), X, R, sc, tt)
            rep.used(I)
    rep.at_least("paths through the three maps", n, 10)


def undo_expected(R, sc):
    """direct-side whitening steps, outermost first"""
    out = []
    if sc:
        out.append(("mul", N.n(mk("bin", "/", const(1), A("scale")))))
    if R:
        out.append(("mat", A("R_mat")))
    return out


def one(rep, f, nm, s, v, X, R, sc, tt):
    w = f.where
    t0 = mk("cmp", "eq", A("type"), const(0))
    t1 = mk("cmp", "eq", A("type"), const(tt))
    isX = lambda t: t is X
    label = f"{'with' if R else 'without'} rotation, {'with' if sc else 'without'} rescaling"
    R, sc = bool(R), bool(sc)
    if nm == "__call__":
        def inner(t):
            return t.k == "upd" or t is X
        steps, core = peel(v, inner)
        if steps is None:
            return unk(rep, nm, v)
        got = simplify(steps)
        want = undo_expected(R, sc)
        rep.check(got == want, "whitening-steps", f"direct ({label})", w, f"direct map applies [{text(got)}] after the per-variable maps, expected [{text(want)}]")
        base, ps = parts(core)
        if ps is None or base is not X:
            return unk(rep, nm, core)
        per_var(rep, w, s, ps, t0, t1, tt, "direct", isX, X, [])
        return 1
    if nm == "inverse":
        base, ps = parts(v)
        if ps is None:
            return unk(rep, nm, v)
        want = inv_steps(undo_expected(R, sc))
        steps, core = peel(base, isX)
        if steps is None:
            return unk(rep, nm, base)
        got = [(o, strip(x) if o == "mat" else x) for o, x in simplify(steps)]
        if not ps or not all(absent(s.facts, m) is False for m in (t0, t1)):
            rep.check(got == want, "whitening-steps", f"inverse ({label})", w, f"inverse undoes whitening by [{text(got)}], expected [{text(want)}]")
        per_var(rep, w, s, ps, t0, t1, tt, "inverse", isX, X, want)
        return 1
    # log-Jacobian
    v = unshape(v)
    if not (v.k == "call" and v.a[0] == "np.sum" and v.a[1]):
        return unk(rep, nm, v)
    ax = dict(v.a[2]).get("axis") or (v.a[1][1] if len(v.a[1]) > 1 else None)
    rep.check(ax is not None and is_const(ax) and cval(ax) in (1, -1), "log-jacobian", "sum over variables", w,
              f"the per-variable terms are summed over axis {show(ax) if ax is not None else 'None (all points together)'}")
    body = v.a[1][0]
    terms = []
    go = [(body, 1)]
    core = None
    while go:
        t, sg = go.pop()
        t = unshape(t)
        if t.k == "add":
            go += [(x, sg) for x in t.a]
        elif t.k == "bin" and t.a[0] == "-":
            go += [(t.a[1], sg), (t.a[2], -sg)]
        elif t.k == "neg":
            go.append((t.a[0], -sg))
        elif t.k == "upd" or (t.k == "call" and t.a[0] in ("np.zeros", "np.zeros_like")):
            if core is not None or sg != 1:
                return unk(rep, nm, v)
            core = t
        else:
            terms.append(t if sg == 1 else mk("neg", t))
    if core is None:
        return unk(rep, nm, v)
    got = N.n(mk("add", *terms)) if terms else const_n(0)
    want = N.n(call("np.log", [A("scale")])) if sc else const_n(0)
    if heads(got) <= {"call", "attr", "np.log", "np.sum", "np.abs", "mul", "add"}:
        rep.check(got is want, "log-jacobian", f"whitening term ({label})", w, f"log-Jacobian adds {showp(got)} for the whitening, expected {showp(want)}")
    base, ps = parts(core)
    if ps is None:
        return unk(rep, nm, core)
    per_var(rep, w, s, ps, t0, t1, tt, "jacobian", isX, X, inv_steps(undo_expected(R, sc)))
    return 1


def unk(rep, nm, v):
    note = f"{nm}: shape not recognized: {show(v, 4)}"
    if note not in rep.notes:
        rep.notes.append(note)
    return 1


def per_var(rep, w, s, ps, t0, t1, tt, what, isX, X, pre):
    """ps: [(mask, value)] outermost first"""
    eff = {}
    for m, val in ps:
        eff.setdefault(m, val)
    for m, nmk in ((t0, "unbounded"), (t1, f"type {tt}")):
        if absent(s.facts, m):
            continue
        val = eff.get(m)
        if not rep.check(val is not None, "type-steps", f"{what}: {nmk} variables", w, f"{nmk} variables get no {what} map"):
            continue
        val = unshape(val)
        if m is t1:
            if val.k == "call" and val.a[0] == "?call":
                tgt, args = val.a[1][0], val.a[1][1:]
                case = tgt.a[1] if tgt.k == "idx" else None
                key = tgt.a[0].a[1] if case is not None and tgt.a[0].k == "idx" else None
                rep.check(case is not None and is_const(case) and cval(case) == what and key is const(tt), "tables", f"{what}: case used", w,
                          f"the {what} of bounded variables calls {show(tgt)}")
                if len(args) >= 3:
                    rep.check(args[2] is m or N.n(args[2]) is N.n(m), "type-steps", f"{what}: mask passed", w, f"{what} computed for mask {show(args[2])}, stored for {show(m)}")
                    point(rep, w, what, nmk, args[1], isX, pre)
            continue
        if what == "jacobian":
            got, want = N.n(val), N.n(call("np.log", [A("delta")]))
            if heads(got) <= {"call", "attr", "np.log", "np.abs"}:
                rep.check(got is want, "log-jacobian", "unbounded variables", w, f"log-Jacobian of unbounded variables is {showp(got)}, expected {showp(want)}")
            continue
        steps, core = peel(val, isX)
        if steps is None:
            unk(rep, what, val)
            continue
        got = [(o, strip(x) if o == "mat" else x) for o, x in simplify(steps)]
        centre = [("mul", N.n(mk("bin", "/", const(1), A("delta")))), ("add", N.n(mk("neg", A("mu"))))]
        want = centre if what == "direct" else inv_steps(centre) + pre
        want = simplify(want)
        rep.check(got == want, "type-steps", f"{what}: {nmk} steps", w, f"{what} map of unbounded variables is [{text(got)}], expected [{text(want)}]")


def point(rep, w, what, nmk, x, isX, pre):
    steps, core = peel(x, isX)
    if steps is None:
        unk(rep, what, x)
        return
    got = [(o, strip(y) if o == "mat" else y) for o, y in simplify(steps)]
    want = simplify(pre)
    rep.check(got == want, "whitening-steps", f"{what}: point of bounded variables", w, f"{what} of bounded variables is taken after [{text(got)}], expected [{text(want)}]")


# ------------------------------------------------------------------ bounded types
def type_table(p):
    for n in ast.walk(p.func("ParameterTransformer.__init__").mod.tree):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) \
                and all(isinstance(v, ast.Constant) and isinstance(v.value, int) for v in n.values) and any(k.value == "logit" for k in n.keys):
            return {k.value: v.value for k, v in zip(n.keys, n.values)}
    return {"logit": 3, "norminv": 12, "probit": 12, "student4": 13}


def tables(p, rep):
    names = type_table(p)
    f = p.func("ParameterTransformer._set_bounded_transforms")
    done = 0
    for tt in sorted(set(names.values())):
        st = State()
        st.store[A("bounded_types")] = mk("lst", const(tt))
        I = Interp(p, Config(path_sensitive=True))
        outs = I.run(f, state=st)
        rep.used(I)
        users = sorted(k for k, v in names.items() if v == tt)
        ok = [s for s, c, v in outs if c == "return"]
        if not rep.check(bool(ok), "tables", f"type {tt}", f.where, f"transform type {tt} ({', '.join(users)}) is accepted but has no implementation"):
            continue
        for s in ok:
            fns = {}
            for path, v in s.store.items():
                if path.k == "idx" and is_const(path.a[1]) and v in I.closures:
                    fns[cval(path.a[1])] = v
                elif v.k == "dct" or (v.k == "upd" and path.k == "attr"):
                    for x in subterms(v):
                        if x.k == "tup" and len(x.a) == 2 and is_const(x.a[0]) and x.a[1] in I.closures:
                            fns.setdefault(cval(x.a[0]), x.a[1])
            miss = {"direct", "inverse", "jacobian"} - set(fns)
            if not fns:
                unk(rep, f"table of type {tt}", mk("tup", *[x for x in list(s.store.values())[:3]]))
                continue
            rep.check(not miss, "tables", f"type {tt}: cases", f.where, f"transform type {tt} lacks {sorted(miss)}")
            fams = {FAMILY[u] for u in users if u in FAMILY}
            rep.check(len(fams) <= 1, "tables", f"type {tt}: one family", f.where, f"the names {users} select one implementation (type {tt})")
            cases(p, rep, I, fns, tt, fams)
            done += 1
    rep.count("bounded types", done)
    return sorted(set(names.values()))


def cases(p, rep, I, fns, tt, fams):
    fam = None
    if len(fams) == 1:
        fam = next(iter(fams))
    centre = [("mul", N.n(mk("bin", "/", const(1), A("delta")))), ("add", N.n(mk("neg", A("mu"))))]
    lb, ub = A("lb_orig"), A("ub_orig")
    unit = [("mul", N.n(mk("bin", "/", const(1), mk("bin", "-", ub, lb)))), ("add", N.n(mk("neg", lb)))]
    for case in ("direct", "inverse", "jacobian"):
        if case not in fns:
            continue
        g, env, fr = I.closures[fns[case]]
        if len(g.posonly) != 3:
            unk(rep, f"type {tt} {case}", fns[case])
            continue
        args = {g.posonly[0]: S, g.posonly[1]: sym("x"), g.posonly[2]: MASK}
        keep = set(FWD) | set(INV)
        J = Interp(p, Config(path_sensitive=True, opaque=keep, inline=tuple(
            "parameter_transformer." + n for n in ("_center", "_uncenter", "_to_unit_interval", "_from_unit_interval"))))
        outs = J.run(g, args=args, closure_env=env)
        rep.used(J)
        where = f"{g.mod.rel}:{g.node.lineno} (type {tt} {case})"
        for s, c, v in outs:
            if c != "return":
                continue
            isX = lambda t: t is sym("x")
            if case == "jacobian":
                jac(rep, N.n(v), fam, tt, where)
                continue
            steps, core = peel(v, isX)
            if steps is None:
                unk(rep, f"type {tt} {case}", v)
                continue
            got = simplify(steps)
            fs = [x for o, x in got if o == "f"]
            tab = FWD if case == "direct" else INV
            if len(fs) != 1:
                unk(rep, f"type {tt} {case}", v)
                continue
            gf = tab.get(fs[0])
            rep.check(gf is not None and (fam is None or gf == fam), "tables", f"type {tt}: {case} family", where,
                      f"{case} of type {tt} applies {fs[0]}, not the {fam} {'map' if case == 'direct' else 'inverse'}")
            F = ("f", fs[0])
            want = simplify(centre + [F] + unit if case == "direct" else inv_steps(unit) + [F] + inv_steps(centre))
            rep.check(got == want, "type-steps", f"type {tt}: {case} steps", where, f"{case} of type {tt} is [{text(got)}], expected [{text(want)}]")


X = sym("x")


def jac_want(fam):
    y = mk("add", mk("mul", X, A("delta")), A("mu"))
    w = call("np.log", [mk("bin", "-", A("ub_orig"), A("lb_orig"))])
    l1 = lambda t: call("np.log1p", [t])
    if fam == "logit":
        j2 = mk("add", mk("neg", y), mk("mul", const(-2), l1(call("np.exp", [mk("neg", y)]))))
    elif fam == "probit":
        j2 = mk("add", mk("mul", const(-0.5), call("np.log", [mk("mul", const(2), mk("mod", "numpy.pi"))])), mk("mul", const(-0.5), mk("bin", "**", y, const(2))))
    elif fam == "student4":
        j2 = mk("add", call("np.log", [mk("bin", "/", const(3), const(8))]), mk("mul", const(-2.5), l1(mk("bin", "/", mk("bin", "**", y, const(2)), const(4)))))
    else:
        return None
    return N.n(mk("add", w, j2, call("np.log", [A("delta")])))


def jac(rep, got, fam, tt, where):
    want = jac_want(fam)
    if want is None:
        return
    if got is want:
        rep.ok("log-jacobian", f"type {tt}", where)
        return
    # +y - 2 log(1+e^y) is the same function (reflection)
    if fam == "logit":
        y = mk("add", mk("mul", X, A("delta")), A("mu"))
        alt = N.n(mk("add", call("np.log", [mk("bin", "-", A("ub_orig"), A("lb_orig"))]), y,
                     mk("mul", const(-2), call("np.log1p", [call("np.exp", [y])])), call("np.log", [A("delta")])))
        if got is alt:
            rep.ok("log-jacobian", f"type {tt}", where)
            return
    extra = heads(got) - heads(want) - {"np.log", "np.exp", "np.log1p"}
    if extra:
        unk(rep, f"type {tt} jacobian", got)
        return
    rep.bad("log-jacobian", f"type {tt}", where, f"log-Jacobian is {showp(got)}, expected {showp(want)}")


# ------------------------------------------------------------------ elementary functions
def core_of(v):
    """main-branch expression of a masked piecewise definition, with its special values"""
    special = []
    t = v
    main = None
    while t.k == "upd":
        val = t.a[2]
        if is_const(val) or (val.k in ("mod", "neg")):
            special.append((t.a[1], val))
        elif main is None:
            main = val
        else:
            return None, special
        t = unshape(t.a[0])
    if main is None:
        main = t if not special else None
    return main, special


def elementary(p, rep):
    z, u = sym("z"), sym("u")
    one_ = const(1)
    half = const(0.5)
    y2 = mk("bin", "**", u, const(2))
    q = mk("add", one_, mk("bin", "/", y2, const(4)))
    aa = call("np.sqrt", [mk("mul", const(4), z, mk("bin", "-", one_, z))])
    cosq = mk("bin", "/", call("np.cos", [mk("bin", "/", call("np.arccos", [aa]), const(3))]), aa)
    want = {
        "_logit": (z, call("np.log", [mk("bin", "/", z, mk("bin", "-", one_, z))])),
        "_inverse_logit": (u, mk("bin", "/", one_, mk("add", one_, call("np.exp", [mk("neg", u)])))),
        "_probit": (z, mk("mul", mk("neg", call("np.sqrt", [const(2)])), call("scipy.special.erfcinv", [mk("mul", const(2), z)]))),
        "_inverse_probit": (u, mk("mul", half, call("scipy.special.erfc", [mk("bin", "/", mk("neg", u), call("np.sqrt", [const(2)]))]))),
        "_student4": (z, mk("mul", call("np.sign", [mk("bin", "-", z, half)]), const(2), call("np.sqrt", [mk("bin", "-", cosq, one_)]))),
        "_inverse_student4": (u, mk("add", half, mk("mul", const(3 / 8), mk("bin", "/", u, call("np.sqrt", [q])),
                                                    mk("bin", "-", one_, mk("bin", "/", mk("bin", "/", y2, q), const(12)))))),
        "_center": (sym("u"), mk("bin", "/", mk("bin", "-", u, sym("mu")), sym("delta"))),
        "_uncenter": (sym("v"), mk("add", mk("mul", sym("v"), sym("delta")), sym("mu"))),
    }
    n = 0
    for nm, (var, w) in want.items():
        f = p.functions.get("parameter_transformer." + nm)
        if f is None:
            continue
        I = Interp(p, Config(path_sensitive=True))
        args = {f.posonly[0]: var}
        args.update({a: sym(b) for a, b in zip(f.posonly[1:], ("mu", "delta"))})
        for s, c, v in I.run(f, args=args):
            if c != "return":
                continue
            # piecewise definitions: drop masks from element selections and resolve the masked main branch
            M = Norm(lambda t: flat(t, var))
            got, exp = M.n(v), M.n(w)
            n += 1
            if got is exp:
                rep.ok("elementary", nm, f.where)
                continue
            extra = heads(got) - heads(exp) - {"np.log", "np.exp", "np.sqrt", "np.sign"}
            if extra:
                unk(rep, nm, got)
                continue
            rep.bad("elementary", nm, f.where, f"{nm} computes {showp(got)}, expected {showp(exp)}")
    rep.count("elementary functions", n)


def flat(t, var):
    """drop boolean-mask selections, and constant (boundary) or zero-initialised layers of piecewise definitions"""
    if t.k == "idx":
        k = t.a[1]
        if k.k in ("cmp", "inv", "not", "bin", "and", "or", "sym") or (k.k == "call" and not k.a[0].startswith("?")):
            return t.a[0]
    if t.k == "upd":
        v = t.a[2]
        if is_const(v) or v.k == "mod" or (v.k == "neg" and v.a[0].k == "mod"):
            return t.a[0]
        b = t.a[0]
        while b.k == "upd" and (is_const(b.a[2]) or b.a[2].k == "mod" or (b.a[2].k == "neg" and b.a[2].a[0].k == "mod")):
            b = b.a[0]
        if b.k == "call" and b.a[0] in ("np.zeros_like", "np.zeros", "np.empty_like", "np.full_like", "np.empty", "np.ones_like"):
            return v
    return None


# ------------------------------------------------------------------ equality
def equality(p, rep):
    f = p.func("ParameterTransformer.__eq__")
    other = f.posonly[1]
    used = set()
    cls = f.cls
    for nm in ("__call__", "inverse", "log_abs_det_jacobian", "_set_bounded_transforms"):
        for n in ast.walk(p.func("ParameterTransformer." + nm).node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                    and ("ParameterTransformer." + n.attr) not in p.functions:
                used.add(n.attr)
    used.discard("_bounded_transforms")     # derived from bounded_types
    rep.at_least("parameters of the map", len(used), 6)
    I = Interp(p, Config(path_sensitive=True, cap=3000))
    outs = I.run(f)
    rep.used(I)
    O = sym(other)
    for s, c, v in outs:
        if c != "return" or v is None:
            continue
        v = I.simp(v, s)
        if is_const(v) and not cval(v):
            continue
        if v.k in ("mod",) or (v.k == "sym" and v.a[0] == "NotImplemented"):
            continue
        conj = set()
        go = [v] + [t for t, b in s.facts.items() if b is True] + [mk("not", t) for t, b in s.facts.items() if b is False]
        opaque = False
        for t in go:
            conj |= conjuncts(t)
        opaque = any(x.k == "call" and x.a[0] in ("vars", "all", "getattr") or (x.k == "attr" and x.a[1] == "__dict__") or x.k in ("comp", "elem", "loop")
                     for y in go for x in subterms(y))
        for a in sorted(used):
            want = frozenset((attr(S, a), attr(O, a)))
            ok = any(frozenset(pair) == want for pair in conj)
            if not ok and opaque:
                unk(rep, "__eq__", v)
                continue
            rep.check(ok, "equality", a, f.where, f"two transforms that differ in {a} can compare equal")


def conjuncts(t):
    """pairs of terms known equal when t is true"""
    out = set()
    t = unshape(t)
    if t.k == "and":
        for x in t.a:
            out |= conjuncts(x)
    elif t.k == "bin" and t.a[0] == "&":
        out |= conjuncts(t.a[1]) | conjuncts(t.a[2])
    elif t.k == "call" and t.a[0] in ("np.all", "bool", "all") and t.a[1]:
        out |= conjuncts(t.a[1][0])
    elif t.k == "cmp" and t.a[0] in ("eq",):
        out.add((t.a[1], t.a[2]))
    elif t.k == "call" and t.a[0] in ("np.array_equal", "np.allclose", "np.array_equiv", "np.equal", "np.isclose") and len(t.a[1]) >= 2:
        out.add(tuple(t.a[1][:2]))
    elif t.k == "not":
        x = t.a[0]
        if x.k == "or":
            for y in x.a:
                out |= conjuncts(mk("not", y))
        elif x.k == "call" and x.a[0] in ("np.any", "any") and x.a[1]:
            out |= conjuncts(mk("not", x.a[1][0]))
        elif x.k == "not":
            out |= conjuncts(x.a[0])
        elif x.k == "inv" and x.a[0].k == "cmp" and x.a[0].a[0] == "eq":
            out.add((x.a[0].a[1], x.a[0].a[2]))
    elif t.k == "inv" and t.a[0].k == "cmp":
        pass
    return out


# ------------------------------------------------------------------ rotation
ORTHO_CALLS = {"np.linalg.svd": (0,), "scipy.linalg.svd": (0,), "np.linalg.qr": (0,), "np.linalg.eigh": (1,)}


def ortho(t, d=0):
    """True/False/None: is the term an orthogonal matrix"""
    t = unshape(t)
    if t.k == "call" and t.a[0] in ("np.eye", "np.identity"):
        return True
    if t.k == "call" and t.a[0] == "np.transpose":
        return ortho(t.a[1][0], d + 1)
    if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0] in ORTHO_CALLS and is_const(t.a[1]):
        return cval(t.a[1]) in ORTHO_CALLS[t.a[0].a[0]] or (t.a[0].a[0].endswith("svd") and cval(t.a[1]) == 2)
    if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0] == "np.linalg.eig":
        return None
    if t.k == "upd":        # sign flip of a column keeps orthogonality
        v = t.a[2]
        if v.k == "neg" and v.a[0].k == "idx" and v.a[0].a[1] is t.a[1]:
            return ortho(t.a[0], d + 1)
        return None
    if t.k == "ite":
        a, b = ortho(t.a[1], d + 1), ortho(t.a[2], d + 1)
        return a if a == b else (False if False in (a, b) else None)
    if t.k == "bin" and t.a[0] == "@":
        a, b = ortho(t.a[1], d + 1), ortho(t.a[2], d + 1)
        return True if a and b else (False if False in (a, b) else None)
    if t.k in ("mul", "neg") or (t.k == "bin" and t.a[0] in ("/", "*", "+", "-")) or t.k == "add":
        return None if t.k == "neg" else False
    if t.k == "attr" and t.a[1] == "R_mat":
        return True
    return None


def rotation(p, rep):
    n = 0
    for f in p.all_func_nodes():
        sites = [(b, a, nd) for b, a, nd in attr_writes(f) if a == "R_mat"]
        if not sites or f.qual == "ParameterTransformer.__init__":
            continue
        I = Interp(p, Config(track_store=lambda b, nme: nme == "R_mat"))
        for s, c, v in I.run(f):
            for e in s.events:
                if e.kind == "setattr" and e.sig[1] == "R_mat":
                    n += 1
                    o = ortho(e.sig[2])
                    if o is None:
                        unk(rep, "R_mat", e.sig[2])
                    else:
                        rep.check(o, "rotation-orthogonal", f"{f.name}: R_mat", e.where, f"R_mat is set to {show(e.sig[2])}, which need not be orthogonal")
    rep.count("rotation writes", n)
