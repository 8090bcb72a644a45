"""C28: the number of mixture components adapts as documented."""
from itertools import product

from engine.absint import Config, Interp
from engine.decision import Conditions, assignments
from engine.lib import *
from engine.terms import rewrite

EXPLANATION = (
    "All paths of the component update are extracted as value terms; their comparisons are reduced to normal forms and identified with the documented "
    "conditions, and the number returned (a lattice of minima and maxima of linear terms) is compared with the documented one over all truth assignments. "
    "The pruning loop is checked for what it may remove and when; the call sites and writers of the component count are enumerated.")

UPD = "variational_optimization.update_K"
OPT = "variational_optimization.optimize_vp"
OS, IH, OP = sym("optim_state"), sym("iteration_history"), sym("options")
V, ITER = idx(OS, const("vp_K")), idx(OS, const("iter"))
BONUS, CAP = sym("<bonus>"), sym("<cap>")


def opt(n):
    return idx(OP, const(n))


def H(n):
    return idx(IH, const(n))


def ev_of(t, name):
    return t.k == "call" and t.a[0].endswith("Options.eval") and any(x is const(name) for x in t.a[1])


class C(Conditions):
    pass


def run(p, rep):
    rep.rule("condition", "each comparison deciding whether components are added is the documented one, windows included")
    rep.rule("number", "the new number is the old one plus one (improving, none pruned last) plus the bonus (stable, improving, none pruned recently), "
                       "never above the cap unless already there, never below the old one, and unchanged in warm-up and in the first iteration")
    rep.rule("cap", "the cap is k_fun_max of the effective number of training points, the bonus adaptive_k, both rounded")
    rep.rule("prune", "only components lighter than tol_weight are removed, only where weights are optimized, and only if the pessimistic ELBO changes by less "
                      "than the configured threshold; a component that stays is not tried again")
    rep.rule("wiring", "the fit uses the number decided, and the number recorded is that of the fitted posterior")
    rep.rule("boost", "the final optimization never has fewer components than before or than min_final_components, and prunes none")
    number(p, rep)
    prune(p, rep)
    wiring(p, rep)


class K:
    def __init__(self):
        self.c = C(self.role)
        self.P = self.c.poly
        self.R = call("math.ceil", [mk("bin", "/", mk("mul", const(0.5), opt("tol_stable_count")), opt("fun_evals_per_iter"))])

    def hists(self, t):
        return {cval(x.a[1]) for x in subterms(t) if x.k == "idx" and x.a[0] is IH and is_const(x.a[1])}

    def last(self, t):
        """name of the history whose last entry a term is"""
        t = strip(self.c.canon(t))
        if t.k == "idx" and t.a[0].k == "idx" and t.a[0].a[0] is IH:
            if t.a[1] is const(-1) or t.a[1] is ITER or self.P(t.a[1]) == self.P(mk("add", ITER, const(-1))):
                return cval(t.a[0].a[1])
        return None

    def role(self, t):
        s = strip(self.c.canon(t))
        if t.k != "cmp":
            if s is idx(OS, const("warmup")):
                return "W", True
            if s is idx(OS, const("recompute_var_post")):
                return "RV", True
            if t.k == "call" and t.a[0] in ("np.isfinite", "math.isfinite"):
                if self.hists(t) & {"elbo", "elbo_sd"}:
                    return "FI", True
            if s.k == "call" and s.a[0] in ("np.all", "np.any", "all", "any") and self.hists(s) == {"pruned"}:
                return self.recent(s)
            if self.last(t) == "pruned":
                return "NP", False
            return None
        op, a, b = t.a[0], t.a[1], t.a[2]
        if op == "eq":
            for x, y in ((a, b), (b, a)):
                if self.last(x) == "pruned" and y is const(0):
                    return "NP", True
                if strip(self.c.canon(x)) is idx(OS, const("warmup")) and y in (TRUE, FALSE):
                    return "W", y is TRUE
            if ITER in (a, b) and const(0) in (a, b):
                return "IT", False
            if self.pr_all(t) is not None:
                return None
        if op not in ("lt", "le"):
            return None
        d = self.c.diff(b, a)
        hs = self.hists(t)
        if not hs and set(d) <= {frozenset(), next(iter(self.P(ITER)))} and d:
            c, i = d.get(frozenset(), 0), d.get(next(iter(self.P(ITER))), 0)
            if (i, op, c) in ((1, "lt", 0), (1, "le", -1)):
                return "IT", True
            if (i, op, c) in ((-1, "le", 0), (-1, "lt", 1)):
                return "IT", False
            return "bad", "components are added from another iteration on than the second"
        if "r_index" in hs and hs == {"r_index"}:
            for x, y, s_ in ((a, b, True), (b, a, False)):
                if self.last(x) == "r_index":
                    if y is not const(1):
                        return "bad", f"the reliability index is compared with {show(y)[:40]} for the bonus"
                    if s_ and op == "lt" or not s_ and op == "le":
                        return "RX", s_
                    return "bad", "the bonus is given with a reliability index of one or more" if not s_ or op == "le" else ""
            return None
        if hs == {"pruned"}:
            for x, y, s_ in ((a, b, True), (b, a, False)):
                if self.last(x) == "pruned" and is_const(y):
                    v = cval(y)
                    if s_ and (op, v) in (("le", 0), ("lt", 1)) or not s_ and (op, v) in (("lt", 0), ("le", 1)):
                        return "NP", s_
                    return "bad", "a component is added although one was pruned in the last iteration"
            return None
        if hs & {"elbo", "elbo_sd"}:
            return self.improving(op, a, b)
        return None

    def pr_all(self, t):
        return None

    def recent(self, s):
        """np.all(pruned[lo:] == 0) and its equivalents"""
        every = s.a[0] in ("np.all", "all")
        x = s.a[1][0]
        zero = None
        if x.k == "cmp" and x.a[0] in ("eq", "ne", "lt", "le"):
            ops = [y for y in (x.a[1], x.a[2]) if not is_const(y)]
            cs = [y for y in (x.a[1], x.a[2]) if is_const(y)]
            if len(ops) != 1 or len(cs) != 1:
                return None
            v = cval(cs[0])
            left = ops[0] is x.a[1]
            if x.a[0] in ("eq", "ne") and v == 0:
                zero = x.a[0] == "eq"
            elif (left, x.a[0], v) in ((True, "le", 0), (True, "lt", 1)):
                zero = True
            elif (left, x.a[0], v) in ((False, "lt", 0), (False, "le", 1)):
                zero = False
            x = ops[0]
        elif x.k in ("not", "inv") and x.a[0].k == "cmp" and x.a[0].a[0] == "eq" and const(0) in x.a[0].a:
            zero, x = False, next(y for y in x.a[0].a[1:] if y is not const(0))
        elif not every:
            zero = False
        if zero is None:
            return None
        if every != zero:
            return "bad", "the bonus is given although a component was pruned recently"
        if x.k == "idx" and x.a[1].k == "slice":
            lo, hi = x.a[1].a[0], x.a[1].a[1]
            half = call("math.ceil", [mk("mul", const(0.5), self.R)])
            w = mk("add", ITER, mk("neg", half))
            if hi is not NONE or not any(self.P(lo) == self.P(call("max", list(z))) for z in ((const(0), w), (w, const(0)))):
                if lo.k == "call" and lo.a[0] == "max" or hi is not NONE:
                    return "bad", "the recent iterations without pruning are not half of the improvement window"
                return None
        elif x.k == "idx" and x.a[0] is IH:
            return "bad", "the recent iterations without pruning are not half of the improvement window"
        return "PA", zero

    def improving(self, op, a, b):
        """max(after) <= after[-1]"""
        a, b = self.c.canon(strip(a)), self.c.canon(strip(b))
        ismax = lambda t: t.k == "call" and t.a[0] == "vmax"
        if ismax(a) == ismax(b):
            if any(t.k == "call" and t.a[0] == "vmin" for t in (a, b)):
                return "bad", "the last pessimistic ELBO is not compared with the maximum"
            return None
        mx, lastv, up = (a, b, True) if ismax(a) else (b, a, False)
        aft = mx.a[1][0]
        if lastv.k != "idx" or lastv.a[0] is not aft:
            return None
        if lastv.a[1] is not const(-1):
            return "bad", "the value compared with the maximum is not the last one"
        w = self.after(aft)
        if w:
            return "bad", w
        if up:
            return ("IM", True) if op == "le" else ("bad", "an ELBO equal to the maximum does not count as improving")
        return ("IM", False) if op == "lt" else ("bad", "an ELBO equal to the maximum does not count as improving")

    def after(self, t):
        E = mk("add", H("elbo"), mk("neg", mk("mul", opt("elcbo_impro_weight"), H("elbo_sd"))))
        two = None
        if t.k == "upd":
            k, v = t.a[1], t.a[2]
            if k.k == "slice" and contains(v, lambda x: x.k == "mod" and x.a[0].endswith("inf")):
                neg = v.k == "neg" or v.k == "mul" and const(-1) in v.a
                if not neg:
                    return "the first iterations after warm-up are not left out but preferred"
                lo, hi = k.a[0], k.a[1]
                m = [call("min", list(z)) for q in (mk("add", ITER, const(1)),) for z in ((const(2), q), (q, const(2)))]
                two = lo in (NONE, const(0)) and hi is not NONE and (hi is const(2) or any(self.P(hi) == self.P(x) for x in m))
                if not two and lo in (NONE, const(0)):
                    return "not the first two iterations after warm-up are left out"
            t = t.a[0]
        elif t.k == "idx" and t.a[1].k != "slice":
            two = False
        if t.k != "idx" or t.a[1].k == "slice":
            if two is not None and not contains(t, lambda x: x is H("warmup")):
                return "the ELBO during warm-up is compared as well"
            return None
        mask, base = t.a[1], t.a[0]
        if self.hists(mask) == {"warmup"}:
            neg = False
            m = mask
            while m.k in ("inv", "not"):
                neg, m = not neg, m.a[0]
            if m.k == "idx" and not neg:
                return "the iterations during warm-up are compared instead of those after"
        found = []

        def f(x):
            if x.k == "idx" and x.a[1].k == "slice" and x.a[0].k == "idx" and x.a[0].a[0] is IH:
                found.append((x.a[1].a[0], x.a[1].a[1]))
                return x.a[0]
            return None
        b = rewrite(base, f)
        rewrite(mask, f)
        if self.c.diff(b, E):
            if self.hists(b) <= {"elbo", "elbo_sd"} and not contains(b, lambda x: x.k == "call"):
                return "the improvement is not that of the ELBO minus elcbo_impro_weight times its SD"
            return None
        keys = {(frozenset(self.P(lo).items()), frozenset(self.P(hi).items())) for lo, hi in found}
        if len(keys) > 1:
            return "ELBO, SD and warm-up flags are taken over different iterations"
        if found:
            lo, hi = found[0]
            w = mk("add", ITER, mk("neg", self.R))
            if hi is not NONE or not any(self.P(lo) == self.P(call("max", list(z))) for z in ((const(0), w), (w, const(0)))):
                if lo.k == "call" and lo.a[0] == "max" or hi is not NONE:
                    return "the improvement window is not half of tol_stable_count evaluations"
        elif two is not None:
            return "the improvement window is not half of tol_stable_count evaluations"
        if two is False:
            return "the first iterations after warm-up are not left out"
        return None

    # ---- number as max over min over linear terms
    def subst(self, t, rep, where):
        """recognise bonus and cap"""
        RB, RC, RN = sym("<raw bonus>"), sym("<raw cap>"), ("round", "np.round", "np.rint", "np.around", "ceil", "floor", "int", "math.ceil", "np.ceil", "math.floor", "np.floor")

        def f(x):
            if ev_of(x, "adaptive_k"):
                return RB
            if ev_of(x, "k_fun_max"):
                ar = x.a[1][-1]
                if ar.k == "dct":
                    vals = [y for z in ar.a for y in (z if isinstance(z, tuple) else (z,)) if isinstance(y, T)]
                    if not any(strip(y) is idx(OS, const("n_eff")) for y in vals):
                        rep.bad("cap", "cap of the effective number of points", where, "the cap is not k_fun_max of the effective number of training points")
                return RC
            if x.k == "call" and x.a[0] in RN and x.a[1]:
                if x.a[1][0] is RB or x.a[1][0] is BONUS:
                    return BONUS
                if x.a[1][0] is RC and x.a[0].endswith("ceil") or x.a[1][0] is CAP:
                    return CAP
            return None
        t = rewrite(t, f)
        if contains(t, lambda x: x is RB):
            rep.bad("cap", "bonus is whole", where, "the bonus is not rounded to a whole number")
        if contains(t, lambda x: x is RC):
            rep.bad("cap", "cap is rounded up", where, "the cap is not k_fun_max rounded up")
        if contains(t, lambda x: x in (BONUS, CAP)):
            rep.ok("cap", "bonus and cap", where)
        return rewrite(t, lambda x: BONUS if x is RB else CAP if x.k == "call" and x.a[0] in RN and x.a[1][0] is RC else CAP if x is RC else None)

    def lattice(self, t):
        """frozenset of frozensets of linear forms: max over min over"""
        t = strip(t)
        if t.k == "call" and t.a[0] in ("int", "float", "np.int64") and len(t.a[1]) == 1:
            return self.lattice(t.a[1][0])
        if t.k == "call" and t.a[0] == "np.clip" and len(t.a[1]) == 3:
            x, lo, hi = t.a[1]
            return self.lattice(call("min", [call("max", [x, lo]), hi]))
        if t.k == "call" and t.a[0] in ("max", "np.maximum", "np.max", "np.amax", "min", "np.minimum", "np.min", "np.amin"):
            xs = list(t.a[1])
            if len(xs) == 1 and xs[0].k in ("lst", "tup"):
                xs = list(xs[0].a)
            ls = [self.lattice(x) for x in xs]
            if any(x is None for x in ls) or len(xs) < 2:
                return None
            if "max" in t.a[0]:
                return self.red(frozenset().union(*ls))
            return self.red(frozenset(frozenset().union(*c) for c in product(*ls)))
        if t.k == "add":
            nl = [x for x in t.a if x.k == "call" and x.a[0].split(".")[-1] in ("max", "min", "maximum", "minimum", "clip")]
            if len(nl) == 1:
                l = self.lattice(nl[0])
                off = self.P(mk("add", *[x for x in t.a if x is not nl[0]])) if len(t.a) > 2 else self.P(next(x for x in t.a if x is not nl[0]))
                return l and frozenset(frozenset(self.shift(q, off) for q in m) for m in l)
        return frozenset([frozenset([frozenset(self.P(t).items())])])

    def shift(self, q, off):
        d = dict(q)
        for k, v in off.items():
            d[k] = d.get(k, 0) + v
        return frozenset((k, v) for k, v in d.items() if v)

    def ge(self, x, y):
        """x >= y surely (bonus >= 0)"""
        d = dict(x)
        for k, v in y:
            d[k] = d.get(k, 0) - v
        ok = {frozenset(), next(iter(self.P(BONUS)))}
        return all(v >= 0 if k in ok else v == 0 for k, v in d.items())

    def red(self, l):
        mins = []
        for m in l:
            q = [x for x in m if not any(y is not x and y != x and self.ge(x, y) for y in m)]
            mins.append(frozenset(q))
        mins = list(dict.fromkeys(mins))
        # max: drop a min-set that is never above another one
        out = []
        for i, m in enumerate(mins):
            if any(j != i and all(any(self.ge(z, x) for x in m) for z in n) and not (j > i and all(any(self.ge(z, x) for x in n) for z in m)) for j, n in enumerate(mins)):
                continue
            out.append(m)
        return frozenset(out)


def number(p, rep):
    f = p.func(UPD)
    if f is None:
        rep.bad("number", "component update", "variational_optimization.py", "the update of the number of components does not exist")
        return
    # parameters by position
    ps = [sym(x) for x in f.params]
    global OS, IH, OP
    I = Interp(p, Config(path_sensitive=True, fork_ite=True))
    outs = [(s, v) for s, c, v in I.run(f, args=None) if c == "return"]
    rep.used(I)
    rep.at_least("paths of the component update", len(outs), 1)
    S = K()
    c = S.c

    def atoms(t):
        if t.k in ("and", "or", "not", "inv") or t.k == "bin" and t.a[0] in ("&", "|"):
            for x in (t.a[1:] if t.k == "bin" else t.a):
                yield from atoms(x)
        elif t.k == "ite":
            yield from atoms(t.a[0])
            yield from atoms(t.a[1])
            yield from atoms(t.a[2])
        else:
            yield t
    pair = lambda x: frozenset((frozenset(c.diff(x.a[2], x.a[1]).items()), frozenset((m, -v) for m, v in c.diff(x.a[2], x.a[1]).items()))) if x.k == "cmp" else x
    bad, pairs, good = {}, set(), {}
    for s, v in outs:
        for t in list(s.facts) + [v]:
            for x in atoms(t):
                r = c.role(x)
                if r and r[0] == "bad":
                    bad[x] = r
                elif r:
                    good[x] = r
                    pairs.add(pair(x))
    wrong = {x for x in bad if pair(x) not in pairs}
    for x in wrong:
        rep.bad("condition", bad[x][1], f.where, f"{bad[x][1]}: {show(x)[:150]}")
    for x, r in good.items():
        rep.ok("condition", f"{r[0]} {show(x)[:60]}", f.where)
    vals = [(s, S.subst(v, rep, f.where)) for s, v in outs]
    seen = {}
    n = 0
    names = ("W", "IT", "NP", "IM", "FI", "RX", "RV", "PA")
    for asg in assignments(names):
        act = not asg["W"] and asg["IT"]
        imp = asg["IM"] and asg["FI"]
        want = V
        plus = act and imp and asg["NP"]
        bonus = act and imp and asg["RX"] and not asg["RV"] and asg["PA"]
        if plus:
            want = mk("add", want, const(1))
        if bonus:
            want = mk("add", want, BONUS)
        ref = S.lattice(call("max", [V, call("min", [want, CAP])])) if want is not V else S.lattice(V)
        if asg["PA"] and not asg["NP"]:
            continue                        # pruned in the last iteration but not recently
        n += 1
        hit = False
        for s, v in vals:
            if not c.consistent(s.facts, asg) or any(x in wrong for t in s.facts for x in atoms(t)):
                continue
            hit = True
            t = resolve(c, v, asg, s.facts)
            got = S.lattice(t) if not contains(t, lambda x: x.k in ("ite", "phi", "loop")) else None
            if got is None:
                seen[("note", "number of unrecognised form " + show(t)[:80])] = 1
                continue
            if got != ref:
                if not known_atoms(S, t):
                    seen[("note", "number of unrecognised form " + show(t)[:80])] = 1
                    continue
                state = ("in warm-up or the first iteration" if not act else "while the ELBO does not improve" if not imp else
                         "right after pruning" if not asg["NP"] else "without a stable solution" if not bonus else "with a stable improving solution")
                unk = [u for u in c.opaque(s.facts) if (u.k == "cmp" or u.k == "call") and pair(u) not in pairs]
                seen[("number" if not unk else "note", f"the new number of components {state} is {show(t)[:110]}")] = 1
        if not hit and not wrong:
            seen[("note", "some truth assignment matches no path")] = 1
    w = [x for k, x in seen if k == "number"]
    for x in sorted(w):
        rep.bad("number", x.split(" is ")[0], f.where, x)
    if not w:
        rep.ok("number", f"{n} truth assignments x {len(outs)} paths", f.where)
    rep.notes += [x for k, x in seen if k == "note"]
    rep.count("truth assignments", n)


def known_atoms(S, t):
    ok = {V, BONUS, CAP}

    def go(x):
        if x in ok or is_const(x):
            return True
        if x.k in ("add", "mul", "neg"):
            return all(go(y) for y in x.a)
        if x.k == "bin":
            return go(x.a[1]) and go(x.a[2])
        if x.k == "call" and x.a[0].split(".")[-1] in ("max", "min", "maximum", "minimum", "int", "clip"):
            return all(go(y) for y in x.a[1])
        return False
    return go(t)


def resolve(c, t, asg, facts):
    def f(x):
        if x.k == "ite":
            v = c.ev(x.a[0], asg, facts)
            if v is not None:
                return x.a[1] if v else x.a[2]
        return None
    for _ in range(6):
        u = rewrite(t, f)
        if u is t:
            break
        t = u
    # booleans used as numbers
    def g(x):
        if x.k in ("cmp", "and", "or", "not") or c.role(x) and c.role(x)[0] != "bad":
            v = c.ev(x, asg, facts)
            if v is not None:
                return const(int(v))
        return None
    return rewrite(t, g)


# ---------------------------------------------------------------- pruning

def prune(p, rep):
    f = p.func(OPT)
    if f is None:
        return
    _, I, log = next(x for x in sweep(p) if x[0] is f)
    S = K()
    W = lambda t: t.k in ("attr", "havoc") and t.a[1] == "w"
    removals = [e for e in log if e.kind == "setattr" and e.sig[1] == "w" and contains(e.sig[2], lambda x: x.k == "call" and x.a[0] == "np.delete")]
    rep.at_least("component removals", len(removals), 1)
    for e in removals:
        ok = any(v is True and t.k == "attr" and t.a[1] == "optimize_weights" for t, v in e.facts.items())
        rep.check(ok, "prune", "pruning only with optimized weights", e.where, "components are pruned although the weights are not optimized")
        d = next(x for x in subterms(e.sig[2]) if x.k == "call" and x.a[0] == "np.delete")
        k = d.a[1][1] if len(d.a[1]) > 1 else None
        cmps = [x for x in subterms(k) if x.k == "cmp" and contains(x, W)] if k is not None else []
        tw = [x for x in cmps if contains(x, lambda y: y.k == "idx" and y.a[1] is const("tol_weight"))]
        if cmps and not tw:
            rep.bad("prune", "weights of pruned components", e.where, f"the component removed is chosen by {show(cmps[0])[:100]}")
        elif not cmps:
            rep.notes.append("component removed chosen by " + (show(k)[:80] if k is not None else "?"))
        for x in tw:
            a, b = x.a[1], x.a[2]
            if x.a[0] in ("lt", "le"):
                ok = contains(a, W) and not contains(b, W)
                par = 0
                y = next((y for y in subterms(k) if y.k in ("inv", "not") and contains(y, lambda z: z is x)), None)
                while y is not None:
                    par += 1
                    y = next((z for z in subterms(y.a[0]) if z.k in ("inv", "not") and contains(z, lambda q: q is x)), None) if y.a[0] is not x else None
                rep.check(ok != bool(par % 2), "prune", "weights of pruned components", e.where, "components heavier than tol_weight are removed")
                break
        if k is not None and tw:
            tried = any(y.k in ("inv", "not") and not contains(y, W) or y.k == "cmp" and FALSE in y.a and not contains(y, W) for y in subterms(k))
            if tried or not contains(k, lambda y: y.k == "call" and y.a[0] not in SIMPLE):
                rep.check(tried, "prune", "each component tried once", e.where, "a component that was kept is tried again and again")
    # decision to keep the pruned posterior
    marks = [e for e in log if e.kind == "setidx" and len(e.sig) > 2 and strip(e.sig[2]) is TRUE and any(t.k == "cmp" and is_thr(t) for t in e.facts)]
    facts = {}
    for e in log:
        for t, v in e.facts.items():
            if t.k == "cmp" and is_thr(t):
                facts.setdefault(t, e)
    conds = decisive(facts)
    tern = {}
    for e in log:
        for x in (y for z in e.sig if isinstance(z, T) for y in subterms(z)):
            if x.k == "ite" and x.a[0].k == "cmp" and is_thr(x.a[0]):
                tern.setdefault(x.a[0], e)
    n = 0
    done = set()
    for t in list(conds) + [x for x in tern if x not in conds]:
        e = facts.get(t) or tern.get(t)
        d = S.c.diff(t.a[2], t.a[1])
        key = frozenset(d.items())
        if key in done or frozenset((m, -v) for m, v in d.items()) in done:
            continue
        done.add(key)
        thr = [(m, v) for m, v in d.items() if any(a.k == "idx" and a.a[1] is const("tol_improvement") for a, x in m)]
        chg = [(m, v) for m, v in d.items() if not any(a.k == "idx" and a.a[1] is const("tol_improvement") for a, x in m)]
        n += 1
        if len(thr) != 1 or len(thr[0][0]) != 2 or not any(ev_of(a, "pruning_threshold_multiplier") for a, x in thr[0][0]) or abs(thr[0][1]) != 1:
            rep.bad("prune", "pruning threshold", e.where, "the change of the ELBO is not compared with tol_improvement times pruning_threshold_multiplier")
            continue
        s = thr[0][1]
        ab = [(m, v) for m, v in chg if len(m) == 1 and next(iter(m))[0].k == "call" and next(iter(m))[0].a[0] in ("np.abs", "abs", "np.absolute", "np.fabs")]
        if len(chg) == 1 and ab:
            rep.check(ab[0][1] == -s, "prune", "change of the ELBO", e.where, "the change of the ELBO enters with the wrong sign")
            x = next(iter(ab[0][0]))[0].a[1][0]
            wts = [y for y in subterms(x) if y.k == "idx" and y.a[1] is const("elcbo_impro_weight")]
            poly = x.a[0] if x.k == "poly" else None
            if poly is not None:
                cs = [(m, v) for m, v in poly]
                sd = [v for m, v in cs if any(a.k == "idx" and a.a[1] is const("elcbo_impro_weight") for a, z in m)]
                pl = [v for m, v in cs if not any(a.k == "idx" and a.a[1] is const("elcbo_impro_weight") for a, z in m)]
                if sd or pl:
                    rep.check(len(sd) == 2 and sum(sd) == 0, "prune", "pessimistic ELBO", e.where,
                              "the ELBO before and after pruning is not lowered by elcbo_impro_weight times its SD on both sides")
        elif chg and not ab:
            rep.bad("prune", "change of the ELBO", e.where, "the change of the ELBO is compared with its sign: any decrease prunes the component") if signed(chg, s) else rep.notes.append(
                "pruning decided by " + show(t)[:100])
    if not n:
        used = any(x.k == "cmp" and contains(x, lambda y: y.k == "idx" and y.a[1] is const("tol_improvement") or ev_of(y, "pruning_threshold_multiplier"))
                   for e in log for t in list(e.facts) + [z for z in e.sig if isinstance(z, T)] for x in subterms(t))
        if removals and not used:
            rep.bad("prune", "change of the ELBO", f.where, "components are pruned however much the ELBO changes")
        else:
            rep.notes.append("no comparison with the pruning threshold recognised")
    # polarity: what happens when the change is large
    for e in marks:
        for t, v in e.facts.items():
            if t.k == "cmp" and is_thr(t) and t in conds:
                d = S.c.diff(t.a[2], t.a[1])
                s = next((x for m, x in d.items() if any(a.k == "idx" and a.a[1] is const("tol_improvement") for a, z in m)), 0)
                small = (s > 0) == (v is True)
                rep.check(not small, "prune", "component kept", e.where, "a component of negligible influence is kept and one that matters is removed")
                break
    rep.count("pruning decisions", n)


SIMPLE = {"np.argwhere", "np.flatnonzero", "np.nonzero", "np.where", "np.ravel", "np.random.randint", "np.random.choice", "np.size", "len", "copy.deepcopy", "np.squeeze",
          "np.flatten", "np.atleast_1d", "VariationalPosterior.set_parameters", "np.argmin", "dict", "list"}


def decisive(facts):
    return list(facts)


def signed(chg, s):
    return len(chg) >= 2


def is_thr(t):
    return contains(t, lambda x: ev_of(x, "pruning_threshold_multiplier")) or \
        t.k == "cmp" and contains(t, lambda x: x.k == "idx" and x.a[1] is const("tol_improvement")) and contains(t, lambda x: x.k == "idx" and x.a[1] is const("elcbo_impro_weight"))


# ---------------------------------------------------------------- wiring

def wiring(p, rep):
    n = 0
    f = p.func("VBMC.optimize")
    for g, I, log in sweep(p):
        if g is not f:
            continue
        ups = [e for e in log if e.kind == "call" and e.sig[0] == UPD]
        rep.check(bool(ups), "wiring", "components updated", f.where, "the number of components is never updated")
        for e in ups:
            ex = [t for t, v in e.facts.items() if t.k == "attr" and t.a[1] == "optimize_mu"]
        fits = [(i, e) for i, e in enumerate(log) if e.kind == "call" and e.sig[0] == OPT]
        fresh_ = False
        for i, e in fits:
            ar = bind(p, OPT, e.sig[1], e.sig[2])
            k = ar.get("K")
            n += 1
            if k is None:
                rep.bad("wiring", "number given to the fit", e.where, "the fit is not told the number of components decided")
                continue
            if contains(k, lambda x: x.k == "call" and x.a[0] == UPD):
                fresh_ = True
            elif is_const(k):
                rep.bad("wiring", "number given to the fit", e.where, f"the fit always uses {show(k)} components")
            # the number recorded is that of the fitted posterior
            ok = None
            for j in range(i + 1, len(log)):
                x = log[j]
                if x.kind == "setidx" and x.sig[1] is const("vp_K"):
                    v = strip(x.sig[2])
                    ok = contains(v, lambda y: y.k == "call" and y.a[0] == OPT) or "optimize_vp" in show(v, 30)
                    if v is not None and contains(v, lambda y: y.k == "call" and y.a[0] == UPD) and not contains(v, lambda y: y.k == "attr" and y.a[1] == "K") and "K" not in str(v.a[:2]):
                        ok = False
                    break
                if x.kind == "call" and x.sig[0] == OPT:
                    break
            rep.check(bool(ok), "wiring", "number recorded after the fit", e.where, "the number of components recorded is not that of the fitted posterior")
        if fits:
            rep.check(fresh_, "wiring", "decided number given to the fit", f.where, "no fit uses the number of components decided")
    # other writers of the count
    for g, I, log in sweep(p):
        for e in log:
            if e.kind == "setidx" and len(e.sig) > 2 and e.sig[1] is const("vp_K"):
                v = strip(e.sig[2])
                if is_const(v) or v.k == "call" and v.a[0] == UPD:
                    rep.bad("wiring", "recorded number", e.where, f"the recorded number of components becomes {show(v)[:60]}, whatever the posterior has")
                elif g.qual.endswith("_init_optim_state"):
                    rep.check(v.k == "idx" and v.a[1] is const("k_warmup"), "wiring", "initial number", e.where, "the run does not start with k_warmup components")
    g = p.func("VBMC.final_boost")
    if g is None:
        return
    _, I, log = next(x for x in sweep(p) if x[0] is g)
    SELF = sym("self")
    mfc = idx(attr(SELF, "options"), const("min_final_components"))
    c = Conditions(lambda t: None)
    for i, e in enumerate(log):
        if e.kind == "call" and e.sig[0] == OPT:
            ar = bind(p, OPT, e.sig[1], e.sig[2])
            k = ar.get("K")
            if k is None:
                rep.bad("boost", "components of the final optimization", e.where, "the final optimization is not told a number of components")
            else:
                k = strip(c.canon(k))
                if k.k == "call" and k.a[0] == "max" and len(k.a[1]) == 2:
                    has = {x for x in k.a[1]}
                    rep.check(mfc in has and any(x.k == "attr" and x.a[1] == "K" for x in has), "boost", "components of the final optimization", e.where,
                              f"the final optimization uses {show(k)[:80]} components")
                elif k is mfc or k.k == "attr" and k.a[1] == "K" or k.k == "call" and k.a[0] == "min":
                    rep.bad("boost", "components of the final optimization", e.where, f"the final optimization uses {show(k)[:80]} components")
                else:
                    rep.notes.append(f"final optimization with {show(k)[:60]} components")
            o = ar.get("options")
            off = [x for x in log[:i] if x.kind == "call" and x.sig[0].split(".")[-1] in ("__setitem__", "update") and any(y is const("tol_weight") for y in x.sig[1])]
            off2 = [x for x in log[:i] if x.kind == "setidx" and x.sig[1] is const("tol_weight")]
            vals = [strip(x.sig[1][2]) for x in off if len(x.sig[1]) > 2] + [strip(x.sig[2]) for x in off2]
            rep.check(any(is_const(v) and cval(v) == 0 for v in vals), "boost", "no pruning in the final optimization", e.where,
                      "the final optimization prunes components again")
            if o is not None and strip(o) is attr(SELF, "options"):
                rep.bad("boost", "options of the final optimization", e.where, "the final optimization runs with the unmodified options")
    rep.count("fits", n)
