"""C09: a run stops exactly when a documented termination condition allows it."""
import ast
from itertools import product
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm, _add
from engine.terms import rewrite

EXPLANATION = (
    "All paths of the termination check are extracted as value terms; every comparison on them is reduced to a normal form and identified with one "
    "of the documented conditions, and the resulting decision table (finished flag, message, stability flag) is compared with the documented one "
    "over all truth assignments of the conditions. The optimization loop is checked for having that decision as its only exit.")

CHECK = "VBMC._check_termination_conditions"
REL = "VBMC._compute_reliability_index"
SELF = sym("self")
INT = {"int", "np.floor", "math.floor", "np.int64", "np.round", "float"}
SUMS = {"np.sum", "sum", "np.count_nonzero", "np.nansum"}


def opt(n):
    return idx(attr(SELF, "options"), const(n))


def st(n):
    return idx(attr(SELF, "optim_state"), const(n))


COUNT = attr(attr(SELF, "function_logger"), "func_count")


def clip(t):
    if t.k == "call" and t.a[0] == "np.clip" and len(t.a[1]) == 3:
        return call("min", [call("max", [t.a[1][0], t.a[1][1]]), t.a[1][2]])
    if t.k == "call" and t.a[0] in ("np.minimum", "np.maximum", "np.fmin", "np.fmax"):
        return call({"mi": "min", "fm": "min", "ma": "max"}[t.a[0][3:5]] if t.a[0] != "np.fmax" else "max", list(t.a[1]))
    if t.k == "call" and t.a[0] in ("min", "max", "np.min", "np.max", "np.amin", "np.amax") and len(t.a[1]) == 1 and t.a[1][0].k in ("lst", "tup"):
        return call("min" if "min" in t.a[0] else "max", list(t.a[1][0].a))
    if t.k == "call" and t.a[0] in ("math.floor",):
        return call("np.floor", list(t.a[1]))
    if t.k == "call" and t.a[0] in ("math.ceil",):
        return call("np.ceil", list(t.a[1]))
    if t.k == "call" and t.a[0] in ("int", "float") and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.k == "idx" and t.a[0] is attr(SELF, "optim_state") and is_const(t.a[1]) and cval(t.a[1]) == "iter":
        return None
    if t is attr(SELF, "iteration"):
        return st("iter")
    return None


class Table:
    """decision table of the termination check"""

    def __init__(self, p, rep):
        self.p, self.rep, self.N = p, rep, Norm()
        self.memo = {}
        self.tols = {}
        self.unknown = set()
        it, one = st("iter"), const(1)
        self.quant = {}
        for name, l, r in (("FC", opt("max_fun_evals"), COUNT), ("MF", COUNT, opt("min_fun_evals"))):
            self.quant[name] = self.diff(r, l)
        self.count, self.iter = self.atom(COUNT), self.atom(it)
        self.A = {n: self.atom(opt(n)) for n in ("max_fun_evals", "max_iter", "min_fun_evals", "min_iter", "tol_improvement", "tol_stable_excpt_frac")}

    def canon(self, t):
        return rewrite(t, clip)

    def poly(self, t):
        return self.N.poly(self.canon(t))

    def atom(self, t):
        pl = self.poly(t)
        (m, c), = pl.items()
        (a, e), = m
        return a

    def diff(self, a, b):
        return _add(self.poly(a), self.poly(b), -1)

    def lin(self, d, signs):
        """d == sum(sign*atom) + c: c, or None"""
        d = dict(d)
        for a, s in signs:
            c = d.pop(frozenset([(a, 1)]), None)
            if c != s:
                return None
        c = d.pop(frozenset(), 0)
        return None if d else c

    def role(self, t):
        """(role, value when the comparison is true) of an atomic condition; ("bad", why) or None"""
        if t not in self.memo:
            self.memo[t] = self._role(t)
        return self.memo[t]

    def _role(self, t):
        if t.k != "cmp" and strip(self.canon(t)) is st("entropy_switch"):
            return "SW", True
        if t.k != "cmp" or t.a[0] not in ("lt", "le", "eq"):
            return None
        op, a, b = t.a[0], t.a[1], t.a[2]
        if op == "eq":
            for x, y in ((a, b), (b, a)):
                if strip(self.canon(x)) is st("entropy_switch") and y in (TRUE, FALSE):
                    return "SW", y is TRUE
            return None
        if a.k == "call" and a.a[0] == "len" or b.k == "call" and b.a[0] == "len":
            return None
        d = self.diff(b, a)            # d > 0 (lt) or d >= 0 (le)

        def m(pos, neg):
            return self.lin(d, [(pos, 1), (neg, -1)])
        A = self.A
        # maximum number of evaluations: count - max >= 0, or its negation max - count > 0
        c = m(self.count, A["max_fun_evals"])
        if c is not None:
            return ("FC", True) if (op, c) in (("le", 0), ("lt", 1)) else ("bad", "the maximum number of evaluations is compared as "
                                                                          f"count - max_fun_evals {'>' if op == 'lt' else '>='} {-c}")
        c = m(A["max_fun_evals"], self.count)
        if c is not None:
            return ("FC", False) if (op, c) in (("lt", 0), ("le", -1)) else ("bad", "the maximum number of evaluations is compared with the wrong boundary")
        c = m(self.iter, A["max_iter"])
        if c is not None:
            return ("IT", True) if (op, c) in (("le", 1), ("lt", 2)) else ("bad", "the number of iterations is compared with max_iter off by "
                                                                           f"{1 - c if op == 'le' else 2 - c}")
        c = m(A["max_iter"], self.iter)
        if c is not None:
            return ("IT", False) if (op, c) in (("lt", -1), ("le", -2)) else ("bad", "the number of iterations is compared with max_iter with the wrong boundary")
        c = m(A["min_fun_evals"], self.count)
        if c is not None:
            return ("MF", True) if (op, c) in (("lt", 0), ("le", -1)) else ("bad", "min_fun_evals is compared with the wrong boundary")
        c = m(self.count, A["min_fun_evals"])
        if c is not None:
            return ("MF", False) if (op, c) in (("le", 0), ("lt", 1)) else ("bad", "min_fun_evals is compared with the wrong boundary")
        # minimum iterations: iterations done = iter + 1; waiting for iter >= min_iter as well is accepted (the suite fixes it)
        c = m(A["min_iter"], self.iter)
        if c is not None:
            ok = (op == "lt" and c in (0, -1)) or (op == "le" and c in (-1, -2))
            return ("MI", True) if ok else ("bad", "min_iter is compared with the wrong boundary")
        c = m(self.iter, A["min_iter"])
        if c is not None:
            ok = (op == "le" and c in (0, 1)) or (op == "lt" and c in (1, 2))
            return ("MI", False) if ok else ("bad", "min_iter is compared with the wrong boundary")
        return self.stability(op, a, b, d)

    def pair(self, x):
        if x.k != "cmp":
            return x
        d = self.diff(x.a[2], x.a[1])
        return frozenset((frozenset(d.items()), frozenset((m, -c) for m, c in d.items())))

    def rel(self, t):
        """component of the reliability computation a term is: (0|1, tolerance argument)"""
        t = strip(t)
        if t.k == "idx" and is_const(t.a[1]) and t.a[0].k == "call" and t.a[0].a[0] == REL:
            ar = bind(self.p, REL, t.a[0].a[1], t.a[0].a[2])
            return cval(t.a[1]), ar.get("tol_stable_iters")
        return None

    def stability(self, op, a, b, d):
        ra, rb = self.rel(a), self.rel(b)
        if ra and ra[0] == 0 and b is const(1) or rb and rb[0] == 0 and a is const(1):
            if ra:
                self.tols[ra[1]] = 1
                return ("S2", True) if op == "lt" else ("bad", "the reliability index must be strictly below one")
            self.tols[rb[1]] = 1
            return ("S2", False) if op == "le" else ("bad", "the reliability index must be strictly below one")
        ti = opt("tol_improvement")
        if ra and ra[0] == 1 and strip(b) is ti:
            return ("S3", True) if op == "lt" else ("S3", True)
        if rb and rb[0] == 1 and strip(a) is ti:
            return ("S3", False)
        if ra and rb is None or rb and ra is None:
            other = b if ra else a
            if is_const(other) or strip(other).k == "idx" and strip(strip(other).a[0]) is attr(SELF, "options"):
                return "bad", f"the {'reliability index' if (ra or rb)[0] == 0 else 'ELCBO improvement'} is compared with {show(strip(other))}"
        # number of recent stable iterations
        cnt = [(m, c) for m, c in d.items() for x, e in m if len(m) == 1 and e == 1 and x.k == "call" and x.a[0] in SUMS]
        if len(cnt) == 1 and cnt[0][0] in d:
            m, c = cnt[0]
            (x, e), = m
            w = self.window(a if contains(a, lambda y: y.k == "call" and y.a[0] in SUMS) else b)
            if w is not None:
                rest = {k: v for k, v in d.items() if k != m}
                return self.enough(op, c, rest, w)
        # distance from the last re-parameterization
        lw = self.atom(st("last_successful_warping"))
        if frozenset([(lw, 1)]) in d or frozenset([(lw, 1)]) in d:
            s = 1 if d.get(frozenset([(lw, 1)]), 0) < 0 else -1
            for T in self.tol_terms():
                e = _add({k: v * s for k, v in d.items()}, self.poly(mk("add", st("iter"), mk("neg", st("last_successful_warping")))), -1)
                pt = self.poly(T)
                if not _add(e, {k: v * (-1) / 3 for k, v in pt.items()}, -1):
                    good = (op == "le") if s == 1 else (op == "lt")
                    return ("W", s == 1) if good else ("bad", "distance from the last re-parameterization: wrong boundary")
            return "bad", f"distance from the last re-parameterization is not compared with a third of the stability window: {show(mk('cmp', op, a, b))}"
        # enough iterations
        for T in self.tol_terms():
            pt = self.poly(T)
            e = _add(d, self.poly(st("iter")), -1)
            z = _add(e, {k: -v for k, v in pt.items()}, -1)
            if not z or set(z) == {frozenset()}:
                c = z.get(frozenset(), 0) if z else 0
                return ("S1", True) if (op, c) in (("le", 1), ("lt", 2)) else ("bad", "stability window not fully inside the run")
            e = _add(d, self.poly(st("iter")), 1)
            z = _add(e, pt, -1)
            if not z or set(z) == {frozenset()}:
                c = z.get(frozenset(), 0) if z else 0
                return ("S1", False) if (op, c) in (("lt", -1), ("le", -2)) else ("bad", "stability window not fully inside the run")
        return None

    def tol_terms(self):
        return [t for t in self.tols if t is not None]

    def window(self, t):
        """(lo, hi, threshold ok) of the counted slice of recorded reliability indices"""
        from rules.c24 import hist
        for x in subterms(t):
            if x.k == "cmp" and x.a[0] in ("lt", "le"):
                h = hist(x.a[1])
                if h and h[0] == "r_index":
                    return h[1], h[2], x.a[0] == "lt" and x.a[2] is const(1)
                h = hist(x.a[2])
                if h and h[0] == "r_index":
                    return h[1], h[2], False
        return None

    def enough(self, op, c, rest, w):
        lo, hi, ok = w
        if not ok:
            return "bad", "stable iterations are not counted as those with reliability index below one"
        if lo is None or hi is None or lo is NONE or hi is NONE:
            return "bad", "stable iterations are not counted over the stability window"
        for T in self.tol_terms():
            dl = self.diff(lo, mk("add", st("iter"), mk("neg", T)))
            dh = self.diff(hi, st("iter"))
            if set(dl) <= {frozenset()} and set(dh) <= {frozenset()}:
                cl, ch = dl.get(frozenset(), 0), dh.get(frozenset(), 0)
                if cl != 1 or ch not in (0, 1):
                    return "bad", "the window of recent stable iterations is shifted"
                need = self.poly(mk("add", T, mk("neg", call("np.floor", [mk("mul", T, opt("tol_stable_excpt_frac"))])), const(-1 + int(ch))))
                s = 1 if c > 0 else -1
                z = _add({k: v * -s for k, v in rest.items()}, need, -1)
                if not z:
                    good = (op == "le") if s == 1 else (op == "lt")
                    return ("S4", s == 1) if good else ("bad", "number of recent stable iterations: wrong boundary")
                if set(z) == {frozenset()}:
                    k = z[frozenset()]
                    if s == 1 and op == "lt" and k == -1:
                        return "S4", True
                    return "bad", "number of recent stable iterations required differs from window - floor(window * tol_stable_excpt_frac) - 1"
                return "bad", "number of recent stable iterations required differs from window - floor(window * tol_stable_excpt_frac) - 1"
        return "bad", "the window of recent stable iterations does not end at the current iteration"

    def ev(self, t, asg, facts):
        """truth of a boolean term under a truth assignment of the conditions"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.k == "call" and t.a[0] in ("bool", "int") and t.a[1]:
            return self.ev(t.a[1][0], asg, facts)
        if t.k == "not":
            v = self.ev(t.a[0], asg, facts)
            return None if v is None else not v
        if t.k in ("and", "or"):
            vs = [self.ev(x, asg, facts) for x in t.a]
            z = t.k == "or"
            if z in vs:
                return z
            return None if None in vs else not z
        if t.k == "ite":
            c = self.ev(t.a[0], asg, facts)
            if c is None:
                x, y = self.ev(t.a[1], asg, facts), self.ev(t.a[2], asg, facts)
                return x if x == y else None
            return self.ev(t.a[1] if c else t.a[2], asg, facts)
        r = self.role(t)
        if r and r[0] != "bad":
            return asg[r[0]] == r[1]
        return facts.get(t)


ROLES = ("FC", "IT", "MF", "MI", "SW", "S1", "S2", "S3", "S4", "W")
NAMES = {"FC": "maximum number of evaluations", "IT": "maximum number of iterations", "ST": "stability"}


def run(p, rep):
    rep.rule("condition", "each comparison deciding termination is the documented one, boundaries included")
    rep.rule("decision", "the run is finished exactly when evaluations or iterations reached their maximum, or the solution is stable with entropy "
                         "switching done and away from the last re-parameterization, and neither minimum is still to be reached")
    rep.rule("message", "the message accompanying a finished run names a condition that holds")
    rep.rule("stability", "an iteration is recorded as stable exactly when the stability conditions hold and entropy switching is done")
    rep.rule("window", "the stability window has the documented length, and the same one everywhere")
    rep.rule("reliability", "the reliability index averages ELBO change, ELBO SD and posterior change of this iteration over their tolerances; the "
                            "improvement is the slope of the pessimistic ELBO over the evaluations of the recent iterations")
    rep.rule("loop", "the optimization loop runs the check in every iteration after its evaluations and ends only by its verdict")
    rep.rule("report", "the reported message is the one of the last check")
    table(p, rep)
    reliability(p, rep)
    loop(p, rep)
    flags(p, rep)


def table(p, rep):
    f = p.func(CHECK)
    if f is None:
        rep.bad("decision", "termination check", "vbmc.py", "the termination check does not exist")
        return
    where = f.where
    I = Interp(p, Config(path_sensitive=True, fork_ite=True, opaque=(REL,), track_call=lambda n: n.endswith(".record") or n == REL or "record" in n,
                         track_store=lambda b, n: True))
    outs = [(s, v) for s, c, v in I.run(f) if c == "return"]
    rep.used(I)
    rep.at_least("termination check paths", len(outs), 4)
    T = Table(p, rep)
    # stability windows used
    for s, v in outs:
        for e in s.events:
            if e.kind == "call" and e.sig[0] == REL:
                T.tols[bind(p, REL, e.sig[1], e.sig[2]).get("tol_stable_iters")] = 1
    spec = {True: T.poly(opt("tol_stable_entropy_iters")),
            False: T.poly(call("np.ceil", [mk("bin", "/", opt("tol_stable_count"), opt("fun_evals_per_iter"))]))}
    badroles = set()
    good = {}
    for s, v in outs:
        cmps = {x for t in list(s.facts) + [v] for x in subterms(t) if x.k == "cmp" or x.k == "idx" and strip(x) is st("entropy_switch")}
        roles = {x: T.role(x) for x in cmps}
        fine = {T.pair(x) for x, r in roles.items() if r and r[0] != "bad"}
        for x, r in roles.items():
            if r and r[0] != "bad":
                good[x] = r
            elif r and T.pair(x) not in fine:          # otherwise a consequence of the decided comparison
                rep.bad("condition", r[1], where, f"{r[1]} ({show(x)[:160]})")
                badroles.add(x)
    for x, r in good.items():
        rep.ok("condition", f"{r[0]} {show(x)[:60]}", where)
    # window by entropy switch
    for s, v in outs:
        sw = next((t for t in s.facts if T.role(t) and T.role(t)[0] == "SW"), None)
        for e in s.events:
            if e.kind == "call" and e.sig[0] == REL:
                t = bind(p, REL, e.sig[1], e.sig[2]).get("tol_stable_iters")
                if t is None:
                    continue
                got = T.poly(t)
                if sw is not None:
                    on = s.facts[sw] == T.role(sw)[1]
                    rep.check(got == spec[on], "window", f"stability window with entropy switch {'on' if on else 'off'}", e.where,
                              f"the stability window is {show(strip(t))[:150]}")
                elif t.k == "ite":
                    r = T.role(t.a[0])
                    if r and r[0] == "SW":
                        for branch, on in ((t.a[1], r[1]), (t.a[2], not r[1])):
                            rep.check(T.poly(branch) == spec[on], "window", f"stability window with entropy switch {'on' if on else 'off'}", e.where,
                                      f"the stability window is {show(strip(branch))[:150]}")
                else:
                    rep.check(got in spec.values() and False, "window", "stability window", e.where,
                              "the stability window does not depend on whether entropy switching is still to be done")
    # decision table
    rows = []
    for s, v in outs:
        if v.k != "tup" or len(v.a) != 2:
            rep.notes.append(f"termination check returns {show(v)[:80]}")
            rep.bad("decision", "shape of the verdict", where, "the check does not return (finished, message) on every path") if v in (NONE,) else None
            continue
        unknown = [t for t in s.facts if t.k not in ("and", "or", "not", "ite") and not T.role(t)]
        rec = None
        for e in s.events:
            if e.kind == "call" and e.sig[0].endswith("record"):
                ar = bind(p, "IterationHistory.record", (NONE,) + tuple(e.sig[1][-3:]), e.sig[2]) if len(e.sig[1]) >= 3 else {}
                key = ar.get("key", e.sig[1][-3] if len(e.sig[1]) >= 3 else None)
                if key is const("stable"):
                    rec = (e.sig[1][-2], e)
        rows.append((s, v.a[0], v.a[1], unknown, rec))
    nassign = 0
    seen = set()
    for bits in product((False, True), repeat=len(ROLES)):
        asg = dict(zip(ROLES, bits))
        stable = asg["S1"] and asg["S2"] and asg["S3"] and asg["S4"]
        fin = (asg["FC"] or asg["IT"] or (stable and not asg["SW"] and asg["W"])) and not (asg["MF"] or asg["MI"])
        nassign += 1
        hit = False
        for s, flag, msg, unk, rec in rows:
            if any(T.ev(t, asg, s.facts) not in (v, None) for t, v in s.facts.items()):
                continue
            # facts about conditions recognised as wrong leave the path open: already reported
            if any(t in badroles or t.k == "not" and t.a[0] in badroles for t in s.facts):
                continue
            hit = True
            got = T.ev(flag, asg, s.facts)
            if got is None:
                seen.add(("note", show(flag)[:80]))
                continue
            if got != fin:
                if got:
                    guard = asg["MF"] or asg["MI"]
                    why = "the run is declared finished " + (
                        "below the configured minimum of " + ("evaluations" if asg["MF"] else "iterations") if guard and
                        (asg["FC"] or asg["IT"] or stable and not asg["SW"] and asg["W"]) else "although no documented condition holds" +
                        (": " + show(unk[0])[:120] if unk else ""))
                else:
                    why = "the run is not declared finished although " + (
                        NAMES["FC"] + " is reached" if asg["FC"] else NAMES["IT"] + " is reached" if asg["IT"] else "the solution is stable") + \
                        (" (depends on " + show(unk[0])[:120] + ")" if unk else "")
                if unk and any(contains(u, lambda x: x.k in ("phi", "loop", "havoc")) for u in unk):
                    seen.add(("note", why))
                else:
                    seen.add(("decision", why))
            if got and fin:
                m = message(msg, asg, T, s.facts)
                if m:
                    holds = {"FC": asg["FC"], "IT": asg["IT"], "ST": stable and not asg["SW"] and asg["W"]}
                    if m == {""}:
                        seen.add(("message", "a finished run has no message"))
                    elif not all(holds[x] for x in m):
                        seen.add(("message", "the message names the " + NAMES[next(x for x in sorted(m) if not holds[x])] + " although another condition ended the run"))
            if rec is not None:
                r = T.ev(rec[0], asg, s.facts)
                if r is not None and r != (stable and not asg["SW"]):
                    seen.add(("stability", "an iteration is recorded as " + ("stable although the stability conditions do not hold" if r else
                                                                              "unstable although the stability conditions hold")))
            elif rec is None and not any("stable" in k for k, _ in seen):
                seen.add(("stability", "the stability of the iteration is not recorded on some path"))
        if not hit and not badroles:
            seen.add(("note", "some truth assignment matches no path"))
    for rule in ("decision", "message", "stability"):
        hits = sorted(w for r, w in seen if r == rule)
        for w in hits:
            rep.bad(rule, w.split(":")[0].split(" (")[0], where, w)
        if not hits:
            rep.ok(rule, f"{nassign} truth assignments x {len(rows)} paths", where)
    for r, w in sorted(seen):
        if r == "note":
            rep.notes.append(w)
    rep.count("truth assignments", nassign)
    # entropy switch is turned off when stable
    for s, flag, msg, unk, rec in rows:
        for e in s.events:
            if e.kind == "setidx" and len(e.sig) > 2 and e.sig[1] is const("entropy_switch"):
                rep.check(e.sig[2] is FALSE, "stability", "entropy switching once stable", e.where, "entropy switching is not turned off")


def message(msg, asg, T, facts):
    """conditions named by a message term"""
    if msg.k == "ite":
        c = T.ev(msg.a[0], asg, facts)
        if c is None:
            return None
        return message(msg.a[1] if c else msg.a[2], asg, T, facts)
    txt = " ".join(cval(x) for x in subterms(msg) if is_const(x) and isinstance(cval(x), str))
    if is_const(msg) and cval(msg) in ("", None):
        return {""}
    out = set()
    if "max_fun_evals" in txt:
        out.add("FC")
    if "max_iter" in txt:
        out.add("IT")
    if "stable" in txt:
        out.add("ST")
    return out or None


def reliability(p, rep):
    f = p.func(REL)
    if f is None:
        rep.bad("reliability", "reliability index", "vbmc.py", "the reliability index is not computed")
        return
    from rules.c24 import hist, element
    I = Interp(p, Config(path_sensitive=True))
    outs = [(s, v) for s, c, v in I.run(f) if c == "return"]
    rep.used(I)
    T = Table(p, rep)
    H = lambda n: idx(attr(SELF, "iteration_history"), const(n))
    it = st("iter")
    sn = call("np.sqrt", [st("sn2_hpd")])
    tsd = opt("tol_sd")
    tol = call("min", [call("max", [tsd, mk("mul", call("np.sqrt", [mk("bin", "/", sn, tsd)]), tsd)]), mk("mul", tsd, const(10))])
    want = {
        "ELBO change": mk("bin", "/", call("np.abs", [mk("bin", "-", idx(H("elbo"), it), idx(H("elbo"), mk("bin", "-", it, const(1))))]), tol),
        "ELBO SD": mk("bin", "/", idx(H("elbo_sd"), it), tol),
        "posterior change": mk("bin", "/", idx(H("sKL"), it), opt("tol_skl")),
    }
    N = Norm()
    nn = lambda t: N.n(order(T.canon(t)))
    wn = {k: nn(v) for k, v in want.items()}
    main = 0
    for s, v in outs:
        if v.k != "tup" or len(v.a) != 2:
            continue
        early = [t for t, b in s.facts.items() if b and t.k == "cmp" and contains(t, lambda x: x is it)]
        if is_const(v.a[0]) or v.a[0].k == "mod":
            rep.check(show(v.a[0]).endswith("inf)") or v.a[0] is const(float("inf")), "reliability", "reliability index of the first iterations", f.where,
                      f"the first iterations have reliability index {show(v.a[0])}")
            continue
        main += 1
        elems = mean_of(v.a[0])
        if elems is None:
            rep.notes.append("reliability index of unrecognised form " + show(v.a[0])[:100])
        else:
            got = [nn(e) for e in elems]
            rep.check(len(got) == 3, "reliability", "number of averaged ratios", f.where, f"{len(got)} ratios are averaged instead of three")
            for k, w in wn.items():
                rep.check(w in got, "reliability", k, f.where,
                          f"no averaged ratio is the documented one for the {k}; got " + "; ".join(show(strip(e))[:110] for e in elems))
        sl = v.a[1]
        if sl.k == "idx" and is_const(sl.a[1]) and sl.a[0].k == "call" and sl.a[0].a[0] in ("np.polyfit",):
            rep.check(cval(sl.a[1]) == 0 and len(sl.a[0].a[1]) > 2 and sl.a[0].a[1][2] is const(1), "reliability", "improvement is a slope", f.where,
                      "the improvement is not the slope of a straight line")
            x, y = (unmap(a) for a in sl.a[0].a[1][:2])
            hx = hist(x)
            wins = [(h[0], h[1], h[2]) for h in (hist(z) for z in subterms(y) if z.k == "idx") if h and (h[1] is not None or h[2] is not None)]
            if hx:
                rep.check(hx[0] == "func_count", "reliability", "improvement per evaluation", f.where, f"the improvement is taken per {hx[0]}")
                rep.check({w[0] for w in wins} == {"elbo", "elbo_sd"}, "reliability", "improvement of the pessimistic ELBO", f.where,
                          f"the improvement is that of {sorted({w[0] for w in wins})}")
                same = all(T.poly(w[1] or const(0)) == T.poly(hx[1] or const(0)) and T.poly(w[2] or const(0)) == T.poly(hx[2] or const(0)) for w in wins)
                rep.check(same, "reliability", "one window for the improvement", f.where, "evaluations and ELBO are taken over different iterations")
                rep.check(hx[2] is not None and T.diff(hx[2], it) == T.poly(const(1)), "reliability", "the window ends at this iteration", f.where,
                          "the window of the improvement does not end at the current iteration")
    rep.at_least("reliability paths", main, 1)


def unmap(t):
    while t.k == "call" and t.a[0] in ("list", "map", "np.array", "np.asarray", "tuple", "np.ravel", "np.astype", "np.squeeze", "np.flatten") and t.a[1]:
        t = t.a[1][1] if t.a[0] == "map" and len(t.a[1]) > 1 else t.a[1][0]
    return t


def order(t):
    """min/max arguments in a fixed order"""
    def f(x):
        if x.k == "call" and x.a[0] in ("min", "max") and len(x.a[1]) == 2:
            a = sorted(x.a[1], key=repr)
            return call(x.a[0], a)
        if x.k == "call" and x.a[0] in ("abs", "np.absolute", "np.fabs"):
            return call("np.abs", list(x.a[1]))
        return None
    return rewrite(t, f)


def mean_of(t):
    """elements averaged by a mean term"""
    t = strip(t)
    if t.k == "call" and t.a[0] in ("np.mean", "np.nanmean", "statistics.mean") and t.a[1]:
        x = t.a[1][0]
        while x.k == "call" and x.a[0] in ("np.array", "np.asarray", "np.hstack") and x.a[1]:
            x = x.a[1][0]
        if x.k in ("lst", "tup"):
            return [entry(y) for y in x.a]
        out = {}
        while x.k == "upd":
            b, k, v = x.a[0], x.a[1], x.a[2]
            if not is_const(k):
                return None
            out.setdefault(cval(k), v)
            x = b
        return list(out.values()) or None
    if t.k == "bin" and t.a[0] == "/" and t.a[2] is const(3):
        x = t.a[1]
        if x.k == "add" and len(x.a) == 3:
            return list(x.a)
        if x.k == "call" and x.a[0] in ("sum", "np.sum") and x.a[1] and x.a[1][0].k in ("lst", "tup"):
            return list(x.a[1][0].a)
    return None


def entry(t):
    """vec[i] of a vector filled element by element"""
    if t.k == "idx" and is_const(t.a[1]):
        x = t.a[0]
        while x.k == "upd" and is_const(x.a[1]):
            if x.a[1] is t.a[1]:
                return x.a[2]
            x = x.a[0]
    return t


# ---------------------------------------------------------------- the loop

def reaches(p, f, target, seen=None):
    """f (or a helper it calls) calls the target method"""
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    return any(calls_to(p, f, n, target, seen) for n in ast.walk(f.node) if isinstance(n, ast.Call))


def calls_to(p, f, n, target, seen=None):
    if not isinstance(n.func, ast.Attribute) and not isinstance(n.func, ast.Name):
        return False
    name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
    if name == target.split(".")[-1]:
        return True
    g = p.functions.get("VBMC." + name) or (p.functions.get(f.qual + "." + name))
    if g is None and isinstance(n.func, ast.Name):
        g = next((h for q, h in p.functions.items() if q.split(".")[-1] == name and h.mod is f.mod), None)
    if g is None or g.qual in BASELINE:
        return False
    return reaches(p, g, target, seen)


def own(loop, kinds):
    """statements of the given kinds that belong to this loop (not to nested loops or functions)"""
    out = []

    def go(stmts, nested):
        for s in stmts:
            if isinstance(s, kinds) and not (nested and isinstance(s, (ast.Break, ast.Continue))):
                out.append(s)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            inner = nested or isinstance(s, (ast.For, ast.While))
            for fld in ("body", "orelse", "finalbody"):
                go(getattr(s, fld, []) or [], inner)
            for h in getattr(s, "handlers", []) or []:
                go(h.body, inner)
    go(loop.body, False)
    return out


def guarded_by(loop, s, ok):
    """some enclosing if of statement s inside the loop has a test accepted by ok(test, branch)"""
    def go(stmts):
        for x in stmts:
            if x is s:
                return [True]
            for fld in ("body", "orelse", "finalbody"):
                r = go(getattr(x, fld, []) or [])
                if r:
                    if isinstance(x, ast.If) and ok(x.test, fld):
                        r.append("ok")
                    return r
            for h in getattr(x, "handlers", []) or []:
                r = go(h.body)
                if r:
                    return r
        return []
    return "ok" in go(loop.body)


def loop(p, rep):
    found = []
    for q, f in p.functions.items():
        if not q.startswith("VBMC."):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.While, ast.For)) and any(isinstance(c, ast.Call) and calls_to(p, f, c, CHECK) for b in n.body for c in ast.walk(b)):
                inner = any(isinstance(m, (ast.While, ast.For)) and m is not n and any(isinstance(c, ast.Call) and calls_to(p, f, c, CHECK) for c in ast.walk(m))
                            for b in n.body for m in ast.walk(b))
                if not inner:
                    found.append((f, n))
    if len(found) != 1:
        rep.bad("loop", "optimization loop", "vbmc.py", f"{len(found)} loops run the termination check (expected one)")
        return
    f, w = found[0]
    where = f"{f.mod.rel}:{w.lineno} {f.qual}"
    names = verdict_names(w)

    def is_flag(e):
        if isinstance(e, ast.Attribute) and e.attr == "is_finished":
            return True
        return isinstance(e, ast.Name) and e.id in names

    def not_flag(e):
        return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and is_flag(e.operand) or \
            isinstance(e, ast.Compare) and len(e.ops) == 1 and is_flag(e.left) and isinstance(e.comparators[0], ast.Constant) and (
                isinstance(e.ops[0], (ast.Eq, ast.Is)) and e.comparators[0].value is False or
                isinstance(e.ops[0], (ast.NotEq, ast.IsNot)) and e.comparators[0].value is True)
    const_true = isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and bool(w.test.value)
    if isinstance(w, ast.For):
        rep.bad("loop", "loop condition", where, "the optimization loop is limited to a fixed number of iterations")
    elif not const_true:
        rep.check(not_flag(w.test), "loop", "loop condition", where, f"the loop also ends by `{ast.unparse(w.test)}`")
    exits = 0
    for s in own(w, (ast.Break, ast.Return)):
        ok = guarded_by(w, s, lambda t, b: is_flag(t) and b == "body" or not_flag(t) and b == "orelse")
        exits += ok
        rep.check(ok, "loop", "exits of the loop", f"{f.mod.rel}:{s.lineno}", "the loop is left other than by the verdict of the termination check")
    if const_true and not exits:
        rep.bad("loop", "exits of the loop", where, "the loop has no exit by the verdict of the termination check")
    # unconditional check in every iteration
    top = None
    for i, s in enumerate(w.body):
        if any(isinstance(c, ast.Call) and calls_to(p, f, c, CHECK) for c in ast.walk(s)):
            top = (i, s)
            break
    i, s = top
    cond = isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.FunctionDef)) and not isinstance(s, ast.With)
    if isinstance(s, ast.If):
        cond = not any(isinstance(c, ast.Call) and calls_to(p, f, c, CHECK) for c in ast.walk(s.test))
    if isinstance(s, ast.Try):
        cond = not any(isinstance(c, ast.Call) and calls_to(p, f, c, CHECK) for b in s.body + s.finalbody if not isinstance(b, (ast.If, ast.For, ast.While)) for c in ast.walk(b))
    rep.check(not cond, "loop", "check in every iteration", f"{f.mod.rel}:{s.lineno}", "the termination check is not run in every iteration")
    for c in own(w, (ast.Continue,)):
        pos = next(k for k, b in enumerate(w.body) if any(x is c for x in ast.walk(b)))
        rep.check(pos > i, "loop", "check in every iteration", f"{f.mod.rel}:{c.lineno}", "an iteration can be left before the termination check")
    # evaluations and iteration counting precede the check
    def before(pred):
        return [k for k, b in enumerate(w.body) for c in ast.walk(b) if pred(c)]
    ev = before(lambda c: isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == "active_sample" or isinstance(c.func, ast.Attribute) and c.func.attr == "active_sample"))
    for k in ev:
        rep.check(k < i, "loop", "check after the evaluations", where, "the target is evaluated after the termination check of the iteration")


def verdict_names(w):
    out = set()
    for n in ast.walk(w):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == CHECK.split(".")[-1]:
            for t in n.targets:
                if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name):
                    out.add(t.elts[0].id)
    return out


def flags(p, rep):
    """who sets the finished flag, the iteration number and the reported message"""
    n = 0
    for f, I, log in sweep(p):
        if part_of_caller(p, f):
            continue
        for e in log:
            if e.kind == "setattr" and len(e.sig) >= 3 and e.sig[1] == "is_finished":
                v = strip(e.sig[2])
                n += 1
                root = v.k == "idx" and v.a[1] is const(0) and v.a[0].k == "call" and v.a[0].a[0] == CHECK
                ok = v is FALSE or root
                if not ok and (v is TRUE or not contains(v, lambda x: x.k == "call" and x.a[0] == CHECK)):
                    rep.bad("loop", "finished flag", e.where, f"the run is declared finished by {show(v)[:100]}, not by the termination check")
                else:
                    rep.ok("loop", "finished flag", e.where)
    rep.count("writes of the finished flag", n)
    f = p.func("VBMC.optimize")
    I = next((i for g, i, log in sweep(p) if g is f), None)
    log = next((log for g, i, log in sweep(p) if g is f), [])
    k = 0
    for e in log:
        if e.kind == "call" and e.sig[0] == "VBMC._create_result_dict":
            ar = bind(p, e.sig[0], e.sig[1], e.sig[2])
            m = ar.get("termination_message")
            if m is not None:
                k += 1
                src = [x for x in subterms(m) if x.k == "call" and x.a[0] == CHECK]
                if is_const(m):
                    rep.bad("report", "reported message", e.where, "a fixed text is reported instead of the message of the check")
                elif m.k == "idx" and src and m.a[1] is const(0):
                    rep.bad("report", "reported message", e.where, "the finished flag is reported as the message")
                else:
                    rep.ok("report", "reported message", e.where)
    g = p.func("VBMC._create_result_dict")
    if g is not None:
        J = Interp(p, Config(path_sensitive=True, track_store=lambda b, n: True))
        for s, c, v in J.run(g):
            if c == "return":
                d = dict_entries(s, v).get("message")
                if d is not None:
                    rep.check(strip(d) is sym("termination_message"), "report", "message in the results", g.where, f"the results report {show(strip(d))[:80]} as message")
