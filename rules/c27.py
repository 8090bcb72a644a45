"""C27: the warm-up stage ends, and the training set is trimmed, exactly as documented."""
from engine.absint import Config, Interp
from engine.decision import Conditions, assignments
from engine.lib import *
from engine.terms import rewrite

EXPLANATION = (
    "All paths of the warm-up check and of the end-of-warm-up procedure are extracted as value terms; each comparison is reduced to a normal form and "
    "identified with a documented condition, and the decision tables (stop / do not stop; end / trim and go on) are compared with the documented ones "
    "over all truth assignments. The new training mask is decomposed into old mask, distance from the best value and the best D+1 points. "
    "The main loop is checked for consulting the check only in warm-up and for following its verdict; all writers of the flag are enumerated.")

CHECK = "VBMC._check_warmup_end_conditions"
SETUP = "VBMC._setup_vbmc_after_warmup"
SELF = sym("self")
LOG = attr(SELF, "function_logger")
COUNT = attr(LOG, "func_count")
Y = attr(LOG, "y_orig")
FLAG = attr(LOG, "X_flag")


def opt(n):
    return idx(attr(SELF, "options"), const(n))


def st(n):
    return idx(attr(SELF, "optim_state"), const(n))


def H(n):
    return idx(attr(SELF, "iteration_history"), const(n))


TRIMS = st("data_trim_list")
ITER = st("iter")


def norm1(t):
    from engine.decision import canon1
    if t is attr(SELF, "iteration"):
        return ITER
    if t.k == "call" and t.a[0] == "len" and t.a[1] and t.a[1][0].k == "call" and t.a[1][0].a[0] == "np.append" and len(t.a[1][0].a[1]) == 2:
        x, y = t.a[1][0].a[1]
        if not (y.k in ("lst", "tup") and len(y.a) != 1):
            return mk("add", call("len", [x]), const(1))
    if t.k == "call" and t.a[0] in ("np.size", "np.shape") and t.a[1] and t.a[1][0] is TRIMS:
        return call("len", [TRIMS])
    if t.k == "attr" and t.a[1] == "size" and t.a[0] is TRIMS:
        return call("len", [TRIMS])
    return canon1(t)


class C(Conditions):
    def canon(self, t):
        return rewrite(t, norm1)


def is_inf(t):
    return contains(t, lambda x: x.k == "mod" and x.a[0] in ("numpy.inf", "math.inf") or is_const(x) and cval(x) in (float("inf"), float("-inf")))


def run(p, rep):
    rep.rule("condition", "each comparison deciding the end of warm-up is the documented one, boundaries and windows included")
    rep.rule("decision", "a stop is declared exactly when neither ELCBO nor target improved over the window, or the best value is old, and no trimming is recent")
    rep.rule("verdict", "on a stop warm-up ends if the solution is reliable or data were trimmed before; otherwise the trimming is recorded and warm-up goes on")
    rep.rule("threshold", "the distance from the best value that keeps a point is the configured one, growing with the number of trimmings")
    rep.rule("trim", "trimming only de-activates points, keeps those within the distance of the best value, and at least the best D+1")
    rep.rule("after", "after a stop the variational posterior is fully recomputed and the configured skipping of active sampling applied")
    rep.rule("loop", "the check is consulted only during warm-up, its verdict followed, and the GP rebuilt on the trimmed set")
    rep.rule("flag", "warm-up, once ended, is never started again")
    rep.rule("posterior", "means and weights are free as configured outside warm-up; weights are not optimized in it")
    decision(p, rep)
    setup(p, rep)
    loop(p, rep)
    flag(p, rep)


# ---------------------------------------------------------------- the stop decision

class Stop:
    def __init__(self):
        self.c = C(self.role)
        P = self.c.poly
        self.T = mk("call", "math.ceil", (mk("bin", "/", opt("tol_stable_warmup"), opt("fun_evals_per_iter")),), (), None)
        self.thr = mk("mul", opt("stop_warmup_thresh"), opt("fun_evals_per_iter"))
        self.P = P
        self.window = set()

    def hists(self, t):
        return {cval(x.a[1]) for x in subterms(t) if x.k == "idx" and x.a[0] is attr(SELF, "iteration_history") and is_const(x.a[1])}

    def has(self, t, x):
        return contains(t, lambda y: y is x)

    def role(self, t):
        s = strip(self.c.canon(t))
        if t.k != "cmp":
            if s is opt("warmup_check_max"):
                return "CM", True
            return None
        op, a, b = t.a[0], t.a[1], t.a[2]
        if op not in ("lt", "le"):
            if op == "eq" and {strip(self.c.canon(a)), b} & {call("len", [TRIMS])} and (b is const(0) or a is const(0)):
                return "DT", False
            return None
        d = self.c.diff(b, a)
        hs = self.hists(t)
        sg = lambda want: {k: want.get(k, 0) - d.get(k, 0) for k in set(want) | set(d) if want.get(k, 0) != d.get(k, 0)}
        if self.has(t, opt("warmup_no_impro_threshold")):
            return self.longterm(op, d, t)
        if self.has(t, opt("stop_warmup_thresh")):
            if not hs:
                return "POS", True
            if hs & {"elbo", "elbo_sd"}:
                return self.impro("SC", op, d, t, "ELCBO")
            if "lcb_max" in hs:
                return self.impro("NR", op, d, t, "best value")
            return "bad", f"the improvement of {', '.join(sorted(hs))} is compared with the stopping threshold"
        if self.has(t, st("N")) or self.has(t, idx(TRIMS, const(-1))):
            return self.trimmed(op, d, t)
        if self.has(t, opt("tol_stable_warmup")) and not hs:
            e = self.c.diff(ITER, self.T)
            if not sg(e):
                return ("SO", True) if op == "lt" else ("bad", "the stability window must lie strictly inside the iterations done")
            n = {k: -v for k, v in e.items()}
            if not sg(n):
                return ("SO", False) if op == "le" else ("bad", "the stability window must lie strictly inside the iterations done")
            if not sg(e | {frozenset(): d.get(frozenset(), 0)}) or not sg(n | {frozenset(): d.get(frozenset(), 0)}):
                c = d.get(frozenset(), 0)
                s = -1 if not sg(n | {frozenset(): c}) else 1
                if (s, op, c) in ((1, "le", -1), (-1, "lt", 1)):
                    return "SO", s == 1
                return "bad", "the stability window is compared with the iterations done with an offset"
            return None
        L = call("len", [TRIMS])
        if self.has(self.c.canon(t), L):
            x = self.c.diff(L, const(0))
            if not sg(x | {frozenset(): d.get(frozenset(), 0)}):
                return ("DT", True) if (op, d.get(frozenset(), 0)) in (("lt", 0), ("le", -1)) else None
            if not sg({k: -v for k, v in x.items()} | {frozenset(): d.get(frozenset(), 0)}):
                return ("DT", False) if (op, d.get(frozenset(), 0)) in (("le", 0), ("lt", 1)) else None
        return None

    def orig(self, t, atom):
        """the subterm of t that became this atom of its normal form"""
        for x in subterms(self.c.canon(strip(t))):
            if x.k == atom.k or x.k in ("call", "idx"):
                d = self.P(x)
                if len(d) == 1 and next(iter(d)) == frozenset([(atom, 1)]):
                    return x
        return atom

    def coef(self, d, x):
        """coefficient of term x alone in d"""
        m = [k for k in self.P(x)]
        return d.get(m[0], 0) if len(m) == 1 else 0

    def longterm(self, op, d, t):
        ct, cc = self.coef(d, opt("warmup_no_impro_threshold")), self.coef(d, COUNT)
        rest = {k: v for k, v in d.items() if k not in self.P(opt("warmup_no_impro_threshold")) and k not in self.P(COUNT)}
        if (ct, cc) not in ((-1, 1), (1, -1)):
            return "bad", "the evaluations since the best value are not compared with warmup_no_impro_threshold"
        up = cc == 1
        if len(rest) != 1 or set(rest.values()) != {-cc}:
            return "bad", "the evaluations since the best value are not compared with warmup_no_impro_threshold (a term or factor too many)"
        (m,) = rest
        if len(m) != 1 or next(iter(m))[1] != 1:
            return None
        pos = self.orig(t, next(iter(m))[0])
        w = self.position(pos)
        if w:
            return "bad", w
        if up:
            return ("LT", True) if op == "lt" else ("bad", "more than warmup_no_impro_threshold evaluations are required")
        return ("LT", False) if op == "le" else ("bad", "more than warmup_no_impro_threshold evaluations are required")

    def position(self, t):
        """None, or what is wrong with the recorded number of evaluations at the best value"""
        if self.hists(t) and "func_count" not in self.hists(t):
            return "the position of the best value is not counted in evaluations"
        if t.k != "idx":
            return None
        k = t.a[1]
        m = next((x for x in subterms(k) if x.k == "cmp"), None)
        if m is None or "lcb_max" not in self.hists(m):
            return None
        y = k
        while y.k == "idx":
            if is_const(y.a[1]) and cval(y.a[1]) == -1:
                return "the last iteration close to the best value is taken instead of the first"
            y = y.a[0]
        d = self.c.diff(m.a[2], m.a[1])
        ti = self.coef(d, opt("tol_improvement"))
        lc = [(k2, v) for k2, v in d.items() if len(k2) == 1 and "lcb_max" in self.hists(next(iter(k2))[0])]
        if len(lc) != 2 or len(d) != 3:
            return "the best value is not located within tol_improvement of the maximum" if not ti else None
        for k2, v in lc:
            x = next(iter(k2))[0]
            ismax = x.k == "call" and x.a[0] == "vmax"
            if ismax and v != -1 or not ismax and v != 1:
                return "the iterations close to the best value are taken on the wrong side"
        return None if ti == 1 else "the tolerance around the best value has the wrong sign"

    def impro(self, name, op, d, t, what):
        th = self.P(self.thr)
        (tm, tc), = th.items()
        c = d.get(tm, 0)
        if c not in (1, -1):
            return "bad", f"the improvement of the {what} is not compared with stop_warmup_thresh * fun_evals_per_iter"
        rest = {k: v * c for k, v in d.items() if k != tm}          # thr - rest...
        # rest = -(after - before) or -max(0, after - before)
        if len(rest) == 1:
            (m, v), = rest.items()
            x = self.orig(t, next(iter(m))[0])
            if v == -1 and len(m) == 1 and x.k == "call" and x.a[0] == "max" and len(x.a[1]) == 2 and const(0) in x.a[1]:
                y = next(z for z in x.a[1] if z is not const(0))
                rest = {k: -w for k, w in self.P(y).items()}
            elif v == 1:
                return "bad", f"the improvement of the {what} is compared with the threshold with the wrong sign"
        if len(rest) != 2 or sorted(rest.values()) != [-1, 1]:
            if all(len(m) == 1 and next(iter(m))[0].k == "call" and next(iter(m))[0].a[0] in ("vmax", "vmin") for m in rest):
                return "bad", f"the improvement of the {what} is not the difference between the recent maximum and the one before"
            return None
        after = self.orig(t, next(next(iter(m))[0] for m, v in rest.items() if v == -1))
        before = self.orig(t, next(next(iter(m))[0] for m, v in rest.items() if v == 1))
        w = self.elcbo(after, before) if name == "SC" else self.best(after, before)
        if w:
            return "bad", w
        if c == 1:
            return (name, True) if op == "lt" else ("bad", f"an improvement of the {what} equal to the threshold still counts as improvement")
        return (name, False) if op == "le" else ("bad", f"an improvement of the {what} equal to the threshold still counts as improvement")

    def slices(self, t):
        """(term with slices of histories removed, set of (lo, hi))"""
        found = []

        def f(x):
            if x.k == "idx" and x.a[1].k == "slice" and self.hists(x.a[0]):
                a = (list(x.a[1].a) + [NONE] * 3)[:3]
                if a[2] is NONE:
                    found.append((a[0], a[1]))
                    return x.a[0]
            return None
        return rewrite(t, f), found

    def elcbo(self, after, before):
        E = mk("add", H("elbo"), mk("neg", mk("mul", opt("elcbo_impro_weight"), H("elbo_sd"))))
        if not all(x.k == "call" and x.a[0] in ("vmax", "vmin") for x in (after, before)):
            return None
        if any(x.a[0] == "vmin" for x in (after, before)):
            return "a minimum of the ELCBO is taken instead of the maximum"
        out = []
        for x in (after, before):
            base, sl = self.slices(x.a[1][0])
            inner = [s for s in sl if True]
            # the window bounds themselves mention len(history): they are inside the slice, not the sliced base
            if self.c.diff(base, E):
                ws = [y for y in subterms(base) if y.k == "cmp"]
                if ws or base.k == "idx" and base.a[0] is not attr(SELF, "iteration_history"):
                    return None
                return "the improvement is not that of the ELBO minus elcbo_impro_weight times its SD"
            top = {(self.key(lo), self.key(hi)) for lo, hi in inner}
            if len(top) != 1:
                return None
            out.append(next(iter(inner)))
        (alo, ahi), (blo, bhi) = out
        if blo is not NONE and self.P(bhi) == self.P(alo) and ahi is NONE:
            k = self.P(blo)
            if k != self.P(const(2)):
                return "the first two iterations are not what is left out of the ELCBO comparison"
            L = call("len", [E])
            n = [x for x in subterms(alo) if x.k == "call" and x.a[0] == "len"]
            for Lx in n:
                want = call("max", [const(3), mk("add", Lx, mk("neg", self.T))])
                if self.P(want) == self.P(alo) or self.P(call("max", [want.a[1][1], const(3)])) == self.P(alo):
                    return None
            want = [call("max", list(z)) for q in (mk("add", ITER, const(1), mk("neg", self.T)),) for z in ((const(3), q), (q, const(3)))]
            if any(self.P(z) == self.P(alo) for z in want):
                return None
            if n or contains(alo, lambda x: x is ITER):
                return "the recent window of the ELCBO is not the last tol_stable_warmup evaluations"
            return None
        if alo is NONE and ahi is not NONE and blo is not NONE:
            return "the recent window and the iterations before it are exchanged"
        if self.P(bhi) != self.P(alo):
            return "the recent window and the iterations before it do not adjoin"
        return None

    def key(self, t):
        return frozenset(self.P(t).items()) if t is not NONE else None

    def best(self, after, before):
        if not all(x.k == "call" and x.a[0] in ("vmax", "vmin") for x in (after, before)):
            return None
        if any(x.a[0] == "vmin" for x in (after, before)):
            return "a minimum of the confidence bounds is taken instead of the maximum"
        a, b = self.part(after.a[1][0]), self.part(before.a[1][0])
        if a is None or b is None:
            return None
        if a[0] == b[0]:
            return "the recent iterations are compared with themselves"
        if a[0] == "before":
            return "the recent iterations and those before are exchanged"
        if a[1] != b[1]:
            return "the recent iterations and those before do not adjoin"
        lo = a[2]
        r = mk("add", ITER, mk("neg", self.T), const(-1))
        if any(self.P(call("max", z)) == self.P(lo) for z in ([const(1), r], [r, const(1)])):
            return None
        if contains(lo, lambda x: x is ITER) and lo.k == "call" and lo.a[0] == "max":
            return "the recent iterations of the best value are not the last tol_stable_warmup evaluations"
        return None

    def part(self, t):
        """("recent"|"before", key, first index) of a masked or sliced vector of bounds"""
        if t.k != "idx":
            return None
        k = t.a[1]
        if k.k == "slice":
            lo, hi = k.a[0], k.a[1]
            if hi is NONE and lo is not NONE:
                return "recent", self.key(lo), lo
            if lo in (NONE, const(0)) and hi is not NONE:
                return "before", self.key(hi), hi
            return None
        side = "recent"
        if k.k == "inv" or k.k == "not":
            side, k = "before", k.a[0]
        if k.k == "upd" and k.a[1].k == "slice" and is_const(k.a[2]):
            lo, hi = k.a[1].a[0], k.a[1].a[1]
            if hi is not NONE or lo is NONE:
                return None
            if k.a[2] is FALSE:
                side = "before" if side == "recent" else "recent"
            base = k.a[0]
            fill = [x for x in subterms(base) if is_const(x) and isinstance(cval(x), bool)]
            z = base.k == "call" and (base.a[0] in ("np.zeros", "np.zeros_like") or fill and fill[0] is FALSE)
            if k.a[2] is TRUE and not z:
                return None
            return side, self.key(lo), lo
        return None

    def trimmed(self, op, d, t):
        cn = self.coef(d, st("N"))
        if is_inf(t):
            return "ALW", (op, cn) in (("le", 1), ("lt", 1))
        last = idx(TRIMS, const(-1))
        cl = self.coef(d, last)
        if not cl:
            other = [x for x in subterms(t) if x.k == "idx" and x.a[0] is TRIMS]
            if other:
                return "bad", "the distance is not taken from the last trimming"
            return None
        c = d.get(frozenset(), 0)
        extra = {k: v for k, v in d.items() if k and k not in self.P(st("N")) and k not in self.P(last)}
        if extra or (cn, cl) not in ((1, -1), (-1, 1)):
            return "bad", "the training points added since the last trimming are not what is compared with ten"
        if cn == 1:
            ok = (op, c) in (("le", -10), ("lt", -9))
        else:
            ok = (op, c) in (("lt", 10), ("le", 9))
        return ("NT", cn == 1) if ok else ("bad", "the training points added since the last trimming are not compared with ten")


def decision(p, rep):
    f = p.func(CHECK)
    if f is None:
        rep.bad("decision", "warm-up check", "vbmc.py", "the warm-up check does not exist")
        return
    I = Interp(p, Config(path_sensitive=True, fork_ite=True))
    outs = [(s, v) for s, c, v in I.run(f) if c == "return"]
    rep.used(I)
    rep.at_least("warm-up check paths", len(outs), 1)
    S = Stop()
    c = S.c
    bad = {}
    good = {}
    pairs = set()

    def pair(x):
        d = c.diff(x.a[2], x.a[1])
        return frozenset((frozenset(d.items()), frozenset((m, -v) for m, v in d.items())))

    def atoms(t):
        if t.k in ("and", "or", "not") or t.k == "bin" and t.a[0] in ("&", "|") or t.k == "inv":
            for x in (t.a[1:] if t.k == "bin" else t.a):
                yield from atoms(x)
        elif t.k == "ite":
            for x in t.a:
                yield from atoms(x)
        else:
            yield t
    for s, v in outs:
        for t in list(s.facts) + [v]:
            for x in atoms(t):
                r = c.role(x)
                if r and r[0] != "bad":
                    good[x] = r
                    if x.k == "cmp":
                        pairs.add(pair(x))
                elif r:
                    bad[x] = r
    wrong = set()
    for x, r in bad.items():
        if pair(x) in pairs:
            continue
        wrong.add(x)
        rep.bad("condition", r[1].split(" (")[0], f.where, f"{r[1]}: {show(x)[:170]}")
    for x, r in good.items():
        rep.ok("condition", f"{r[0]} {show(x)[:60]}", f.where)
    seen = {}
    n = 0
    names = ("SO", "SC", "NR", "LT", "NT", "DT", "CM")
    for asg in assignments(names):
        if not asg["DT"] and not asg["NT"] or asg["SC"] and not asg["SO"]:
            continue                                  # meaningless combinations
        a = dict(asg, POS=True, ALW=True)
        want = (asg["SO"] and asg["SC"] and (asg["NR"] or not asg["CM"]) or asg["LT"]) and asg["NT"]
        n += 1
        hit = False
        for s, v in outs:
            if not c.consistent(s.facts, a) or any(x in wrong for t in list(s.facts) for x in atoms(t)):
                continue
            hit = True
            got = c.ev(v, a, s.facts)
            unk = c.opaque(s.facts)
            if got is None:
                und = [x for x in atoms(v) if not c.role(x) and x not in (TRUE, FALSE)]
                if not any(x in wrong for x in atoms(v)):
                    seen[("note", show(und[0])[:100] if und else "verdict not decided")] = 1
                continue
            if got != want:
                why = ("a stop is declared although " + ("data were trimmed recently" if not asg["NT"] else "the ELCBO or the best value still improve")
                       if got else "no stop is declared although " + ("the best value is old" if asg["LT"] else "neither ELCBO nor best value improve"))
                k = "note" if unk and not all(contains(u, lambda x: x.k in ("idx", "attr")) for u in unk) else "decision"
                seen[(k, why + (f" (depends on {show(unk[0])[:100]})" if unk else ""))] = 1
        if not hit and not wrong:
            seen[("note", "some truth assignment matches no path")] = 1
    ds = [w for k, w in seen if k == "decision"]
    for w in sorted(ds):
        rep.bad("decision", w.split(" (")[0], f.where, w)
    if not ds:
        rep.ok("decision", f"{n} truth assignments x {len(outs)} paths", f.where)
    rep.notes += [w for k, w in seen if k == "note"]
    rep.count("truth assignments", n)


# ---------------------------------------------------------------- end or trim

def setup(p, rep):
    f = p.func(SETUP)
    if f is None:
        rep.bad("verdict", "end of warm-up", "vbmc.py", "the end-of-warm-up procedure does not exist")
        return
    I = Interp(p, Config(path_sensitive=True, fork_ite=True, track_store=lambda b, n: True, track_call=lambda n: True))
    outs = [s for s, c, v in I.run(f) if c != "raise"]
    rep.used(I)
    rep.at_least("end-of-warm-up paths", len(outs), 2)
    S = Stop()

    def role(t):
        s = strip(S.c.canon(t))
        if t.k != "cmp":
            return None
        op, a, b = t.a[0], t.a[1], t.a[2]
        if op in ("lt", "le") and S.has(t, opt("stop_warmup_reliability")):
            d = S.c.diff(b, a)
            R = idx(H("r_index"), ITER)
            want = S.c.diff(opt("stop_warmup_reliability"), R)
            alt = S.c.diff(opt("stop_warmup_reliability"), idx(H("r_index"), const(-1)))
            for w in (want, alt):
                if d == w:
                    return ("RI", True)
                if d == {k: -v for k, v in w.items()}:
                    return ("RI", False)
            return "bad", "the reliability index of this iteration is not what is compared with stop_warmup_reliability"
        r = S.role(t)
        return r if r and r[0] == "DT" else None
    c = C(role)
    wrong = set()
    for s in outs:
        for t in s.facts:
            r = role(t) if t.k == "cmp" else None
            if r and r[0] == "bad":
                wrong.add(t)
                rep.bad("verdict", r[1], f.where, f"{r[1]}: {show(t)[:160]}")
    L = call("len", [TRIMS])
    grow = mk("add", L, const(1))
    problems = set()
    kept = False
    trimmed_any = False
    floor_seen = False
    for s in outs:
        ended = trimrec = None
        last = skip = full = None
        mask = None
        alive = st("warmup")
        for e in s.events:
            if e.kind == "setidx" and e.sig[0] in (attr(SELF, "optim_state"),) or e.kind == "setidx" and show(e.sig[0]).startswith("upd"):
                k = cval(e.sig[1]) if is_const(e.sig[1]) else None
                if k == "warmup":
                    ended = e
                elif k == "data_trim_list":
                    trimrec = e
                elif k == "last_warmup":
                    last = e
                elif k == "skip_active_sampling":
                    skip = e
                elif k == "recompute_var_post":
                    full = e
            elif e.kind == "mutate" and e.sig[0] is TRIMS and e.sig[1] in ("append", "extend"):
                trimrec = e
            elif e.kind == "setattr" and e.sig[1] == "X_flag":
                mask = e
            elif e.kind == "setidx" and e.sig[0] is FLAG:
                mask = e
        isend = ended is not None and strip(ended.sig[2]) is FALSE
        for asg in assignments(("RI", "DT")):
            if not c.consistent(s.facts, asg) or any(t in wrong for t in s.facts):
                continue
            want = asg["RI"] or asg["DT"]
            cond = [t for t in c.opaque(s.facts) if t.k == "cmp" and not contains(t, lambda x: x is Y)]
            if ended is not None and not is_const(strip(ended.sig[2])):
                got = c.ev(ended.sig[2], asg, s.facts)
                if got is None:
                    rep.notes.append(f"warm-up flag becomes {show(ended.sig[2])[:80]}")
                    continue
                isend = not got
            if isend != want:
                problems.add(("verdict", "warm-up ends although the solution is unreliable and no data were trimmed before" if isend else
                              "warm-up goes on although " + ("the solution is reliable" if asg["RI"] else "data were trimmed before"), f.where))
            elif isend:
                if last is None or not S.c.same(last.sig[2], ITER):
                    problems.add(("verdict", "the iteration that ends warm-up is not recorded as the last one of warm-up", f.where))
                if trimrec is not None:
                    problems.add(("verdict", "a trimming is recorded at the end of warm-up as if warm-up went on", f.where))
            else:
                if last is not None:
                    problems.add(("verdict", "a last warm-up iteration is recorded although warm-up goes on", f.where))
                if trimrec is None:
                    problems.add(("verdict", "the trimming of a false alarm is not recorded", f.where))
                elif not contains(trimrec.sig[2] if isinstance(trimrec.sig[2], T) else mk("tup", *[x for x in trimrec.sig[2] if isinstance(x, T)]), lambda x: x is st("N")):
                    problems.add(("verdict", "the trimming is not recorded with the size of the training set", f.where))
                elif trimrec.kind == "setidx" and not contains(trimrec.sig[2], lambda x: x is TRIMS):
                    problems.add(("verdict", "recording a trimming forgets the earlier ones", f.where))
        if full is None or strip(full.sig[2]) is not TRUE:
            problems.add(("after", "the variational posterior is not fully recomputed after a stop", f.where))
        if skip is None:
            problems.add(("after", "skipping of active sampling is not set after a stop", f.where))
        elif not S.c.same(skip.sig[2], opt("skip_active_sampling_after_warmup")):
            problems.add(("after", "skipping of active sampling after a stop does not follow its option", f.where))
        if mask is None:
            problems.add(("trim", "the training set is not trimmed on some path", f.where))
            continue
        trimmed_any = True
        r = trim(S, s, mask, isend, grow, rep, f)
        for x in r[0]:
            problems.add(x)
        kept = kept or r[1]
        floor_seen = floor_seen or r[2]
    if trimmed_any and not kept:
        if floor_seen:
            rep.notes.append("minimum of kept points of unrecognised form")
        else:
            problems.add(("trim", "nothing keeps at least D+1 points", f.where))
    for r, w, wh in sorted(problems):
        rep.bad(r, w, wh, w)
    for r in ("verdict", "threshold", "trim", "after"):
        if not any(x[0] == r for x in problems):
            rep.ok(r, f"{len(outs)} paths of the end of warm-up", f.where)
    rep.count("paths of the end of warm-up", len(outs))


def trim(S, s, e, isend, grow, rep, f):
    """(problems, the best D+1 are kept on this path, a minimum is mentioned)"""
    out = []
    P = S.c.poly
    v = S.c.canon(strip(e.sig[2]))
    if e.kind == "setidx":
        # X_flag[~keep] = False
        k = S.c.canon(strip(e.sig[1]))
        if v is FALSE and k.k in ("inv", "not"):
            keep = k.a[0]
        elif v is TRUE:
            return [("trim", "points are put back into the training set", e.where)], True, False
        else:
            rep.notes.append("mask written as " + show(v)[:80])
            return [], True, False
    else:
        parts = []

        def conj(t):
            if t.k == "bin" and t.a[0] in ("&", "*") or t.k in ("and", "mul"):
                for x in (t.a[1:] if t.k == "bin" else t.a):
                    conj(x)
            else:
                parts.append(t)
        conj(v)
        flat = [unmask(x) for x in parts]
        if FLAG not in flat:
            if contains(v, lambda x: x is FLAG) and not (v.k == "bin" and v.a[0] == "|" or v.k == "or"):
                rep.notes.append("mask of unrecognised form " + show(v)[:80])
                return [], True, False
            return [("trim", "points excluded before are put back into the training set", e.where)], True, False
        rest = [x for x in flat if x is not FLAG]
        if len(rest) != 1:
            rep.notes.append("mask of unrecognised form " + show(v)[:80])
            return [], True, False
        keep = rest[0]
    keep = unmask(keep)
    base, upds = keep, []
    while base.k == "upd" or base.k in ("or",) or base.k == "bin" and base.a[0] == "|":
        if base.k == "upd":
            upds.append((base.a[1], base.a[2]))
            base = unmask(base.a[0])
        else:
            return [], True, True
    neg = False
    while base.k in ("inv", "not"):
        neg, base = not neg, unmask(base.a[0])
    mentions = any(contains(t, lambda x: x is attr(SELF, "D")) for t in list(s.facts) + [v])
    if base.k != "cmp" or base.a[0] not in ("lt", "le"):
        rep.notes.append("kept points of unrecognised form " + show(base)[:80])
        return out, True, mentions
    d = S.c.diff(base.a[2], base.a[1])
    if neg:
        d = {k: -x for k, x in d.items()}
    cy = S.coef(d, Y)
    best = [(m, x) for m, x in d.items() if len(m) == 1 and next(iter(m))[0].k == "call" and next(iter(m))[0].a[0] == "vmax" and contains(next(iter(m))[0], lambda z: z is Y)]
    if cy == -1:
        out.append(("trim", "points far from the best value are kept and close ones removed", e.where))
        return out, True, mentions
    if cy != 1 or len(best) != 1 or best[0][1] != -1:
        if any(len(m) == 1 and next(iter(m))[0].k == "call" and next(iter(m))[0].a[0] == "vmin" for m in d):
            out.append(("trim", "the distance is not taken from the best value", e.where))
        elif cy == 1 and len(best) == 1:
            out.append(("trim", "the distance is not taken from the best value", e.where))
        else:
            rep.notes.append("distance of unrecognised form " + show(base)[:80])
        return out, True, mentions
    x = S.orig(base, next(iter(best[0][0]))[0]).a[1][0]
    if x is not Y and not (x.k == "idx" and x.a[0] is Y and (x.a[1].k != "slice" or x.a[1].a[0] in (NONE, const(0)))):
        rep.notes.append("best value over " + show(x)[:80])
    elif x.k == "idx" and x.a[1].k == "slice" and S.P(x.a[1].a[1]) not in (S.P(mk("add", attr(LOG, "Xn"), const(1))),):
        if contains(x.a[1].a[1], lambda z: z is attr(LOG, "Xn")):
            out.append(("trim", "the best value is not taken over all recorded points", e.where))
    rest = {m: c for m, c in d.items() if m != best[0][0] and m not in P(Y)}
    want = P(mk("mul", opt("warmup_keep_threshold"), grow))
    alarm = P(mk("mul", opt("warmup_keep_threshold_false_alarm"), grow))
    nofa = any(t.k == "is" and b for t, b in s.facts.items()) if False else None
    isnone = next((b for t, b in s.facts.items() if S.has(t, opt("warmup_keep_threshold_false_alarm")) and t.k not in ("and", "or", "not") and contains(t, lambda z: z is NONE)), None)
    g = P(grow)
    if isend:
        if rest != want:
            out.append(("threshold", "at the end of warm-up the distance is not warmup_keep_threshold times the number of trimmings plus one", e.where))
    elif isnone is True:
        if rest != want:
            out.append(("threshold", "without its own option a false alarm does not use warmup_keep_threshold times the number of trimmings plus one", e.where))
    elif isnone is False:
        if rest != alarm:
            out.append(("threshold", "the distance after a false alarm is not warmup_keep_threshold_false_alarm times the number of trimmings plus one", e.where))
    else:
        ok = rest in (alarm,) or len(rest) == 1 and any(S.has(next(iter(m))[0], opt("warmup_keep_threshold_false_alarm")) for m in rest for _ in (0,))
        if not any(S.has(a, opt("warmup_keep_threshold_false_alarm")) for m in rest for a, _ in m):
            out.append(("threshold", "a false alarm does not use its own distance", e.where))
    # the best D+1
    D1 = P(mk("add", attr(SELF, "D"), const(1)))
    low = None
    for t, b in s.facts.items():
        if t.k == "cmp" and t.a[0] in ("lt", "le") and contains(t, lambda z: z is attr(SELF, "D")) and contains(t, lambda z: z.k == "call" and z.a[0] in SUMS):
            dd = S.c.diff(t.a[2], t.a[1])
            cs = [(m, c) for m, c in dd.items() if len(m) == 1 and next(iter(m))[0].k == "call" and next(iter(m))[0].a[0] in SUMS]
            if len(cs) != 1:
                continue
            m, c = cs[0]
            r2 = {k: z * (-c) for k, z in dd.items() if k != m}       # number compared with
            off = S.c.diff(mk("add", attr(SELF, "D"), const(1)), const(0))
            z = {k: r2.get(k, 0) - off.get(k, 0) for k in set(r2) | set(off) if r2.get(k, 0) != off.get(k, 0)}
            if set(z) <= {frozenset()}:
                zc = z.get(frozenset(), 0)
                small = (c == -1) == b                                   # few points kept on this path
                strict = (t.a[0] == "lt") == (c == -1)                   # condition "few" is strict
                low = (small, zc + (0 if strict else 1) if c == -1 else zc + (0 if t.a[0] == "le" else 1))
                break
    if low is None:
        # no count: the best D+1 are kept unconditionally
        if not upds:
            return out, False, mentions
        low = (True, 0)
    small, off = low
    if small is True and not upds:
        out.append(("trim", "the best D+1 points are not kept when too few are left", e.where))
        return out, True, True
    if off < 0:
        out.append(("trim", "fewer than D+1 points can be left", e.where))
    for k, val in upds:
        w = order(S, k)
        if w:
            out.append(("trim", w, e.where))
    return out, bool(upds), True


SUMS = {"np.sum", "sum", "np.count_nonzero", "np.nansum"}


def unmask(t):
    """mask without reshaping"""
    while True:
        if t.k == "idx" and t.a[1].k == "tup" and len(t.a[1].a) == 2 and t.a[1].a[0].k == "slice" and t.a[1].a[1] is const(0) and all(z is NONE for z in t.a[1].a[0].a):
            t = t.a[0]
        elif t.k == "call" and t.a[0] in ("np.ravel", "np.squeeze", "np.flatten", "np.reshape", "np.asarray", "np.array", "np.astype", "np.copy", "bool") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def order(S, k):
    """None or what is wrong with the indices of the points kept in any case"""
    k = unmask(k)
    if k.k != "idx" or k.a[1].k != "slice":
        return None
    lo, hi, step = (list(k.a[1].a) + [NONE] * 3)[:3]
    b = unmask(k.a[0])
    desc = False
    while b.k == "idx" and b.a[1].k == "slice":
        if (list(b.a[1].a) + [NONE] * 3)[2] is const(-1):
            desc = not desc
        elif b.a[1].a[0] not in (NONE, const(0)) or b.a[1].a[1] is not NONE:
            return None
        b = unmask(b.a[0])
    if b.k == "call" and b.a[0] in ("np.flip", "np.flipud"):
        desc, b = not desc, unmask(b.a[1][0])
    if b.k != "call" or b.a[0] not in ("np.argsort",) or not b.a[1]:
        return None
    d = S.P(b.a[1][0])
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if not contains(next(iter(m))[0], lambda z: z is Y):
        return None
    best_first = (c < 0) != desc
    D1 = mk("add", attr(SELF, "D"), const(1))
    if lo in (NONE, const(0)) and hi is not NONE and step is NONE:
        if not best_first:
            return "the worst points are kept in any case instead of the best"
        if contains(hi, lambda z: z is attr(SELF, "D")):
            n = mk("add", attr(LOG, "Xn"), const(1))
            if S.P(hi) not in [S.P(x) for x in (D1, call("min", [D1, n]), call("min", [n, D1]))]:
                return "the number of points kept in any case is not D+1"
        return None
    if hi is NONE and lo is not NONE and best_first:
        return "the worst points are kept in any case instead of the best"
    return None


# ---------------------------------------------------------------- loop and flag

def warm(t):
    """a reading of the warm-up flag"""
    return t.k in ("idx", "havoc", "loop", "phi", "upd") and "warmup" in repr_key(t)


def repr_key(t):
    if t.k == "idx":
        return show(t.a[1])
    if t.k == "havoc":
        return show(mk("tup", *[x for x in t.a[1:2] if isinstance(x, T)])) + str(t.a[1] if len(t.a) > 1 else "")
    return show(t, 3)


def loop(p, rep):
    f = p.func("VBMC.optimize")
    if f is None:
        rep.bad("loop", "optimization loop", "vbmc.py", "the optimization does not exist")
        return
    _, I, log = next(x for x in sweep(p) if x[0] is f)
    checks = [e for e in log if e.kind == "call" and e.sig[0] == CHECK]
    ends = [(i, e) for i, e in enumerate(log) if e.kind == "call" and e.sig[0] == SETUP]
    if not checks:
        rep.bad("loop", "warm-up check in the loop", f.where, "the optimization never checks for the end of warm-up")
    if not ends:
        rep.bad("loop", "end of warm-up in the loop", f.where, "the optimization never ends warm-up")
    for e in checks:
        g = [t for t, v in e.facts.items() if v is True and t.k not in ("and", "or", "not") and "warmup" in show(t, 12) and not contains(t, lambda x: x.k == "call" and x.a[0] in (CHECK, SETUP))]
        rep.check(bool(g) and bool(e.loops), "loop", "warm-up check only in warm-up", e.where, "the end of warm-up is checked outside warm-up: data are trimmed again")
        wrongs = [t for t, v in e.facts.items() if v is False and t.k not in ("and", "or", "not", "cmp") and warm(t) and "warmup" in show(t, 3)]
        if wrongs and not g:
            rep.bad("loop", "warm-up check only in warm-up", e.where, "the end of warm-up is checked outside warm-up")
    for i, e in ends:
        v = [b for t, b in e.facts.items() if t.k == "call" and t.a[0] == CHECK]
        rep.check(v == [True] or v and all(v), "loop", "verdict of the warm-up check", e.where,
                  "warm-up is ended against the verdict of the check" if v else "warm-up is ended without the verdict of the check")
        mine = set(e.facts.items())
        ok = False
        for j in range(i + 1, len(log)):
            x = log[j]
            if x.kind == "call" and x.sig[0] in ("gaussian_process_train.reupdate_gp", "gaussian_process_train.train_gp"):
                extra = [t for t, b in x.facts.items() if (t, b) not in mine and t.k not in ("and", "or", "not")]
                ok = not extra
                break
            if x.kind == "setidx" and x.sig[1] is const("iter"):
                break
        rep.check(ok, "loop", "GP after trimming", e.where, "the GP is not rebuilt on the trimmed training set")
    want = {"optimize_mu": "variable_means", "optimize_weights": "variable_weights"}
    init = next((x for x in sweep(p) if x[0].qual == "VBMC.__init__"), None)
    boost = next((x for x in sweep(p) if x[0].qual == "VBMC.final_boost"), None)
    for where, x in (("after warm-up", (f, I, log)), ("without warm-up", init), ("final optimization", boost)):
        if x is None:
            continue
        for a, o in want.items():
            es = [e for e in x[2] if e.kind == "setattr" and e.sig[1] == a and not e.func.startswith("VariationalPosterior")]
            if not es:
                rep.bad("posterior", f"{a} {where}", x[0].where, f"the posterior's {a} is never set according to {o} {where}")
            for e in es:
                val = strip(e.sig[2])
                ok = val.k == "idx" and val.a[1] is const(o)
                if not ok and not is_const(val) and not (val.k == "idx" and is_const(val.a[1])):
                    rep.notes.append(f"{a} {where} becomes {show(val)[:60]}")
                    continue
                if not ok and val is FALSE and any(b is True and "warmup" in show(t, 12) for t, b in e.facts.items()):
                    continue
                rep.check(ok, "posterior", f"{a} {where}", e.where, f"the posterior's {a} does not follow {o} {where}")
    if boost is not None:
        k = [i for i, e in enumerate(boost[2]) if e.kind == "setidx" and e.sig[1] is const("warmup")]
        o = [i for i, e in enumerate(boost[2]) if e.kind == "call" and e.sig[0] == "variational_optimization.optimize_vp"]
        if o:
            rep.check(any(i < o[0] and strip(boost[2][i].sig[2]) is FALSE for i in k), "posterior", "warm-up off in the final optimization", boost[0].where,
                      "the final optimization of a run that ended in warm-up runs with the settings of warm-up")


def flag(p, rep):
    n = 0
    for f, I, log in sweep(p):
        for e in log:
            if e.kind == "setidx" and len(e.sig) > 2 and e.sig[1] is const("warmup") or e.kind == "setidx" and len(e.sig) > 2 and e.sig[1] is const("last_warmup"):
                b = e.sig[0]
                if "optim_state" not in show(b, 30) and not f.qual.endswith("_init_optim_state"):
                    continue
                v = strip(e.sig[2])
                n += 1
                if f.qual == "VBMC._init_optim_state" or e.func == "VBMC._init_optim_state":
                    if e.sig[1] is const("warmup"):
                        ok = v.k == "idx" and v.a[1] is const("warmup")
                        if ok or is_const(v):
                            rep.check(ok, "flag", "initial warm-up flag", e.where, "the run does not start in warm-up as configured")
                    continue
                if e.sig[1] is const("warmup"):
                    if v is FALSE:
                        rep.ok("flag", f"warm-up ended in {f.qual}", e.where)
                    elif v is TRUE or not contains(v, lambda x: x.k == "idx" and x.a[1] is const("warmup") or x.k == "call") and v.k != "ite":
                        if not contains(v, lambda x: x.k in ("cmp", "and", "or", "not")):
                            rep.bad("flag", "warm-up restarted", e.where, f"the warm-up flag becomes {show(v)[:80]}")
                        else:
                            rep.notes.append(f"warm-up flag becomes {show(v)[:80]} at {e.where}")
    rep.count("writes of the warm-up state", n)
    g = p.func("variational_optimization.optimize_vp")
    i = p.func("VBMC.__init__")
    free = []
    for f, I, log in sweep(p):
        if f is g:
            off = [e for e in log if e.kind == "setattr" and e.sig[1] == "optimize_weights" and strip(e.sig[2]) is FALSE and
                   any(b and "warmup" in show(t, 12) for t, b in e.facts.items())]
            free.append(bool(off))
        elif f is i:
            on = [e for e in log if e.kind == "setattr" and e.sig[1] == "optimize_weights" and not e.func.startswith("VariationalPosterior")]
            free.append(bool(on) and all(any(b is False and "warmup" in show(t, 12) for t, b in e.facts.items()) or strip(e.sig[2]) is FALSE for e in on))
    if free:
        rep.check(any(free), "posterior", "weights in warm-up", (g or i).where, "the weights of the components are optimized during warm-up")
