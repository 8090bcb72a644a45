"""C24: the selected iteration is the best by the documented criterion, and in range."""
import ast
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm, P, num
from fractions import Fraction

EXPLANATION = (
    "Path-sensitive term extraction of the selection of the returned solution: on every path the index is parsed into (range, criterion, "
    "direction) and compared with the documented criterion, and the returned posterior, ELBO, SD and stability are checked to be the "
    "records of that one index. Call sites are checked for the penalty and range arguments, options for being consulted.")

WRAPS = {"int", "float", "np.asarray", "np.array", "np.ravel", "np.squeeze", "np.astype", "np.int64", "np.atleast_1d", "np.flatten", "np.item"}


def hist(t):
    """(entry, key term) if t is iteration_history[entry] or a wrapped/sliced view of it: (entry, lo, hi) with hi/lo terms or None"""
    lo = hi = None
    sliced = False
    while True:
        if t.k == "call" and t.a[0] in WRAPS and t.a[1]:
            t = t.a[1][0]
        elif t.k == "idx" and t.a[1].k == "slice" and not sliced and is_entry(strip_w(t.a[0])):
            lo, hi, st = (list(t.a[1].a) + [NONE] * 3)[:3]
            if st is not NONE:
                return None
            sliced = True
            t = t.a[0]
        else:
            break
    n = is_entry(t)
    return (n, lo, hi) if n else None


def strip_w(t):
    while t.k == "call" and t.a[0] in WRAPS and t.a[1]:
        t = t.a[1][0]
    return t


def is_entry(t):
    if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str) and contains(t.a[0], lambda x: x.k == "attr" and x.a[1] == "iteration_history"):
        return cval(t.a[1])
    return None


def element(t):
    """(entry, index) of a single recorded value"""
    t = strip_w(t)
    if t.k == "idx" and t.a[1].k != "slice":
        n = is_entry(strip_w(t.a[0]))
        if n:
            return n, t.a[1]
        h = hist(t.a[0])
        if h and h[1] is None or h and h[1] in (NONE, const(0)):
            return h[0], t.a[1]
    return None


class Sel:
    def __init__(self, p, rep, I):
        self.p, self.rep, self.I, self.N = p, rep, I, Norm()
        self.kinds = {}
        self.params = set(p.func('VBMC.determine_best_vp').posonly)

    def eq(self, a, b):
        return a is b or strip(a) is strip(b) or self.N.n(strip(strip_w(a))) is self.N.n(strip(strip_w(b)))

    def minus(self, a, b):
        """constant a - b, or None"""
        from engine.poly import _add
        d = _add(self.N.poly(strip(a)), self.N.poly(strip(b)), -1)
        if not d:
            return 0
        if len(d) == 1 and frozenset() in d:
            return d[frozenset()]
        return None

    # criterion -> (sign, lo, hi): sign +1 when larger is better (elbo - k sd), -1 when negated; None unknown; "bad: why"
    def criterion(self, E):
        pl = self.N.poly(strip(E))
        orig = {}
        for x in subterms(E):
            if x.k in ("idx", "call") and hist(x):
                q = self.N.poly(strip(x))
                if len(q) == 1 and len(next(iter(q))) == 1:
                    orig[next(iter(next(iter(q))))[0]] = x
        got = {}
        for m, c in pl.items():
            ents = []
            rest = []
            for at, e in m:
                h = hist(orig.get(at, at))
                if h and e == 1:
                    ents.append(h)
                else:
                    rest.append((at, e))
            if len(ents) != 1:
                return None
            got[ents[0][0]] = (ents[0], c, rest)
        if not set(got) <= {"elbo", "elbo_sd", "r_index", "lcb_max"}:
            return None
        if "elbo" not in got:
            return "bad: the criterion does not contain the ELBO"
        (h, c, rest) = got["elbo"]
        if rest or abs(c) != 1:
            return None
        if "elbo_sd" not in got:
            return "bad: the criterion ignores the ELBO's uncertainty"
        (h2, c2, rest2) = got["elbo_sd"]
        if (c > 0) == (c2 > 0):
            return "bad: the criterion adds the uncertainty instead of subtracting it"
        if "safe_sd" in self.params:
            if not any(contains(at, lambda z: z is sym("safe_sd")) for at, e in rest2):
                return "bad: the uncertainty is not weighted by the penalty asked for"
            if [at for at, e in rest2] == [sym("safe_sd")] and abs(c2) != 1:
                return "bad: the uncertainty is weighted by a multiple of the penalty asked for"
        if not (self.bound_eq(h[1], h2[1], 0) and self.bound_eq(h[2], h2[2], None)):
            return "bad: ELBO and SD are taken over different iterations"
        return (1 if c > 0 else -1), h[1], h[2]

    def bound_eq(self, a, b, dflt):
        a = const(dflt) if a in (None, NONE) and dflt is not None else a
        b = const(dflt) if b in (None, NONE) and dflt is not None else b
        if a in (None, NONE) or b in (None, NONE):
            return a in (None, NONE) and b in (None, NONE)
        return self.eq(a, b)

    def upper(self, hi, mx, what, where):
        """the exclusive upper bound of a range of iterations is max_idx + 1"""
        if hi in (None, NONE):
            self.rep.bad("range", f"{what}: upper end", where, "the range is not limited to the given iteration")
            return
        d = self.minus(hi, mk("add", mx, const(1)))
        if d is not None:
            self.rep.check(d == 0, "range", f"{what}: upper end", where, f"the range ends {d} from the iteration after the given one")

    def last_stable(self, t, mx, where):
        """t is the index of the last stable iteration up to mx: True, False (recognised and wrong), None unknown"""
        t = strip_w(t)
        pick = None
        if t.k == "idx" and is_const(t.a[1]):
            pick = cval(t.a[1])
            t = strip_w(t.a[0])
            if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):      # np.where(...)[0][-1], argwhere(...)[-1][0]
                if t.a[0].k == "call" and t.a[0].a[0] in ("np.where", "np.nonzero"):
                    t = t.a[0]
                else:
                    pick = cval(t.a[1])
                    t = strip_w(t.a[0])
        elif t.k == "call" and t.a[0] in ("np.max", "np.amax", "max") and t.a[1]:
            pick = -1
            t = strip_w(t.a[1][0])
        elif t.k == "call" and t.a[0] in ("np.min", "np.amin", "min") and t.a[1]:
            pick = 0
            t = strip_w(t.a[1][0])
        if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0] in ("np.where", "np.nonzero"):
            t = t.a[0]
        if not (t.k == "call" and t.a[0] in ("np.argwhere", "np.where", "np.nonzero", "np.flatnonzero") and len(t.a[1]) == 1) or pick is None:
            return None
        s = self.stable_mask(t.a[1][0], mx, where)
        if s is None:
            return None
        return s and pick == -1

    def stable_mask(self, m, mx, where):
        neg = False
        m = strip_w(m)
        while m.k in ("inv", "not"):
            neg = not neg
            m = strip_w(m.a[0])
        if m.k == "cmp" and m.a[0] in ("eq", "is") and is_const(m.a[2]):
            neg ^= not bool(cval(m.a[2]))
            m = m.a[1]
        h = hist(m)
        if h is None:
            return None
        if h[0] != "stable":
            return False
        self.upper(h[2], mx, "last stable iteration", where)
        return not neg

    # ------------------------------------------------------------
    def path(self, s, v, where):
        rep = self.rep
        if v.k != "tup" or len(v.a) != 4:
            rep.bad("one-iteration", "result", where, "the selection does not return (posterior, elbo, elbo_sd, index)")
            return
        vp, elbo, sd, ix = v.a
        for name, t in (("vp", vp), ("elbo", elbo), ("elbo_sd", sd)):
            e = element(t)
            if e is None:
                rep.notes.append(f"returned {name} is not a single recorded value: {show(t, 3)}")
                continue
            rep.check(e[0] == name, "one-iteration", f"returned {name}", where, f"returns the record of '{e[0]}'")
            rep.check(self.eq(e[1], ix), "one-iteration", f"returned {name}: index", where, "taken from another iteration than the returned index")
        for e in s.events:
            if e.kind == "setidx" and is_const(e.sig[1]) and cval(e.sig[1]) == "stable":
                el = element(e.sig[2])
                if el:
                    rep.check(el[0] == "stable" and self.eq(el[1], ix), "one-iteration", "stability of the result", e.where,
                              "the stability flag is taken from another iteration")
        mx, dflt = self.max_index(s, where)
        if mx is None:
            rep.notes.append("default range not recognised")
            return
        st = self.stable_fact(s, mx)
        same = self.eq(ix, mx)
        if same:
            self.kinds["given"] = 1
            rep.check(st is True, "criterion", "given iteration", where, "the given iteration is returned without being stable")
            return
        if st is True:
            rep.bad("criterion", "stable iteration", where, f"the given iteration is stable but {show(ix, 4)} is returned")
            return
        rank = s.facts.get(sym("rank_criterion_flag"))
        core, start = self.split(ix)
        if core is None:
            rep.notes.append(f"selected index not recognised: {show(ix, 4)}")
            return
        fn, arg = core
        if rank is True:
            self.kinds["rank"] = 1
            self.rank(fn, arg, start, mx, where)
        else:
            self.kinds["elcbo"] = 1
            self.elcbo(s, fn, arg, start, mx, where)

    def max_index(self, s, where):
        given = s.facts.get(mk("cmp", "is", sym("max_idx"), NONE))
        if given is False:
            return sym("max_idx"), False
        t = s.env.get("max_idx")
        if t is None:
            return None, None
        if given is None and t is not sym("max_idx"):
            if t.k == "ite":
                t = t.a[1] if t.a[1] is not sym("max_idx") else t.a[2]
        e = element(t)
        if e:
            ok = e[0] == "iter" and is_const(e[1]) and cval(e[1]) == -1
            self.rep.check(ok, "range", "default range", where, f"the default range ends at {show(t)} instead of the last iteration")
        return s.env.get("max_idx"), True

    def stable_fact(self, s, mx):
        for f, v in s.facts.items():
            g = f
            if g.k == "cmp" and g.a[0] in ("eq", "is") and g.a[2] in (TRUE,):
                g = g.a[1]
            e = element(g)
            if e and e[0] == "stable" and self.eq(e[1], mx):
                return v
        return None

    def split(self, ix):
        """start + argbest(criterion)"""
        ix = strip_w(ix)
        terms = list(ix.a) if ix.k == "add" else [ix]
        core = [t for t in terms if strip_w(t).k == "call" and strip_w(t).a[0] in ("np.argmax", "np.argmin", "np.nanargmax", "np.nanargmin")
                or strip_w(t).k == "idx" and strip_w(strip_w(t).a[0]).k == "call" and strip_w(strip_w(t).a[0]).a[0] == "np.argsort"]
        if len(core) != 1:
            return None, None
        rest = [t for t in terms if t is not core[0]]
        start = const(0) if not rest else rest[0] if len(rest) == 1 else mk("add", *rest)
        c = strip_w(core[0])
        if c.k == "idx":
            if not is_const(c.a[1]):
                return None, None
            fn = {-1: "max", 0: "min"}.get(cval(c.a[1]))
            a = strip_w(c.a[0]).a[1]
        else:
            fn = "max" if c.a[0].endswith("max") else "min"
            a = c.a[1]
        if fn is None or not a:
            return None, None
        return (fn, a[0]), start

    def elcbo(self, s, fn, arg, start, mx, where):
        rep = self.rep
        c = self.criterion(arg)
        if c is None:
            rep.notes.append(f"criterion not recognised: {show(arg, 4)}")
            return
        if isinstance(c, str):
            rep.bad("criterion", "pessimistic ELBO", where, c[5:])
            return
        sign, lo, hi = c
        rep.check((sign > 0) == (fn == "max"), "criterion", "direction", where, "the worst instead of the best pessimistic ELBO is selected")
        self.upper(hi, mx, "pessimistic ELBO", where)
        lo = const(0) if lo in (None, NONE) else lo
        rep.check(self.eq(lo, start), "criterion", "offset", where, f"the position within the range starting at {show(lo, 4)} is offset by {show(start, 4)}")
        # where the range starts
        some = self.some_stable(s, mx, where)
        ls = self.last_stable(lo, mx, where)
        if lo.k == "ite":
            rep.notes.append("range start is conditional; branches not separated")
            return
        if some is True:
            rep.check(ls is not False and ls is not None or ls is None and not self.is_fraction(lo), "criterion", "range start", where,
                      "with a stable iteration the range does not start at the last stable one")
        elif some is False:
            fr = self.is_fraction(lo)
            if fr is not None:
                rep.check(fr, "criterion", "range start", where, "without a stable iteration the range is not the most recent fraction")

    def some_stable(self, s, mx, where):
        """does the path know that some iteration up to mx is stable"""
        for f, v in s.facts.items():
            if f.k == "cmp" and f.a[0] in ("eq", "lt", "le"):
                a, b = f.a[1], f.a[2]
                for x, y, flip in ((a, b, False), (b, a, True)):
                    if is_const(y) and x.k in ("call", "idx", "attr") and contains(x, lambda z: bool(hist(z)) and hist(z)[0] == "stable") and \
                            (x.k == "call" and x.a[0] in ("len", "np.size", "np.sum", "np.count_nonzero") or x.k == "attr" and x.a[1] == "size" or x.k == "idx"):
                        if f.a[0] == "eq" and cval(y) == 0:
                            return not v
                        if f.a[0] == "lt" and flip and cval(y) == 0:
                            return v           # 0 < n
                        if f.a[0] == "lt" and not flip and cval(y) == 1:
                            return not v
                        if f.a[0] == "le" and not flip and cval(y) == 0:
                            return not v
                        if f.a[0] == "le" and flip and cval(y) == 1:
                            return v
            if f.k == "call" and f.a[0] == "np.any" and contains(f, lambda z: bool(hist(z)) and hist(z)[0] == "stable"):
                return v
            if f.k == "call" and f.a[0] == "len" and contains(f, lambda z: bool(hist(z)) and hist(z)[0] == "stable"):
                return v
        return None

    def is_fraction(self, lo):
        """range start = ceil(max_idx * (1 - frac_back)) (not before 0): True/False, None when not recognised"""
        x = strip_w(lo)
        if x.k == "call" and x.a[0] in ("max", "np.maximum", "np.max") and len(x.a[1]) == 2:
            other = [y for y in x.a[1] if not (is_const(y) and cval(y) == 0)]
            if len(other) != 1:
                return None
            x = strip_w(other[0])
        if x.k == "call" and x.a[0] in ("math.ceil", "np.ceil", "math.floor", "np.floor", "round", "np.round") and x.a[1]:
            x = strip_w(x.a[1][0])
        from engine.poly import _add, _mul
        pl = self.N.poly(strip(x))
        fb = [m for m in pl for at, e in m if at is sym("frac_back")]
        if not fb and not contains(lo, lambda z: z is sym("frac_back")):
            return None if contains(lo, lambda z: z.k == "sym" and z.a[0] not in ("max_idx", "self")) else False
        if len(fb) == 1 and pl[fb[0]] > 0:
            return False
        if len(pl) != 2 or len(fb) != 1:
            return None
        c = pl[fb[0]]
        other = next(m for m in pl if m is not fb[0] and m != fb[0])
        if pl[other] != 1:
            return None
        rest = {at: e for at, e in fb[0] if at is not sym("frac_back")}
        return c == -1 and rest == dict(other)

    def rank(self, fn, arg, start, mx, where):
        rep = self.rep
        rep.check(fn == "min", "criterion", "rank: direction", where, "the largest instead of the smallest summed rank is selected")
        rep.check(self.minus(start, const(0)) in (0, None), "criterion", "rank: offset", where, "the selected position is shifted")
        a = arg
        if not (a.k == "call" and a.a[0] in ("np.sum",) and a.a[1]):
            rep.notes.append(f"summed rank not recognised: {show(arg, 3)}")
            return
        ax = [x for x in list(a.a[1][1:]) + [x for n, x in a.a[2] if n == "axis"]]
        rep.check(not ax or not is_const(ax[0]) or cval(ax[0]) in (1, -1), "criterion", "rank: axis", where, "ranks are not summed per iteration")
        M, ups = a.a[1][0], []
        while M.k == "upd":
            ups.append((M.a[1], M.a[2]))
            M = M.a[0]
        ups.reverse()
        if not (M.k == "call" and M.a[0] in ("np.zeros", "np.empty", "np.ones", "np.full")):
            rep.notes.append("rank matrix is not built column by column")
            return
        cols = {}
        for k, val in ups:
            if k.k != "tup" or len(k.a) != 2 or not is_const(k.a[1]):
                rep.notes.append("rank matrix write not recognised")
                return
            cols.setdefault(cval(k.a[1]), []).append((k.a[0], val))
        seen = set()
        for c, ws in cols.items():
            seen |= self.rank_col(ws, mx, where)
        known = "?" not in seen
        if known:
            for need in ("position", "elcbo", "r_index", "penalty"):
                rep.check(need in seen, "criterion", f"rank: {need}", where, f"the summed rank does not contain the {need} rank")

    def ascending(self, v, mx, what, where):
        """+1 for 1..n, -1 for n..1, None otherwise"""
        sgn = 1
        v = strip_w(v)
        if v.k == "idx" and v.a[1].k == "slice" and list(v.a[1].a)[:2] == [NONE, NONE] and self.is_m1(v.a[1]):
            sgn = -1
            v = strip_w(v.a[0])
        if v.k == "call" and v.a[0] in ("np.flip", "np.flipud") and v.a[1]:
            sgn = -sgn
            v = strip_w(v.a[1][0])
        if v.k == "call" and v.a[0] in ("np.arange", "range") and len(v.a[1]) == 2 and is_const(v.a[1][0]):
            d = self.minus(v.a[1][1], mk("add", mx, const(cval(v.a[1][0]) + 1)))
            if d is not None:
                self.rep.check(d == 0, "range", f"rank: {what}", where, "the ranks do not cover the iterations up to the given one")
            return sgn
        return None

    def is_m1(self, sl):
        st = (list(sl.a) + [NONE] * 3)[2]
        return is_const(st) and cval(st) == -1 or st.k == "neg" and is_const(st.a[0]) and cval(st.a[0]) == 1

    def rank_col(self, ws, mx, where):
        rep = self.rep
        if len(ws) == 1:
            rows, val = ws[0]
            asc = self.ascending(val, mx, "column", where)
            if asc is None:
                return {"?"}
            if rows.k == "slice":
                rep.check(asc == -1, "criterion", "rank: position", where, "earlier iterations are ranked before recent ones")
                return {"position"}
            r = strip_w(rows)
            if r.k == "idx" and r.a[1].k == "slice" and self.is_m1(r.a[1]):
                asc = -asc
                r = strip_w(r.a[0])
            if r.k == "call" and r.a[0] == "np.argsort" and r.a[1]:
                x = r.a[1][0]
                h = hist(x)
                if h and h[0] == "r_index":
                    self.upper(h[2], mx, "rank: reliability", where)
                    rep.check(asc == 1, "criterion", "rank: r_index", where, "unreliable iterations are ranked before reliable ones")
                    return {"r_index"}
                c = self.criterion(x)
                if isinstance(c, str):
                    rep.bad("criterion", "rank: elcbo", where, c[5:])
                    return {"elcbo"}
                if c:
                    self.upper(c[2], mx, "rank: pessimistic ELBO", where)
                    rep.check((asc == -1) == (c[0] > 0), "criterion", "rank: elcbo", where, "lower pessimistic ELBO is ranked before higher")
                    return {"elcbo"}
            return {"?"}
        if len(ws) == 2 and ws[0][0].k == "slice":
            m = self.stable_mask(ws[1][0], mx, where)
            if m is None:
                return {"?"}
            hi, lo = ws[0][1], ws[1][1]
            rep.check(m, "criterion", "rank: penalty", where, "the penalty is applied to stable instead of non-stable iterations")
            if is_const(lo):
                rep.check(cval(lo) == 1 and not is_const(hi) or is_const(hi) and cval(hi) > cval(lo), "criterion", "rank: penalty size", where,
                          "non-stable iterations are not penalised relative to stable ones")
            r = ws[1][0]
            h = hist(strip_cmp(r))
            if h and r.k != "cmp" and not (r.k == "call" and r.a[0] == "np.astype" and r.a[1][1:] and "bool" in show(r.a[1][1])):
                rep.bad("criterion", "rank: stability mask", where, "the recorded flags (an object array) are used as an index")
            return {"penalty"}
        return {"?"}


def strip_cmp(m):
    m = strip_w(m)
    while m.k in ("inv", "not"):
        m = strip_w(m.a[0])
    return m.a[1] if m.k == "cmp" else m


def number(e):
    try:
        return const(ast.literal_eval(e))
    except (ValueError, TypeError, SyntaxError):
        return None


def run(p, rep):
    rep.rule("one-iteration", "the returned posterior, ELBO, SD, stability and index are the records of one iteration")
    rep.rule("criterion", "a stable given iteration is returned; otherwise the best pessimistic ELBO since the last stable iteration (or the most recent fraction), or the smallest summed rank")
    rep.rule("range", "only iterations up to the given one are considered")
    rep.rule("arguments", "the selection is called with a positive uncertainty penalty and a fraction between 0 and 1, and as the options request")
    f = p.func("VBMC.determine_best_vp")
    I = Interp(p, Config(path_sensitive=True, cap=2000, track_store=lambda b, n: n == "stable" or isinstance(n, type(NONE)) and n is const("stable")))
    n = 0
    S = Sel(p, rep, I)
    for s, c, v in I.run(f):
        if c == "return":
            n += 1
            S.path(s, v, f.where)
    rep.used(I)
    rep.at_least("selection paths", n, 4)
    rep.count("recognised kinds", len(S.kinds))
    if len(S.kinds) < 3:
        rep.notes.append(f"only {sorted(S.kinds)} selection branches recognised")
    a = f.node.args
    dfl = {}
    pos = a.posonlyargs + a.args
    for x, e in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg in ("safe_sd", "frac_back") and e is not None:
            dfl[x.arg] = number(e)
    calls = 0
    sites = [(dfl, f.where)]
    for g in p.all_func_nodes():
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name:
                calls += 1
                d = dict(dfl)
                for nme, e in list(zip(f.posonly[1:], x.args)) + [(k.arg, k.value) for k in x.keywords]:
                    d[nme] = number(e)
                sites.append((d, f"{g.mod.rel}:{x.lineno}"))
    for d, w in sites:
        sd, fb = d.get("safe_sd"), d.get("frac_back")
        if sd is not None:
            rep.check(isinstance(cval(sd), (int, float)) and cval(sd) > 0, "arguments", "uncertainty penalty", w, f"safe_sd = {show(sd)}")
        if fb is not None:
            rep.check(isinstance(cval(fb), (int, float)) and 0 < cval(fb) <= 1, "arguments", "recent fraction", w, f"frac_back = {show(fb)}")
    rep.at_least("selection calls", calls, 2)
    used = {x.value for g in p.all_func_nodes() for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    for o in ("rank_criterion", "best_safe_sd", "best_frac_back"):
        if o in ini_names(p):
            rep.check(o in used, "arguments", f"option {o}", f.where, f"the option '{o}' is declared but the selection never consults it")
