"""C29: among candidates, the best by its own value is taken."""
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm
from engine.terms import rewrite

EXPLANATION = (
    "An orientation analysis (larger is better / smaller is better) is run over the value terms of every function: targets, densities and ELBOs are better "
    "when larger; negated densities, negative ELBOs, acquisition values and distances when smaller; negation flips, monotone functions keep it. Every argmin, "
    "argmax, sort-and-take, comparison-guarded replacement and minimized objective is an obligation. A row-identity analysis checks that the values that "
    "decide belong to the very candidates indexed, through the row-preserving operations between them.")

NAMES = {"elbo": 1, "elcbo": 1, "lnZ": 1, "nelbo": -1, "nelcbo": -1, "lcb_max": 1, "y": 1, "y_orig": 1, "y_max": 1, "y_star": 1, "hpd_y": 1, "f_bar": 1, "f_mu": 1,
         "fun": -1}
RESULT = {"variational_optimization._neg_elcbo": {None: -1, 0: -1, 2: 1, 3: 1}, "get_hpd.get_hpd": {1: 1}, "minimize_adam.minimize_adam": {1: -1, 3: -1},
          "cma.fmin": {1: -1}, "cma.fmin2": {}, "AbstractAcqFcn.__call__": {None: -1}, "FunctionLogger.__call__": {0: 1}, "FunctionLogger.add": {0: 1},
          "gaussian_process_train._get_training_data": {1: 1}, "scipy.spatial.distance.cdist": {None: -1}}
KEEP = {"np.ravel", "np.squeeze", "np.copy", "np.asarray", "np.array", "np.reshape", "np.flatten", "np.atleast_1d", "np.atleast_2d", "copy.copy", "copy.deepcopy", "float",
        "np.astype", "list", "tuple", "np.log", "np.exp", "np.sqrt", "np.nan_to_num", "np.mean", "np.median", "np.sum", "np.log1p", "np.expm1", "np.transpose", "np.item",
        "np.maximum", "np.minimum", "np.max", "np.min", "np.amax", "np.amin", "max", "min", "np.clip", "np.tolist", "np.real", "np.append", "np.concatenate", "np.hstack", "np.vstack"}
SAME_ROWS = {"np.copy", "np.asarray", "np.array", "copy.copy", "copy.deepcopy", "np.atleast_2d", "np.atleast_1d", "np.squeeze", "np.ravel", "np.flatten", "np.astype",
             "np.log", "np.exp", "np.sqrt", "np.negative", "np.abs", "list"}
NEW_ROWS = {"np.delete", "np.flip", "np.flipud", "np.sort", "np.unique", "np.roll", "np.random.permutation", "reversed", "sorted"}
OBJECTIVE = {"scipy.optimize.minimize": ("fun", 0), "cma.fmin": ("objective_function", 0), "cma.fmin2": ("objective_function", 0), "minimize_adam.minimize_adam": ("f", 0)}


def isnum(t):
    return is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


class Sense:
    """+1 larger is better, -1 smaller is better, None unknown"""

    def __init__(self, I=None):
        self.I, self.memo, self.busy = I, {}, set()

    def of(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy or d > 40:
            return None
        self.busy.add(t)
        r = self.memo[t] = self._of(t, d + 1)
        self.busy.discard(t)
        return r

    def both(self, xs, d):
        s = {self.of(x, d) for x in xs}
        return s.pop() if len(s) == 1 else None

    def acq(self, t):
        if t.k != "call":
            return False
        n = t.a[0]
        if n in ("AbstractAcqFcn.__call__",) or n.endswith("._compute_acquisition_function"):
            return True
        return n == "?call" and bool(t.a[1]) and contains(t.a[1][0], lambda x: x.k == "call" and x.a[0].endswith("string_to_acq") or x is const("search_acq_fcn")) \
            and len(t.a[1]) + len(t.a[2]) >= 5

    def _of(self, t, d):
        k = t.k
        if k == "sym":
            return NAMES.get(t.a[0])
        if k == "attr":
            return NAMES.get(t.a[1])
        if k == "idx":
            b, key = t.a
            if is_const(key) and isinstance(cval(key), str):
                return NAMES.get(cval(key))
            if b.k == "slice" or b.k == "idx" and b.a[1].k == "slice" and is_const(key):
                b = b.a[0]
            if b.k == "call":
                r = RESULT.get(b.a[0])
                if r is not None:
                    return r.get(cval(key) if is_const(key) else None, r.get(None) if not is_const(key) else None)
                if b.a[0].split(".")[-1] in ("pdf", "log_pdf"):
                    g = self.grad(b)
                    return (1 if is_const(key) and cval(key) == 0 else None) if g else 1
                if b.a[0].endswith(".predict"):
                    return 1 if key is const(0) else None
            if b.k == "tup" and is_const(key) and isinstance(cval(key), int) and -len(b.a) <= cval(key) < len(b.a):
                return self.of(b.a[cval(key)], d)
            return self.of(b, d)
        if k == "havoc" or k == "loop" and len(t.a) > 3:
            n = t.a[-2] if k == "havoc" else t.a[2]
            n = n.strip("[]") if isinstance(n, str) else None
            return NAMES.get(n)
        if k == "loop":
            alts = [x for x in (self.I.phi_alts.get(t, ()) if self.I else ()) if not self.blank(x)]
            return self.both(alts, d) if alts else None
        if k == "phi":
            xs = [x for x in t.a[2] if not self.blank(x)]
            return self.both(xs, d) if xs else None
        if k == "upd":
            xs = [x for x in (t.a[2],) if not isnum(x) and not (x.k == "mod")]
            if self.blank(t.a[0]) or t.a[0].k == "loop":
                return self.both(xs, d) if xs else None
            s = self.of(t.a[0], d)
            return s if all(self.of(x, d) in (s, None) for x in xs) else None
        if k == "neg":
            s = self.of(t.a[0], d)
            return -s if s else None
        if k == "add":
            return self.lin([(x, 1) for x in t.a], d)
        if k == "bin" and t.a[0] == "-":
            return self.lin([(t.a[1], 1), (t.a[2], -1)], d)
        if k == "mul":
            sg, ss = 1, []
            for x in t.a:
                if isnum(x):
                    sg *= 1 if cval(x) >= 0 else -1
                elif x.k == "neg":
                    sg, ss = -sg, ss + [self.of(x.a[0], d)]
                else:
                    ss.append(self.of(x, d))
            ks = {s for s in ss if s}
            if len(ks) == 1 and None not in ss:
                return ks.pop() * sg
            return ks.pop() * sg if len(ks) == 1 and len(ss) == 1 else None
        if k == "bin" and t.a[0] == "/":
            if isnum(t.a[2]):
                s = self.of(t.a[1], d)
                return s * (1 if cval(t.a[2]) > 0 else -1) if s else None
            return None
        if k == "ite":
            return self.both(branches(t), d)
        if k == "tup":
            return None
        if k == "call":
            n = t.a[0]
            if self.acq(t):
                return -1
            if n in ("np.negative",) and t.a[1]:
                s = self.of(t.a[1][0], d)
                return -s if s else None
            if n in RESULT:
                return RESULT[n].get(None)
            if n.split(".")[-1] in ("pdf", "log_pdf") and n.split(".")[0] in ("VariationalPosterior", "?", "Prior") or n.split(".")[-1] == "_log_pdf":
                return None if self.grad(t) else 1
            if n.split(".")[-1] == "_sq_dist":
                return -1
            if n in ("np.append", "np.concatenate", "np.hstack", "np.vstack"):
                a = t.a[1]
                xs = a[0].a if a and a[0].k in ("tup", "lst") else a[:2]
                xs = [x for x in xs if not self.blank(x)]
                return self.both(xs, d) if xs else None
            if n in KEEP and t.a[1]:
                return self.of(t.a[1][0], d)
        return None

    def lin(self, xs, d):
        xs = [y for x, sg in xs for y in ([(z, sg) for z in x.a] if x.k == "add" else [(x, sg)])]
        ss = []
        for x, sg in xs:
            if isnum(x):
                continue
            s = self.of(x, d)
            if s:
                ss.append(s * sg)
        return ss[0] if ss and len(set(ss)) == 1 else None

    def blank(self, x):
        if x.k == "call" and x.a[0] in ("np.zeros", "np.full", "np.empty", "np.ones", "dict", "list", "np.zeros_like", "np.full_like"):
            return True
        return x.k in ("lst", "tup", "dct") and not x.a or isnum(x) or x.k == "mod"

    def grad(self, c):
        """does this pdf call return (density, gradient)?"""
        for n, v in c.a[2]:
            if n == "grad_flag":
                return v is not FALSE
        return len(c.a[1]) > 4 and c.a[1][4] is not FALSE


def branches(t, facts=None):
    """reachable alternatives of nested choices on the same condition"""
    if t.k != "ite":
        return [t]
    facts = facts or {}
    c, pol = t.a[0], True
    while c.k in ("not", "inv"):
        c, pol = c.a[0], not pol
    out = []
    for v, x in ((True, t.a[1]), (False, t.a[2])):
        if facts.get(c, v == pol) == (v == pol):
            out += branches(x, {**facts, c: v == pol})
    return out


def order_of(t):
    """(values, reversed) of a sorting permutation"""
    rev = False
    while True:
        if t.k == "idx" and t.a[1].k == "slice" and t.a[1].a[2] is const(-1) and t.a[1].a[0] is NONE and t.a[1].a[1] is NONE:
            t, rev = t.a[0], not rev
        elif t.k == "call" and t.a[0] in ("np.flip", "np.flipud") and t.a[1]:
            t, rev = t.a[1][0], not rev
        elif t.k == "call" and t.a[0] in ("np.asarray", "np.array", "np.copy", "np.ravel", "np.squeeze", "list", "np.astype", "np.flatten") and t.a[1]:
            t = t.a[1][0]
        else:
            break
    if t.k == "call" and t.a[0] == "np.argsort" and t.a[1]:
        return t.a[1][0], rev
    return None


def end_of(k):
    """'first' / 'last' for an index into a sorted sequence; a slice with its bounds"""
    if isnum(k) and isinstance(cval(k), int):
        return "first" if cval(k) == 0 else "last" if cval(k) == -1 else None
    if k.k == "slice" and k.a[2] in (NONE, const(1)):
        lo, hi = k.a[0], k.a[1]
        if (lo is NONE or lo is const(0)) and hi is not NONE and hi.k != "neg" and not (isnum(hi) and cval(hi) < 0):
            return "first"
        if hi is NONE and (lo.k == "neg" or isnum(lo) and cval(lo) < 0):
            return "last"
    if k.k == "idx" and end_of(k.a[1]) == "first" and counts(k.a[0]) or counts(k):
        return "first"
    return None


def counts(t):
    """0, 1, 2, ... (possibly repeated)"""
    if t.k == "call" and t.a[0] in ("np.tile", "np.resize", "np.repeat", "np.asarray", "np.array", "list", "tuple") and t.a[1]:
        return counts(t.a[1][0])
    if t.k == "bin" and t.a[0] == "%":
        return counts(t.a[1])
    return t.k == "call" and t.a[0] in ("range", "np.arange") and (len(t.a[1]) == 1 or len(t.a[1]) == 2 and t.a[1][0] is const(0))


class Rows:
    """row identity of arrays: which candidates, in which order"""

    def __init__(self, S):
        self.S = S

    def of(self, t, d=0):
        if d > 30:
            return t
        k = t.k
        if k == "call":
            n, a = t.a[0], t.a[1]
            if n.endswith("._real2int") and a:
                return self.of(a[0] if not (a[0].k == "sym" and a[0].a[0] == "self") else a[1], d + 1)
            if n.split(".")[-1] in ("inverse", "__call__") and n.startswith("ParameterTransformer") and len(a) > 1:
                return self.of(a[1], d + 1)
            if self.S.acq(t) and len(a) > 1:
                return self.of(a[1], d + 1)
            if n in ("VariationalPosterior.pdf", "VariationalPosterior.log_pdf") and len(a) > 1:
                return self.of(a[1], d + 1)
            if n in SAME_ROWS and a:
                return self.of(a[0], d + 1)
            return t
        if k == "neg":
            return self.of(t.a[0], d + 1)
        if k in ("add", "mul"):
            xs = [x for x in t.a if not isnum(x)]
            return self.of(xs[0], d + 1) if len(xs) == 1 else t
        if k == "idx":
            b, key = t.a
            if is_const(key) and isinstance(cval(key), int) and b.k == "call" and b.a[0] not in SAME_ROWS:
                if self.S.acq(b) or b.a[0].split(".")[-1] in ("pdf", "log_pdf"):
                    return self.of(b, d + 1)
                return b                      # column of a multi-valued result
            if key.k == "slice" and all(x is NONE for x in key.a):
                return self.of(b, d + 1)
            return t
        if k == "ite":
            a, b = self.of(t.a[1], d + 1), self.of(t.a[2], d + 1)
            return a if a is b else t
        if k == "phi":
            us = [x for x in t.a[2] if x.k == "upd"]
            if len(us) == 1 and us[0].a[0].k == "loop":
                key, v = us[0].a[1], us[0].a[2]
                src = loop_source(key, v)
                return self.of(src, d + 1) if src is not None else t
        return t


def loop_source(key, v):
    """A when v is computed from A[i] and stored at i (enumerate or index loops)"""
    if key.k == "tup" and key.a and all(x.k == "slice" for x in key.a[1:]):
        key = key.a[0]
    if key.k == "idx" and key.a[1] is const(0) and key.a[0].k == "elem":
        e = key.a[0]
        it = e.a[0]
        if it.k == "call" and it.a[0] == "enumerate" and it.a[1] and contains(v, lambda x: x.k == "idx" and x.a[0] is e and x.a[1] is const(1)):
            return it.a[1][0]
    if key.k == "elem" and key.a[0].k == "call" and key.a[0].a[0] == "range":
        xs = [x.a[0] for x in subterms(v) if x.k == "idx" and x.a[1] is key]
        if len(set(xs)) == 1:
            return xs[0]
    return None


def derived(a, b, R):
    """a is b with rows removed or reordered"""
    t = a
    for _ in range(12):
        t = R.of(t)
        if t is b or strip(t) is strip(b):
            return True
        if t.k == "idx" and not is_const(t.a[1]) and t.a[1].k in ("slice", "cmp", "call", "inv", "phi", "ite", "idx"):
            t = t.a[0]
        elif t.k == "call" and t.a[0] in NEW_ROWS and t.a[1]:
            t = t.a[1][0]
        elif t.k == "call" and (t.a[0] in SAME_ROWS or t.a[0].endswith("_real2int")) and t.a[1]:
            t = t.a[1][0]
        else:
            return False
    return False


def word(s):
    return "larger" if s > 0 else "smaller"


def run(p, rep):
    rep.rule("sense", "argmin is applied to values that are better when smaller, argmax to values that are better when larger; the end of a sorted sequence that is taken is the best one")
    rep.rule("own-value", "the values that decide belong, row by row, to the candidates indexed")
    rep.rule("objective", "a minimized objective is better when smaller, and its gradient has the same sign")
    rep.rule("replace", "a candidate is replaced by an optimized one only if that one's own value is better than the candidate's own value")
    rep.rule("keep", "of two posteriors, each compared by its own value, the better one is kept")
    rep.rule("starts", "starting solutions are tried best first, each once, values and kinds reordered together")
    rep.rule("acquisition", "acquisition values are smaller where uncertainty, density or expected target is larger, and penalties and bounds only make them larger")
    rep.rule("pairs", "an optimizer's trace pairs each point with that point's own value")
    n_arg = n_obj = 0
    for g, I, log in sweep(p):
        if g.mod.name.split(".")[-1] == "formatting":
            continue
        S = Sense(I)
        R = Rows(S)
        for e in log:
            if e.kind == "call" and e.sig[0] in ("np.argmin", "np.argmax", "np.nanargmin", "np.nanargmax") and e.sig[1]:
                s = S.of(e.sig[1][0])
                if s is None:
                    rep.notes.append(f"{g.qual}: orientation of {show(e.sig[1][0], 4)[:70]} unknown")
                    continue
                n_arg += 1
                want = -1 if "min" in e.sig[0] else 1
                rep.check(s == want, "sense", f"{e.sig[0].replace('nan', '')} of {label(e.sig[1][0])}", e.where,
                          f"{e.sig[0]} is taken of values that are better when {word(s)}: the worst is chosen")
            if e.kind == "getidx":
                b, k = e.sig[0], e.sig[1]
                o = order_of(b)
                end = end_of(k)
                if o and end:
                    s = S.of(o[0])
                    if s is not None:
                        n_arg += 1
                        first_best = (s < 0) != o[1]
                        rep.check(first_best == (end == "first"), "sense", f"end of the sorted {label(o[0])}", e.where,
                                  f"the {end} of a sequence sorted {'descending' if o[1] else 'ascending'} by values that are better when {word(s)} are taken: the worst")
                own(R, e, b, k, rep)
            if e.kind == "call" and e.sig[0] in OBJECTIVE:
                n_obj += objective(p, I, e, rep, g)
        if g.qual == "active_sample.active_sample":
            replace(p, S, R, I, log, rep, g)
            keep(p, g, rep)
        if g.qual == "variational_optimization._sieve":
            sieve(p, S, I, g, rep)
        if g.qual == "variational_optimization.optimize_vp":
            starts(p, S, I, log, rep, g)
    rep.at_least("choices with a known orientation", n_arg, 4)
    rep.count("minimized objectives", n_obj)
    acquisition(p, rep)
    pairs(p, rep)


def label(t):
    """stable description of the values compared, without local names"""
    for x in subterms(t):
        if x.k == "idx" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str) and cval(x.a[1]) in NAMES:
            return cval(x.a[1])
        if x.k == "havoc" and isinstance(x.a[-2], str) and x.a[-2].strip("[]") in NAMES:
            return x.a[-2].strip("[]")
        if x.k == "call" and x.a[0] in RESULT:
            return "result of " + x.a[0].split(".")[-1]
        if x.k == "call" and x.a[0].split(".")[-1] in ("pdf", "_sq_dist"):
            return x.a[0].split(".")[-1]
        if x.k == "call" and x.a[0] == "?call":
            return "acquisition"
        if x.k == "attr" and x.a[1] in NAMES or x.k == "sym" and x.a[0] in NAMES:
            return x.a[-1]
    return "values"


def best_index(k):
    """values v when k is argmin(v)/argmax(v)/first or last of argsort(v), looking through rows, lists and choices"""
    if k.k in ("tup", "lst") and k.a:
        xs = [x for x in k.a if x.k != "slice"]
        return best_index(xs[0]) if len(xs) == 1 else []
    if k.k == "ite":
        return best_index(k.a[1]) + best_index(k.a[2])
    if k.k == "call" and k.a[0] in ("int", "np.asarray", "np.array") and k.a[1]:
        return best_index(k.a[1][0])
    if k.k == "call" and k.a[0] in ("np.argmin", "np.argmax", "np.nanargmin", "np.nanargmax") and k.a[1] and len(k.a[1]) == 1 and not any(n == "axis" for n, v in k.a[2]):
        return [k.a[1][0]]
    if k.k == "idx":
        o = order_of(k.a[0])
        if o and end_of(k.a[1]):
            return [o[0]]
    o = order_of(k)
    return [o[0]] if o else []


def own(R, e, b, k, rep):
    for v in best_index(k):
        if b is v:
            continue
        fb, fv = filled(b), filled(v)
        if fb and fv and fb[0] == fv[0]:
            ok = strip(fb[1]) is strip(fv[1]) and (optimizer_calls(fb[2]) == optimizer_calls(fv[2]) or not optimizer_calls(fb[2]) or not optimizer_calls(fv[2]))
            rep.check(ok, "own-value", "results of the starts", e.where, "points and values of the starts are not stored together")
            continue
        rb, rv = R.of(b), R.of(v)
        if rb is rv or strip(rb) is strip(rv):
            rep.ok("own-value", "candidates of " + label(v), e.where)
        elif derived(rv, rb, R) or derived(rb, rv, R):
            rep.bad("own-value", "candidates of " + label(v), e.where,
                    f"the candidate is indexed by values computed for other rows: {show(rv, 4)[:70]} against {show(rb, 4)[:70]}")


def filled(t):
    """(loop, index, value) of an array filled in a loop"""
    t = unshape(t)
    if t.k == "phi":
        us = [x for x in t.a[2] if x.k == "upd"]
        if len(us) == 1 and us[0].a[0].k == "loop":
            k = us[0].a[1]
            if k.k == "tup":
                ks = [x for x in k.a if x.k != "slice" and x is not const(0)]
                k = ks[0] if len(ks) == 1 else k
            return us[0].a[0].a[0], k, us[0].a[2]
    return None


# ---------------------------------------------------------------- objectives

def closure_values(I, fn):
    if fn not in I.closures:
        return []
    f, env, fr = I.closures[fn][:3]
    J = Interp(I.p, Config(collect=True))
    try:
        outs = J.run(f, closure_env=dict(env), selfcls=fr.selfcls)
    except Exception:
        return []
    return [(v, J) for s, c, v in outs if v is not None and c in (None, "return")] or [(v, J) for s, c, v in outs if isinstance(v, T)]


def objective(p, I, e, rep, g):
    name, pos = OBJECTIVE[e.sig[0]]
    kw = dict(e.sig[2])
    f = kw.get(name) or (e.sig[1][pos] if len(e.sig[1]) > pos else None)
    if f is None or f.k != "fn":
        rep.notes.append(f"{g.qual}: objective of {e.sig[0]} not resolved")
        return 0
    n = 0
    for v, J in closure_values(I, f):
        S = Sense(J)
        todo = [v]
        while todo:
            x = todo.pop()
            if x.k == "ite":
                todo += list(x.a[1:])
                continue
            val = x.a[0] if x.k == "tup" and x.a else x
            if val.k == "call" and val.a[0] == "np.item" and val.a[1]:
                val = val.a[1][0]
            s = S.of(val)
            if s is None:
                rep.notes.append(f"{g.qual}: orientation of the objective {show(val, 4)[:60]} unknown")
                continue
            n += 1
            rep.check(s < 0, "objective", f"objective of {e.sig[0]} ({label(val)})", e.where, "the objective that is minimized is better when larger")
            if x.k == "tup" and len(x.a) == 2:
                (c0, s0), (c1, s1) = component(x.a[0]), component(x.a[1])
                if c0 is not None and c1 is not None and c0[0] is c1[0]:
                    rep.check(s0 == s1 and c0[1] != c1[1], "objective", f"gradient of the objective ({label(val)})", e.where,
                              "value and gradient of the objective do not belong together (sign or component)")
    return n


def component(t):
    sg = 1
    while t.k == "neg":
        t, sg = t.a[0], -sg
    if t.k == "idx" and is_const(t.a[1]):
        return (strip(t.a[0]), cval(t.a[1])), sg
    return None, sg


# ---------------------------------------------------------------- replacement by an optimized candidate

def optimizer_calls(t):
    return {strip(x) for x in subterms(t) if x.k == "call" and x.a[0] in OBJECTIVE}


def conds_of(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.k in ("and",):
            st += list(x.a)
        else:
            out.append(x)
    return out


def replace(p, S, R, I, log, rep, g):
    """the point handed to the target function"""
    n = 0
    for e in log:
        if e.kind != "call" or e.sig[0] not in ("FunctionLogger.__call__", "FunctionLogger.add") or len(e.sig[1]) < 2:
            continue
        x = e.sig[1][1]
        if not optimizer_calls(x):
            continue
        for t in subterms(x):
            if t.k == "upd" and optimizer_calls(t.a[2]) and not optimizer_calls_rows(t.a[0]):
                ite = next((y for y in subterms(x) if y.k == "ite" and (y.a[1] is t or y.a[2] is t)), None)
                n += check_replace(S, R, ite, t.a[0], t.a[2], e, rep)
        for y in subterms(x):
            if y.k == "ite" and not any(z.k == "upd" and z in (y.a[1], y.a[2]) for z in (y.a[1], y.a[2])):
                a, b = point_of(y.a[1]), point_of(y.a[2])
                if (a is None) != (b is None):
                    n += check_replace(S, R, y, y.a[2] if a is not None else y.a[1], y.a[1] if a is not None else y.a[2], e, rep, a is not None)
    for e in log:
        if e.kind == "call" and e.sig[0] == "FunctionLogger.add" and len(e.sig[1]) > 2 and optimizer_calls(e.sig[1][1]):
            known(S, e.sig[1][1], e.sig[1][2], e, rep)
        if e.kind == "setidx" and len(e.sig) > 2 and e.sig[1] is const("search_cache"):
            v = e.sig[2]
            o = order_of(v.a[1]) if v.k == "idx" else None
            if o:
                sn = S.of(o[0])
                if sn is not None:
                    rep.check((sn < 0) != o[1], "sense", "order of the kept candidates", e.where, "the candidates kept for the next search are sorted worst first")
            elif R.of(v) is v and v.k == "call" and v.a[0].endswith("._real2int") or v.k == "call" and v.a[0].endswith("._get_search_points") or \
                    v.k == "call" and v.a[0].endswith("._real2int"):
                rep.bad("sense", "order of the kept candidates", e.where, "the candidates kept for the next search, of which the first are used, are not sorted by their acquisition value")
    if not n:
        rep.notes.append("no replacement of a candidate by an optimized one recognised")
    rep.count("replacements", n)


def keep(p, g, rep):
    """a posterior returned is the better of two, each judged by its own value"""
    I = Interp(p, Config(collect=True))
    seen = set()
    for s, c, v in I.run(g):
        if c != "return" or not isinstance(v, T):
            continue
        S = Sense(I)
        for y in subterms(v):
            if y.k != "ite" or y in seen:
                continue
            seen.add(y)
            c, a, b = y.a
            while c.k in ("not", "inv"):
                c, a, b = c.a[0], b, a
            if c.k != "cmp" or c.a[0] not in ("lt", "le") or any(is_value(z) for z in c.a[1:]):
                continue
            lo, hi = c.a[1:]
            sl, sh = S.of(lo), S.of(hi)
            if sl is None and sh is None:
                continue
            *sides, a, b = [rewrite(z, lambda t: sym("<size>") if t.k in ("attr", "havoc") and t.a[1] in ("K", "D") else None) for z in (lo, hi, a, b)]
            ina, inb = [contains(z, lambda t: t is a) for z in sides], [contains(z, lambda t: t is b) for z in sides]
            own = [i for i in (0, 1) if ina[i] and not ina[1 - i] and inb[1 - i]] or [i for i in (0, 1) if inb[1 - i] and not inb[i] and ina[i]]
            if len(own) != 1:
                if not any(ina) and not any(inb):
                    continue
                if sl and sh and (all(ina) and not any(inb) or all(inb) and not any(ina)):
                    rep.bad("keep", "posterior kept", g.where, "of two posteriors compared, one is not judged by its own value")
                else:
                    rep.notes.append("posterior kept: " + show(c, 4)[:80])
                continue
            if sl is None or sh is None or sl != sh:
                if sl and sh:
                    rep.bad("keep", "posterior kept", g.where, "two posteriors are compared by values of opposite orientation")
                else:
                    rep.notes.append("posterior kept: " + show(c, 4)[:80])
                continue
            rep.check((own[0] == 1) == (sl > 0), "keep", "posterior kept", g.where, "of two posteriors the one with the worse value is kept")


def known(S, x, y, e, rep):
    """the recorded value handed over with a point that may have been replaced"""
    C = "recorded value of a cached candidate"
    sels = [t for t in subterms(x) if t.k == "idx" and best_index(t.a[1]) and t.a[0].k != "tup" and not S.acq(t.a[0])]
    want = {strip(z) for t in sels for z in ([t.a[1]] + (list(t.a[1].a) if t.a[1].k in ("lst", "tup") else []))}
    cache = [t for t in subterms(y) if t.k == "idx" and t.a[0].k == "idx" and t.a[0].a[1] is const(1) and t.a[0].a[0].k == "call" and t.a[0].a[0].a[0].endswith("._get_search_points")]
    if not cache or not want:
        rep.notes.append("recorded value of a cached candidate: " + show(y, 4)[:80])
        return
    for t in cache:
        rep.check(strip(t.a[1]) in want, "own-value", C, e.where, "the recorded value handed over is that of another candidate")
    conds = {strip(t.a[0]) for t in subterms(x) if t.k == "ite" and (optimizer_calls(t.a[1]) - optimizer_calls(t.a[2]) or optimizer_calls(t.a[2]) - optimizer_calls(t.a[1]))
             and t.a[0].k == "cmp" and optimizer_calls(t.a[0])}
    if not conds:
        return
    dropped = {strip(t.a[0]) for t in subterms(y) if t.k == "ite" and any(b.k == "mod" and b.a[0].endswith("nan") or b.k == "call" and "nan" in str(b.a[1][:1]) for b in t.a[1:])}
    if conds & dropped:
        rep.ok("own-value", C, e.where)
    elif not contains(y, lambda t: t.k == "ite" and bool(optimizer_calls(t.a[0]))):
        rep.bad("own-value", C, e.where, "a cached candidate that was replaced by an optimized point keeps the cached point's recorded value")
    else:
        rep.notes.append("recorded value of a cached candidate: " + show(y, 4)[:80])


def point_of(t):
    """optimizer call whose point (not value) this is, through integer rounding and shapes"""
    while True:
        if t.k == "call" and (t.a[0].endswith("._real2int") or t.a[0] in SAME_ROWS or t.a[0] in ("np.reshape",)) and t.a[1]:
            t = t.a[1][0]
        elif t.k == "ite":
            a, b = point_of(t.a[1]), point_of(t.a[2])
            return a or b if a and b else None
        elif t.k == "attr" and t.a[1] == "x":
            t = t.a[0]
            return t if t.k == "call" and t.a[0] in OBJECTIVE else None
        elif t.k == "idx" and t.a[1] is const(0):
            b = t.a[0]
            b = b.a[0] if b.k == "idx" and b.a[1].k == "slice" else b
            return b if b.k == "call" and b.a[0] in OBJECTIVE else None
        else:
            return None


def optimizer_calls_rows(t):
    return any(y.k == "call" and y.a[0] in OBJECTIVE for y in subterms(t)) and point_of(t) is not None


def check_replace(S, R, ite, old, new, e, rep, when=None):
    C = "optimized candidate"
    if ite is None:
        rep.bad("replace", C, e.where, "the optimized point replaces the best candidate whatever its value")
        return 1
    taken = (ite.a[1] is new or contains(ite.a[1], lambda z: z is new)) if when is None else when
    c = ite.a[0]
    while c.k in ("not", "inv"):
        c, taken = c.a[0], not taken
    if c.k in ("and", "or"):
        cs = [x for x in c.a if x.k == "cmp" and optimizer_calls(x)]
        if c.k == "or" and taken or c.k == "and" and not taken:
            rep.notes.append("replacement guarded by " + show(c, 4)[:80])
            return 0
        c = cs[0] if cs else c
    if c.k != "cmp" or c.a[0] not in ("lt", "le"):
        if contains(c, lambda z: z.k == "cmp" and z.a[0] in ("lt", "le") and optimizer_calls(z)):
            rep.notes.append("replacement guarded by " + show(c, 4)[:80])
            return 0
        if c.k == "cmp" and not optimizer_calls(c):
            return 0          # another choice (e.g. of the optimizer)
        rep.bad("replace", C, e.where, "the optimized point replaces the best candidate without comparing their values")
        return 1
    lo, hi = c.a[1], c.a[2]
    oc = [bool(optimizer_calls(x) - optimizer_calls(old)) for x in (lo, hi)]
    own = [is_value(x) for x in (lo, hi)]
    if own == [True, True] or own == [False, False]:
        if own == [False, False]:
            rep.notes.append("replacement guarded by " + show(c, 4)[:80])
            return 0
    newlo = own[0]
    s = S.of(lo), S.of(hi)
    good = newlo == taken
    rep.check(good, "replace", C, e.where, "the optimized point is taken when its acquisition value is worse")
    other = hi if newlo else lo
    o = other
    while o.k == "call" and o.a[0] in ("float", "np.item") and o.a[1]:
        o = o.a[1][0]
    sel = [x for x in subterms(old) if x.k == "idx" and best_index(x.a[1])]
    if sel and o.k == "idx" and S.acq(o.a[0]):
        want = {strip(y) for x in sel for y in ([x.a[1]] + (list(x.a[1].a) if x.a[1].k in ("lst", "tup") else []))}
        k = strip(o.a[1])
        rep.check(k in want, "replace", "value of the candidate replaced", e.where,
                  f"the optimized value is compared with that of another candidate: {show(o.a[1], 4)[:60]}")
    return 1


def is_value(t):
    """value reported by an optimizer"""
    if t.k == "ite":
        return is_value(t.a[1]) and is_value(t.a[2]) if t.k == "ite" else False
    if t.k == "attr" and t.a[1] == "fun":
        return t.a[0].k == "call" and t.a[0].a[0] in OBJECTIVE
    if t.k == "idx" and t.a[1] is const(1):
        b = t.a[0]
        b = b.a[0] if b.k == "idx" and b.a[1].k == "slice" else b
        return b.k == "call" and b.a[0] in OBJECTIVE
    return False


# ---------------------------------------------------------------- starting solutions

def sieve(p, S, I, g, rep):
    outs = Interp(p, Config(collect=True)).run(g)
    n = 0
    for s, c, v in outs:
        if not isinstance(v, T):
            continue
        alts = [v]
        while alts:
            t = alts.pop()
            if t.k == "ite":
                alts += list(t.a[1:])
                continue
            if t.k != "tup" or len(t.a) < 2:
                continue
            a, b = t.a[0], t.a[1]
            oa = order_of(a.a[1]) if a.k == "idx" else None
            ob = order_of(b.a[1]) if b.k == "idx" else None
            if oa is None and ob is None:
                if all(made(x) for x in branches(a)):
                    n += 1
                    rep.bad("starts", "order of the starting solutions", g.where, "the starting solutions are not sorted by their ELBO")
                continue
            n += 1
            rep.check(oa is not None and ob is not None and strip(a.a[1]) is strip(b.a[1]), "starts", "solutions and kinds reordered together", g.where,
                      "the starting solutions and their kinds are not reordered by the same permutation")
            o = oa or ob
            sn = S_(I, o[0])
            if sn is not None:
                rep.check((sn < 0) != o[1], "starts", "order of the starting solutions", g.where, "the starting solutions are sorted worst first")
            else:
                rep.notes.append("order of the starting solutions by " + show(o[0], 4)[:60])
    rep.count("sorted starting solutions", n)


def made(t):
    """starting solutions as they were generated"""
    if t.k == "call" and t.a[0] in ("np.concatenate", "np.hstack", "np.append"):
        xs = t.a[1][0].a if t.a[1] and t.a[1][0].k in ("lst", "tup") else t.a[1]
        return bool(xs) and all(made(x) for x in xs)
    return t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0].endswith("._vb_init")


def S_(I, t):
    return Sense(I).of(t)


def pool(x):
    """an array carried by the loop, or a result of the first evaluation left as it is"""
    return x.k == "loop" or x.k == "idx" and is_const(x.a[1]) and x.a[0].k == "call" and x.a[0].a[0].endswith("._sieve")


def starts(p, S, I, log, rep, g):
    """the selection of the next start inside the optimization loop"""
    base = []
    for e in log:
        if e.kind == "getidx":
            b, k = e.sig[0], e.sig[1]
            # first of a kind
            if b.k == "idx" and b.a[1] is const(0) and b.a[0].k == "call" and b.a[0].a[0] in ("np.where", "np.nonzero") or b.k == "call" and b.a[0] in ("np.flatnonzero",):
                w = b.a[0] if b.k == "idx" else b
                if e.loops and contains(w, pool) and isnum(k):
                    rep.check(cval(k) == 0, "starts", "best start of its kind", e.where, "not the best starting solution of its kind is optimized")
                    for c in subterms(w):
                        if c.k == "cmp" and c.a[0] == "eq":
                            for x in c.a[1:]:
                                if pool(x):
                                    base.append((x, e))
    kinds = {x for x, e in base}
    picks = {e.sig[0]: (e, e.sig[1]) for e in log if e.kind == "getidx" and e.loops and pool(e.sig[0]) and e.sig[0] not in kinds
             and contains(e.sig[1], lambda x: x.k == "call" and x.a[0] in ("np.where", "np.flatnonzero", "np.nonzero"))}
    if not kinds or not picks:
        rep.notes.append("selection of starting solutions not recognised")
        return
    dels = {}
    for e in log:
        if e.kind == "call" and e.sig[0] == "np.delete" and len(e.sig[1]) > 1 and pool(e.sig[1][0]):
            dels.setdefault(e.sig[1][0], set()).add(strip(e.sig[1][1]))
    for v, (e, k) in picks.items():
        if not dels.get(v) and not any(dels.get(x) for x in kinds):
            other = any(x.kind == "call" and x.sig[0].split(".")[-1] in ("pop", "remove", "setdiff1d") or x.kind == "delidx" or x.kind == "setidx" and x.sig[0] in kinds | {v} for x in log)
            if other:
                rep.notes.append("starting solutions removed in another way")
            else:
                rep.bad("starts", "each start tried once", e.where, "the same starting solution is optimized again and again")
            continue
        rep.check(bool(dels.get(v)) and all(dels.get(x) == dels.get(v) for x in kinds), "starts", "each start tried once", e.where,
                  "a starting solution that was tried and its kind are not removed together")
        if dels.get(v):
            rep.check(strip(k) in dels[v], "starts", "start removed", e.where, "another starting solution than the one tried is removed")


# ---------------------------------------------------------------- acquisition

def acquisition(p, rep):
    n = 0
    for q, f in p.functions.items():
        if f.node.name != "_compute_acquisition_function" or not f.cls:
            continue
        I = Interp(p, Config(collect=True))
        for s, c, v in I.run(f, selfcls=f.cls if isinstance(f.cls, str) else getattr(f.cls, "name", None)):
            if not isinstance(v, T):
                continue
            N = Norm()
            try:
                d = N.poly(strip(unshape(v)))
            except Exception:
                continue
            got = orient(d)
            if got is None:
                continue
            n += 1
            rep.check(got == -1, "acquisition", f"acquisition of {q.split('.')[-2]}", f.where, "acquisition values are larger where the expected target, its uncertainty or the density is larger")
    f = p.func("AbstractAcqFcn.__call__")
    if f is None:
        return
    m = 0
    for g, I, log in sweep(p):
        if g is not f:
            continue
        for e in log:
            if e.kind == "call" and e.sig[0] in ("np.minimum", "np.fmin", "min") and len(e.sig[1]) == 2:
                xs = [contains(x, is_acq) for x in e.sig[1]]
                if xs.count(True) == 1:
                    o = e.sig[1][1 if xs[0] else 0]
                    rep.check(not (o.k == "neg" or isnum(o) and cval(o) < 0), "acquisition", "limit of acquisition values", e.where,
                              "acquisition values are cut from above at a negative limit: all candidates look alike")
            if e.kind == "call" and e.sig[0].endswith("._compute_acquisition_function"):
                moments(e, rep, p)
            if e.kind != "setidx" or len(e.sig) < 3:
                continue
            b, k, v = e.sig[0], e.sig[1], e.sig[2]
            if not contains(b, lambda x: x.k == "call" and x.a[0].endswith("_compute_acquisition_function")):
                continue
            if v.k == "mod" and v.a[0] in ("numpy.inf", "math.inf") or v.k == "neg" and v.a[0].k == "mod" or is_const(v) and cval(v) in (float("inf"), -float("inf")):
                m += 1
                low = v.k == "neg" or is_const(v) and cval(v) < 0
                rep.check(not low, "acquisition", "value outside the bounds", e.where, "points outside the hard bounds get the best acquisition value")
                continue
            if contains(v, lambda x: x is const("tol_gp_var")):
                m += penalty(e, b, k, v, rep)
    rep.count("acquisition functions with a known orientation", n)
    rep.count("acquisition penalties", m)


def is_acq(x):
    return x.k == "call" and x.a[0].endswith("._compute_acquisition_function")


def moments(e, rep, p):
    """mean and total variance handed to the acquisition function"""
    f = p.functions.get("AbstractAcqFcn._compute_acquisition_function") or p.func("AbstractAcqFcn._compute_acquisition_function")
    if f is None:
        return
    ar = bind(p, f.qual, e.sig[1], e.sig[2])
    pred = lambda i: lambda x: x.k == "idx" and x.a[1] is const(i) and x.a[0].k == "call" and x.a[0].a[0].endswith("predict")
    fb, vt = ar.get("f_bar"), ar.get("var_tot")
    whole = vt
    fb, vt = (rewrite(t, lambda x: sym("<size>") if x.k == "attr" and x.a[1] in ("shape", "size", "ndim") else None) if t is not None else None for t in (fb, vt))
    if fb is not None and contains(fb, lambda x: x.k == "call" and x.a[0].endswith("predict")):
        rep.check(contains(fb, pred(0)), "acquisition", "expected target", e.where, "the expected target handed to the acquisition function is not the surrogate's mean")
    if vt is not None and contains(vt, lambda x: x.k == "call" and x.a[0].endswith("predict")):
        rep.check(contains(vt, pred(1)) and contains(vt, pred(0)), "acquisition", "total variance", e.where,
                  "the variance handed to the acquisition function is not the mean variance plus the variance of the means over the surrogate's samples")
        N = Norm()
        d = N.poly(strip(unshape(whole)))
        neg = [c for m, c in d.items() if c < 0 and any(contains_call(a) for a, x in m)]
        if len(d) > 1:
            rep.check(not neg, "acquisition", "total variance", e.where, "a part of the variance is subtracted")


def contains_call(a):
    return contains(a, lambda x: x.k == "call" and x.a[0].endswith("predict")) if a.k != "poly" else False


UP = ("f_bar", "var_tot", "f_mu", "f_s2")


def orient(d):
    """-1 if every recognised summand/product falls with f_bar, var_tot and the density"""
    res = set()
    for m, c in d.items():
        good = set()
        for a, e in m:
            s = updir(a)
            if s == 0:
                return 0
            if s is None:
                if not (a.k == "call" and a.a[0] in ("np.exp",)) and a.k not in ("sym", "attr"):
                    return None
                if contains_p(a, UP):
                    return None
                continue
            good.add(s if e > 0 else -s)
        if len(good) > 1:
            return 0
        if good:
            res.add(good.pop() * (1 if c > 0 else -1))
    return res.pop() if len(res) == 1 else 0 if res else None


def contains_p(t, names):
    st = [t]
    while st:
        x = st.pop()
        if x.k == "sym" and x.a[0] in names:
            return True
        if x.k == "poly":
            st += [a for m, c in x.a[0] for a, e in m]
        else:
            st += list(children(x))
    return False


def updir(a):
    if a.k == "sym" and a.a[0] in UP:
        return 1
    if a.k == "call" and a.a[0].split(".")[-1] == "pdf":
        return 1
    if a.k == "call" and a.a[0] in ("np.maximum", "np.ravel", "np.log", "np.fmax", "np.squeeze") and a.a[1]:
        xs = [updir(x) for x in a.a[1]]
        xs = [x for x in xs if x]
        return xs[0] if xs else None
    if a.k == "call" and a.a[0] == "np.exp" and a.a[1]:
        x = a.a[1][0]
        if x.k == "poly":
            ss = set()
            for m, c in x.a[0]:
                for y, e in m:
                    s = updir(y)
                    if s:
                        ss.add(s * (1 if c > 0 else -1) * (1 if e > 0 else -1))
            return ss.pop() if len(ss) == 1 else 0 if ss else None
        return updir(x)
    return None


def penalty(e, b, k, v, rep):
    C = "penalty for low uncertainty"
    mask = next((x for x in subterms(k) if x.k == "cmp" and x.a[0] in ("lt", "le") and contains(x, lambda y: y is const("tol_gp_var"))), None)
    if mask is None:
        return 0
    tol_hi = contains(mask.a[2], lambda y: y is const("tol_gp_var"))
    par = sum(1 for x in subterms(k) if x.k in ("inv", "not") and contains(x, lambda y: y is mask))
    rep.check(tol_hi != bool(par % 2), "acquisition", "points penalized", e.where, "points whose uncertainty is above, not below, the threshold are penalized")
    TOL = sym("<tol>")
    w = rewrite(strip(v), lambda x: TOL if x.k in ("idx", "call") and any(y is const("tol_gp_var") for y in (x.a[1] if x.k == "call" else (x.a[1],)))
                and (x.k == "idx" or x.a[0].endswith("get")) else None)
    N = Norm()
    d = N.poly(w)
    pen = [(m, c) for m, c in d.items() if any(a is TOL for a, x in m)]
    acq = [(m, c) for m, c in d.items() if not any(a is TOL for a, x in m) and m]
    if pen and len(pen) == 1:
        m, c = pen[0]
        ex = dict(m).get(TOL, 0)
        rep.check((c > 0) == (ex > 0), "acquisition", C, e.where, "low uncertainty lowers (improves) the acquisition value")
        return 1
    if len(d) == 1:
        (m, c), = d.items()
        exps = [a for a, x in m if a.k == "call" and a.a[0] == "np.exp"]
        if len(exps) == 1 and exps[0].a[1][0].k == "poly":
            t = [(mm, cc) for mm, cc in exps[0].a[1][0].a[0] if any(a is TOL for a, x in mm)]
            if len(t) == 1:
                ex = dict(t[0][0]).get(TOL, 0)
                x = dict(m)[exps[0]]
                rep.check((t[0][1] > 0) != ((ex > 0) == (x > 0)), "acquisition", C, e.where, "low uncertainty makes the (negative) acquisition value larger in size: a reward")
                return 1
    rep.notes.append("penalty " + show(v, 4)[:80])
    return 0


# ---------------------------------------------------------------- optimizer trace

def pairs(p, rep):
    f = p.func("minimize_adam.minimize_adam")
    if f is None:
        return
    _, I, log = next(x for x in sweep(p) if x[0] is f)
    vals, pts = [], []
    evald = []
    for i, e in enumerate(log):
        if e.kind != "setidx" or len(e.sig) < 3 or not e.loops:
            continue
        v, k = e.sig[2], e.sig[1]
        if v.k == "idx" and v.a[1] is const(0) and v.a[0].k == "call" and v.a[0].a[0] == "?call" and v.a[0].a[1] and v.a[0].a[1][0] is sym("f"):
            vals.append((i, e, k, v.a[0].a[1][1] if len(v.a[0].a[1]) > 1 else None))
        elif k.k == "tup" and any(x.k == "slice" for x in k.a):
            pts.append((i, e, next((x for x in k.a if x.k != "slice"), None), v))
    if len(vals) != 1 or len(pts) != 1:
        rep.notes.append(f"trace of the stochastic optimizer not recognised ({len(vals)} values, {len(pts)} points stored)")
        return
    (_, e1, k1, x), (_, e2, k2, y) = vals[0], pts[0]
    if k1 is None or k2 is None or x is None:
        return
    rep.check(strip(k1) is strip(k2), "pairs", "index of points and values", e2.where, "points and values of the trace are stored at different positions")
    rep.check(strip(unshape(x)) is strip(unshape(y)), "pairs", "point stored with its value", e2.where,
              f"the point stored is not the one the value was computed for ({show(y, 3)[:50]} against {show(x, 3)[:50]})")
    # the averages returned are over the same iterations
    for s, c, v in Interp(p, Config(collect=True)).run(f):
        if not isinstance(v, T) or v.k != "tup" or len(v.a) < 2:
            continue
        ws = []
        for t in v.a[:2]:
            t = next((x for x in subterms(t) if x.k == "call" and x.a[0] == "np.mean"), None)
            if t is None or not t.a[1] or t.a[1][0].k != "idx":
                break
            k = t.a[1][0].a[1]
            if k.k == "tup":
                k = next((x for x in k.a if x.k == "slice" and not all(y is NONE for y in x.a)), k)
            ws.append(strip(k))
        if len(ws) == 2:
            N = Norm()
            same = ws[0] is ws[1] or ws[0].k == ws[1].k == "slice" and all(a is b or N.poly(a) == N.poly(b) for a, b in zip(ws[0].a, ws[1].a))
            rep.check(same, "pairs", "point and value returned", f.where, "point and value returned are averages over different iterations")
