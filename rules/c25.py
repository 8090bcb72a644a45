"""C25: surrogate training data keep points, values and noise of the same rows together."""
import ast
from engine.absint import Config, Interp, State
from engine.lib import *
from engine.poly import Norm
from engine.terms import *

EXPLANATION = (
    "Row-provenance analysis: every value term derived row-wise from the recorder's arrays or from a surrogate's training arrays carries its source and the row "
    "selection applied. Values used together (arguments of one call, operands of one elementwise operation, the surrogate's X/y/s2, returned training sets) must "
    "carry the same selection; what reaches the surrogate must be restricted to active rows; noise must be the squared recorded SD; selections computed from one "
    "array may only be applied to the same rows of another.")

N = Norm()
REC = {"X": "X", "y": "y", "S": "S", "fun_eval_time": "t", "n_evals": "n", "X_orig": "Xo", "y_orig": "yo"}
GPC = {"X": "X", "y": "y", "s2": "s2"}
TRANS = {"np.transpose", "np.ravel", "np.reshape", "np.squeeze", "np.atleast_1d", "np.atleast_2d", "np.asarray", "np.array", "np.copy", "copy.copy", "copy.deepcopy", "np.astype",
         "np.ascontiguousarray", "np.flatten", "np.square", "np.sqrt", "np.abs", "np.absolute", "np.exp", "np.log", "np.negative", "np.float64"}
FULL = lambda x: x.k == "slice" and all(is_const(y) and cval(y) is None for y in x.a) or is_const(x) and cval(x) in (None, Ellipsis, "...")
ORDER = {"np.argsort", "np.argmax", "np.argmin", "np.nanargmax", "np.nanargmin", "np.argpartition", "np.where", "np.nonzero", "np.flatnonzero", "np.lexsort"}


def core(t):
    while t.k in ("loop", "havoc", "phi"):
        if t.k == "havoc":
            if len(t.a) > 2 and t.a[1] is not None and isinstance(t.a[2], T):
                return t
            return t
        if t.k == "loop" and isinstance(t.a[-1], T):
            t = t.a[-1]
            continue
        break
    return t


def base_attr(t):
    """(holder term, attribute) of an attribute read, also after an opaque call may have changed it"""
    if t.k == "attr":
        return t.a[0], t.a[1]
    if t.k == "havoc" and len(t.a) > 2 and isinstance(t.a[1], str) and isinstance(t.a[2], T):
        return t.a[2], t.a[1]
    if t.k == "loop" and len(t.a) > 1 and isinstance(t.a[-1], T):
        return None
    return None


def holder(b):
    """'rec' for the recorder, ('gp', name) for a surrogate, else None"""
    x, d = b, 0
    while d < 20:
        d += 1
        if x.k in ("loop", "havoc") and len(x.a) == 2 and isinstance(x.a[1], str):
            return name_holder(x.a[1], x)
        if x.k == "loop" and isinstance(x.a[-1], T):
            x = x.a[-1]
        elif x.k == "havoc" and len(x.a) > 2 and isinstance(x.a[2], T):
            return name_holder(str(x.a[1]), x)
        else:
            break
    if x.k == "sym":
        return name_holder(x.a[0], x)
    if x.k == "attr":
        return name_holder(x.a[1], x)
    if x.k == "call":
        n = x.a[0]
        if n == "FunctionLogger":
            return "rec"
        if n.split(".")[-1] in ("GP",):
            return ("gp", x)
        if n.split(".")[-1] == "reupdate_gp":
            return ("gp", x)
        if n in ("copy.deepcopy", "copy.copy") and x.a[1]:
            return holder(x.a[1][0])
    if x.k == "idx" and x.a[0].k == "call" and x.a[0].a[0].split(".")[-1] == "train_gp":
        return ("gp", x)
    if x.k == "ite":
        return holder(x.a[1])
    return None


def name_holder(n, x):
    if n in ("function_logger", "fl", "logger") or n.endswith("function_logger"):
        return "rec"
    if n == "gp" or n.endswith("_gp") or n.startswith("gp_") and n[3:] in ("old", "new", "tmp"):
        return ("gp", x)
    return None


def selkey(k):
    """row part of a subscript, or None when all rows are taken"""
    if k.k in ("tup", "lst") and k.k == "tup" and k.a:
        r = k.a[0]
        return None if FULL(r) else r
    return None if FULL(k) else k


class Rows:
    def __init__(self, p, log=()):
        self.p, self.memo = p, {}
        self.given = {}
        for e in log:
            if e.kind == "call" and short(e.sig[0]) == "get_hpd":
                a = bind(p, "get_hpd.get_hpd", e.sig[1], e.sig[2])
                if "X" in a and "y" in a and a["X"].k == "sym" and a["y"].k == "sym":
                    h = ("data", a["X"])
                    self.given[a["X"]] = frozenset([(h, "X", ())])
                    self.given[a["y"]] = frozenset([(h, "y", ())])

    def sig(self, t):
        """frozenset of (holder, column, selections) the rows of t come from; None if it is not row-wise data"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        self.memo[t] = r = self._sig(t)
        return r

    def _sig(self, t):
        if t in self.given:
            return self.given[t]
        b = base_attr(t)
        if b is not None:
            h = holder(b[0])
            if h == "rec" and b[1] in REC:
                return frozenset([(h, REC[b[1]], ())])
            if h is not None and h != "rec" and b[1] in GPC:
                return frozenset([(h, GPC[b[1]], ())])
            if t.k == "havoc" and len(t.a) > 2:
                return None
        if t.k == "loop" and isinstance(t.a[-1], T):
            return None
        if t.k == "idx":
            f = t.a[0]
            if f.k == "call" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
                n = f.a[0].split(".")[-1]
                i = cval(t.a[1])
                if n == "_get_training_data" and f.a[1] and 0 <= i < 4:
                    flg = mk("active", "rec")
                    return frozenset([("rec", ("X", "y", "s2", "t")[i], (flg,))])
                if n == "get_hpd" and 0 <= i < 2:
                    a = bind(self.p, "get_hpd.get_hpd", f.a[1], f.a[2])
                    s = self.sig(a.get("Xy"[i], const(None))) if a.get("Xy"[i]) is not None else None
                    tag = mk("hpd", mk("call", f.a[0], f.a[1], f.a[2], None))
                    if s is None:
                        return frozenset([(tag, "Xy"[i], (tag,))])
                    return frozenset((h, c, q + (tag,)) for h, c, q in s)
            s = self.sig(f)
            if s is None:
                return None
            k = selkey(t.a[1])
            if k is None:
                return s
            if is_const(k) and isinstance(cval(k), int):
                return None if True else s
            return frozenset((h, c, q + (self.norm(k),)) for h, c, q in s)
        if t.k == "call":
            if t.a[0] in TRANS and t.a[1]:
                s = self.sig(t.a[1][0])
                if s is not None and t.a[0] == "np.sqrt":
                    return frozenset((h, "S" if c == "s2" else "mix", q) for h, c, q in s)
                if s is not None and t.a[0] in ("np.exp", "np.log"):
                    return frozenset((h, "mix", q) for h, c, q in s)
                return s
            if t.a[0] in ("np.multiply", "np.divide", "np.subtract", "np.add", "np.power", "np.maximum", "np.minimum") and len(t.a[1]) == 2:
                return self.pair(t.a[1])
            return None
        if t.k in ("add", "mul"):
            return self.pair(t.a)
        if t.k == "bin" and t.a[0] not in ("@", "matmul"):
            return self.pair(t.a[1:3])
        if t.k in ("neg", "un"):
            return self.sig(t.a[-1])
        if t.k == "ite":
            out = set()
            for x in t.a[1:]:
                if is_const(x) and cval(x) is None:
                    continue
                s = self.sig(x)
                if s is None:
                    return None
                out |= s
            return frozenset(out) or None
        if t.k == "upd":
            return self.sig(t.a[0])
        return None

    def pair(self, xs):
        ss = [s for s in map(self.sig, xs) if s is not None]
        if len(ss) == 1:
            return ss[0]
        if len(ss) > 1 and all(rows(ss[0]) == rows(q) for q in ss):
            return frozenset((h, c if c == "S" and all(q[1] == "S" for s in ss for q in s) else "mix", q) for h, c, q in ss[0])
        return None

    def norm(self, k):
        b = base_attr(k)
        if b is not None and b[1] == "X_flag" and holder(b[0]) == "rec":
            return mk("active", "rec")
        if k.k == "call" and k.a[0] in ("np.where", "np.nonzero", "np.flatnonzero", "np.asarray", "np.array", "np.ravel") and len(k.a[1]) == 1:
            return self.norm(k.a[1][0])
        if k.k == "idx" and is_const(k.a[1]) and cval(k.a[1]) == 0 and k.a[0].k == "call" and k.a[0].a[0] in ("np.where", "np.nonzero"):
            return self.norm(k.a[0])
        if k.k == "call" and k.a[0] == "np.astype" or k.k == "cmp" and k.a[0] == "eq" and k.a[2] is const(True):
            return self.norm(k.a[1][0] if k.k == "call" else k.a[1])
        return rewrite(k, lambda x: mk("call", x.a[0], x.a[1], x.a[2], None) if x.k == "call" and x.a[3] is not None else x)

    def derived(self, k):
        """row sources an index was computed from by ordering or searching"""
        out = set()
        for x in subterms(k):
            if x.k == "call" and x.a[0] in ORDER and x.a[1]:
                s = self.sig(x.a[1][0])
                if s is not None:
                    out |= {(h, q) for h, c, q in s}
        return out


def rows(s):
    return frozenset((h, q) for h, c, q in s)


def same(a, b):
    """same rows; the surrogate's training rows are the recorder's active rows"""
    a, b = rows(a), rows(b)
    if a == b:
        return True
    if len(a) == len(b) == 1:
        (h, q), (k, r) = next(iter(a)), next(iter(b))
        if k == "rec":
            (h, q), (k, r) = (k, r), (h, q)
        return h == "rec" and isinstance(k, tuple) and k[0] == "gp" and bool(q) and q[0].k == "active" and q[1:] == r
    return False


def cols(s):
    return frozenset(c for h, c, q in s)


def desc(s):
    return "; ".join(sorted(f"{'recorder' if h == 'rec' else 'surrogate' if isinstance(h, tuple) else 'subset'}.{c}[{', '.join('active' if x.k == 'active' else show(x, 3) for x in q)}]" for h, c, q in s))


def short(x):
    return x.split(".")[-1]


def pairing(p, rep):
    rep.rule("pairing", "row-wise data used together carry the same source and row selection")
    rep.rule("common index", "an index computed from one array selects rows of the same rows only")
    rep.rule("active rows", "recorded data reaching the surrogate are restricted to active rows")
    n = ni = 0
    sinks = 0
    for f, I, log in sweep(p):
        if f.cls is not None and f.cls.name == "FunctionLogger":
            continue
        R = Rows(p, log)
        home = short(f.qual)
        gpst = {}
        for e in log:
            if e.kind == "call":
                args = [x for x in e.sig[1] if x.k != "star"] + [v for k, v in e.sig[2]]
                ss = [(x, R.sig(x)) for x in args]
                ss = [(x, s) for x, s in ss if s is not None]
                nm = short(e.sig[0])
                if nm in ("append", "concatenate", "vstack", "hstack", "isinstance", "print", "_check_same"):
                    continue
                for i in range(len(ss)):
                    for j in range(i):
                        a, b = ss[j][1], ss[i][1]
                        if cols(a) == cols(b):
                            continue
                        n += 1
                        rep.check(same(a, b), "pairing", f"arguments of {nm}", e.where, f"{e.sig[0]} receives {desc(a)} together with {desc(b)}")
                if e.sig[0].startswith("GP.") or nm in ("get_hpd", "fit", "predict", "predict_full", "update", "log_likelihood") and ss:
                    for x, s in ss:
                        for h, c, q in s:
                            if h == "rec" and c in ("X", "y", "S", "s2", "mix"):
                                sinks += 1
                                rep.check(any(z.k == "active" for z in q), "active rows", f"{c} given to {nm}", e.where, f"{e.sig[0]} receives {desc(s)}, not restricted to active rows")
                if (e.sig[0].startswith("GP.") and nm in ("fit", "update", "predict", "predict_full") or nm == "compute" and len(e.sig[1]) == 5):
                    noise_arg(p, rep, R, e, nm)
            elif e.kind == "op":
                if len(e.sig) == 3 and isinstance(e.sig[1], T) and isinstance(e.sig[2], T) and e.sig[0] not in ("MatMult", "In", "NotIn", "Is", "IsNot"):
                    a, b = R.sig(e.sig[1]), R.sig(e.sig[2])
                    if a is not None and b is not None:
                        n += 1
                        rep.check(same(a, b), "pairing", f"operands of {e.sig[0]}", e.where, f"{desc(a)} is combined with {desc(b)}")
            elif e.kind == "getidx":
                b, k = e.sig[0], e.sig[1]
                s = R.sig(b)
                k2 = selkey(k)
                if s is not None and k2 is not None:
                    d = R.derived(k2)
                    if d:
                        ni += 1
                        rep.check(d == rows(s), "common index", f"selection from {'/'.join(sorted(cols(s)))}", e.where, f"rows of {desc(s)} are selected by an index computed from other rows")
            elif e.kind == "setattr":
                if e.sig[1] in GPC and holder(e.sig[0]) not in (None, "rec"):
                    gpst.setdefault(e.sig[0], {})[e.sig[1]] = (e.sig[2], e)
        for b, d in gpst.items():
            surrogate_store(p, rep, R, f, d)
            n += 1
    rep.count("pairs checked", n)
    rep.count("computed selections", ni)
    rep.count("surrogate arguments", sinks)
    rep.at_least("pairs checked", n, 3)


def surrogate_store(p, rep, R, f, d):
    w = next(iter(d.values()))[1].where
    for c in ("X", "y", "s2"):
        rep.check(c in d, "pairing", f"surrogate's {c} replaced", w, f"the surrogate's {', '.join(sorted(d))} are replaced but not its {c}")
    sg = {}
    for c, (v, e) in d.items():
        s = R.sig(v)
        if s is None:
            if not (is_const(v) and cval(v) is None):
                rep.notes.append(f"surrogate's {c} set to an unrecognised value: {show(v, 4)}")
            elif c == "s2":
                rep.bad("noise", "surrogate's noise dropped", e.where, "the surrogate's noise variances are discarded")
            continue
        sg[c] = s
        rep.check(cols(s) == {c}, "pairing", f"surrogate's {c}", e.where, f"the surrogate's {c} becomes {desc(s)}") if c != "s2" else None
        for h, cc, q in s:
            if h == "rec":
                rep.check(any(z.k == "active" for z in q), "active rows", f"surrogate's {c}", e.where, f"the surrogate's {c} becomes {desc(s)}, not restricted to active rows")
        if c == "s2":
            variance(rep, R, v, e.where, "surrogate's noise")
    cs = sorted(sg)
    for i in range(len(cs)):
        for j in range(i):
            rep.check(rows(sg[cs[i]]) == rows(sg[cs[j]]), "pairing", f"surrogate's {cs[j]} and {cs[i]}", w, f"the surrogate's {cs[j]} becomes {desc(sg[cs[j]])} and its {cs[i]} {desc(sg[cs[i]])}")


def leaves(t):
    st, out = [t], []
    while st:
        x = st.pop()
        if x.k == "ite":
            st += list(x.a[1:])
        elif x.k == "call" and x.a[0] in TRANS - {"np.square", "np.sqrt", "np.exp", "np.log", "np.abs", "np.absolute", "np.negative"} and x.a[1]:
            st.append(x.a[1][0])
        else:
            out.append(x)
    return out


def variance(rep, R, t, where, lab, per_obs=False):
    """t must be None, a variance already, or the square of a recorded SD"""
    for x in leaves(t):
        if is_const(x) and cval(x) is None:
            continue
        s = R.sig(x)
        if s is None:
            continue
        if cols(s) <= {"s2"}:
            rep.ok("noise", f"{lab}: {desc(s)}", where)
            continue
        if not cols(s) <= {"S", "mix"} :
            rep.bad("noise", f"{lab}: column", where, f"{desc(s)} is passed as noise variance")
            continue
        y = rewrite(x, lambda z: z.a[1][0] if z.k == "call" and z.a[0] in ("np.copy", "np.asarray", "np.array", "np.ravel", "np.reshape", "np.transpose", "np.atleast_2d", "np.astype") and z.a[1]
                    else mk("bin", "**", z.a[1][0], const(2)) if z.k == "call" and z.a[0] == "np.square"
                    else mk("bin", "**", z.a[1][0], z.a[1][1]) if z.k == "call" and z.a[0] == "np.power" and len(z.a[1]) == 2
                    else mk("mul", z.a[1][0], z.a[1][1]) if z.k == "call" and z.a[0] == "np.multiply" and len(z.a[1]) == 2
                    else z.a[0] if z.k == "idx" else z)
        pl = N.poly(y)
        okk = len(pl) == 1
        if okk:
            (m, k), = pl.items()
            m = [z for z in m if not (per_obs and z[1] == 1 and (base_attr(z[0]) or (None, None))[1] == "n_evals")]
            okk = k == 1 and len(m) == 1 and m[0][1] == 2 and base_S(m[0][0])
        rep.check(okk, "noise", lab, where, f"the noise variance passed is {show(x, 5)}, not the squared recorded SD")


def base_S(a):
    while a.k == "idx":
        a = a.a[0]
    b = base_attr(a)
    return b is not None and b[1] == "S" or a.k == "attr" and a.a[1] == "S"


def noise_arg(p, rep, R, e, nm):
    a = e.sig[1][1:] if e.sig[0].startswith("GP.") else e.sig[1]
    kw = dict(e.sig[2])
    t = None
    if nm == "fit":
        t = kw.get("s2") or (a[2] if len(a) > 2 else None)
    elif nm == "update":
        t = kw.get("s2_new") or kw.get("s2") or (a[2] if len(a) > 2 else None)
    elif nm in ("predict", "predict_full"):
        t = kw.get("s2_star") or kw.get("s2") or (a[2] if len(a) > 2 else None)
    elif nm == "compute":
        t = a[4] if len(a) == 5 else None
    if t is not None and R.sig(t) is not None:
        variance(rep, R, t, e.where, f"noise given to {nm}", nm == "compute")
    if nm == "fit":
        x = kw.get("X") or (a[0] if a else None)
        y = kw.get("y") or (a[1] if len(a) > 1 else None)
        sx = R.sig(x) if x is not None else None
        if sx is not None and y is not None and R.sig(y) is not None:
            rep.check(cols(sx) == {"X"} and cols(R.sig(y)) == {"y"}, "pairing", "columns given to fit", e.where, f"the surrogate is trained on {desc(sx)} and {desc(R.sig(y))}")
            if t is None:
                rep.bad("noise", "noise given to fit", e.where, "the surrogate is trained without the recorded noise")
            elif is_const(t) and cval(t) is None:
                rep.bad("noise", "noise given to fit", e.where, "the surrogate is trained without the recorded noise")


# ------------------------------------------------------------------ training data
def training(p, rep):
    f = p.func("gaussian_process_train._get_training_data")
    rep.rule("noise", "the noise passed to the surrogate is the squared recorded SD, exactly when the target is noisy")
    where = f"{f.mod.rel}:{f.node.lineno}"
    fl = sym(f.posonly[0])
    for nf in (False, True):
        I = Interp(p, Config(path_sensitive=True))
        st = State()
        st.store[attr(fl, "noise_flag")] = const(nf)
        for s, c, v in I.run(f, state=st):
            if c != "return" or v.k != "tup" or len(v.a) != 4:
                continue
            R = Rows(p)
            X, y, s2, t = v.a
            sg = {}
            for nme, x, want in (("points", X, "X"), ("values", y, "y"), ("times", t, "t")):
                q = R.sig(x)
                if q is None:
                    rep.notes.append(f"training {nme} not recognised: {show(x, 4)}")
                    continue
                sg[nme] = q
                rep.check(cols(q) == {want}, "pairing", f"training {nme}", where, f"the training {nme} are {desc(q)}")
                rep.check(all(h == "rec" and any(z.k == "active" for z in k) for h, cc, k in q), "active rows", f"training {nme}", where, f"the training {nme} are {desc(q)}, not restricted to active rows")
            if nf:
                if is_const(s2) and cval(s2) is None:
                    rep.bad("noise", "training noise", where, "no noise variances are passed although the target is noisy")
                else:
                    q = R.sig(s2)
                    if q is None:
                        rep.notes.append(f"training noise not recognised: {show(s2, 4)}")
                    else:
                        sg["noise"] = q
                        rep.check(all(h == "rec" and any(z.k == "active" for z in k) for h, cc, k in q), "active rows", "training noise", where, f"the training noise is {desc(q)}, not restricted to active rows")
                        variance(rep, R, s2, where, "training noise")
            else:
                rep.check(is_const(s2) and cval(s2) is None, "noise", "no training noise", where, f"noise variances {show(s2, 3)} are passed although the target is noiseless")
            ks = sorted(sg)
            for i in range(len(ks)):
                for j in range(i):
                    rep.check(rows(sg[ks[i]]) == rows(sg[ks[j]]), "pairing", f"training {ks[j]} and {ks[i]}", where, f"training {ks[j]} are {desc(sg[ks[j]])}, {ks[i]} are {desc(sg[ks[i]])}")
            # the elementary order of the rows must not be changed on one side
        rep.used(I)


def hpd(p, rep):
    f = p.func("get_hpd.get_hpd")
    rep.rule("subset", "the high-density subset selects and sorts points and values by one index: the rows of largest value first")
    where = f"{f.mod.rel}:{f.node.lineno}"
    X, y = sym("X"), sym("y")
    I = Interp(p, Config(path_sensitive=True))
    for s, c, v in I.run(f):
        if c != "return" or v.k != "tup" or len(v.a) != 4:
            continue
        hx, hy, hr, ind = v.a
        if not (hx.k == "idx" and hy.k == "idx"):
            rep.notes.append(f"high-density subset not recognised: {show(hx, 4)}")
            continue
        ix, iy = selkey(hx.a[1]), selkey(hy.a[1])
        bx, by = hx.a[0], hy.a[0]
        # X[order][:n] is the same as X[order[:n]]
        def chain(t, root):
            ks = []
            while t.k == "idx":
                k = selkey(t.a[1])
                if k is not None:
                    ks.append(k)
                t = t.a[0]
            t2 = t
            while t2.k == "call" and t2.a[0] in TRANS and t2.a[1]:
                t2 = t2.a[1][0]
            return (t2 is root, tuple(reversed(ks)))
        rx, cx = chain(hx, X)
        ry, cy = chain(hy, y)
        rep.check(rx and ry, "subset", "sources", where, f"the subset is taken from {show(hx, 3)} and {show(hy, 3)}")
        fl = lambda ch: flat(ch)
        rep.check(flat(cx) == flat(cy), "subset", "one index", where, f"points are selected by {[show(k, 4) for k in cx]}, values by {[show(k, 4) for k in cy]}")
        ci = flat(list(chain(ind, None)[1]) if False else [ind])
        rep.check(flat(cx) == ci, "subset", "returned index", where, f"the returned indices are {show(ind, 5)}, the points were selected by {[show(k, 4) for k in cx]}")
        d = descending(cx, y)
        if d is None:
            rep.notes.append(f"order of the high-density subset not recognised: {[show(k, 5) for k in cx]}")
        else:
            rep.check(d, "subset", "order", where, "the subset is not that of the largest values")
        # range of the selected points
        r = [x for x in subterms(hr) if x.k == "bin" and x.a[0] in ("-", "sub")]
        arr = {x for x in subterms(hr) if x.k == "call" and x.a[0] in ("np.max", "np.min", "np.amax", "np.amin", "np.ptp") and x.a[1]}
        for x in arr:
            rep.check(x.a[1][0] is hx, "subset", "range", where, f"the range is computed over {show(x.a[1][0], 3)}")
    rep.used(I)


def flat(ch):
    """canonical form of a chain of row selections: order[a:b] then applied = order, [a:b]"""
    out = []
    for k in ch:
        parts = []
        while k.k == "idx":
            parts.append(k.a[1])
            k = k.a[0]
        parts.append(k)
        out += list(reversed(parts))
    norm = []
    for k in out:
        if k.k == "slice":
            a, b, st = (list(k.a) + [const(None)] * 3)[:3]
            if is_const(a) and cval(a) in (0, None) and is_const(st) and cval(st) in (1, None):
                norm.append(("head", b))
                continue
        norm.append(k)
    return tuple(norm)


def descending(ch, y):
    fl = list(flat(ch))
    if not fl or isinstance(fl[0], tuple):
        return False if fl and isinstance(fl[0], tuple) else None
    a = fl[0]
    sgn = 1
    if a.k == "call" and a.a[0] in ("np.flip", "np.flipud", "np.fliplr") and a.a[1]:
        sgn = -sgn
        a = a.a[1][0]
    if not (a.k == "call" and a.a[0] == "np.argsort"):
        return None
    x = a.a[1][0]
    while True:
        if x.k == "neg":
            sgn, x = -sgn, x.a[0]
        elif x.k == "mul" and len(x.a) == 2 and any(is_const(z) and cval(z) == -1 for z in x.a):
            sgn, x = -sgn, [z for z in x.a if not (is_const(z) and cval(z) == -1)][0]
        elif x.k == "call" and x.a[0] in TRANS and x.a[1] and x.a[0] not in ("np.abs", "np.absolute"):
            x = x.a[1][0]
        else:
            break
    if x is not y:
        return False if y not in list(subterms(x)) or x.k in ("sym", "call") else None
    for k in fl[1:]:
        if isinstance(k, tuple):
            return sgn == -1
        if k.k == "slice":
            a, b, st = (list(k.a) + [const(None)] * 3)[:3]
            if is_const(st) and cval(st) == -1 and is_const(a) and cval(a) is None and is_const(b) and cval(b) is None:
                sgn = -sgn
                continue
            st_neg = isinstance(a, T) and (a.k == "neg" or is_const(a) and isinstance(cval(a), (int, float)) and cval(a) < 0)
            if st_neg and is_const(b) and cval(b) is None:
                return None
            return False if is_const(st) and cval(st) not in (1, None) else None
        return None
    return None


def update(p, rep):
    """the rank-one update adds exactly the newly evaluated row, without noise, not merged into another row"""
    rep.rule("single update", "a single-row update adds the evaluated point with its own value, only when the row is new and noiseless (or with its own variance)")
    f = p.func("active_sample.active_sample")
    n = 0
    for g, I, log in sweep(p):
        if g.qual != f.qual:
            continue
        for e in log:
            if e.kind != "call" or e.sig[0] not in ("GP.update", "?.update") or len(e.sig[1]) < 3 and "X_new" not in dict(e.sig[2]):
                continue
            kw = dict(e.sig[2])
            a = list(e.sig[1][1:])
            xs, ys = kw.get("X_new") or a[0], kw.get("y_new") or (a[1] if len(a) > 1 else None)
            s2 = kw.get("s2_new") or (a[2] if len(a) > 2 else None)
            if ys is None:
                continue
            n += 1
            calls = [x for x in subterms(ys) if x.k == "call" and short(x.a[0]) in ("__call__", "add") and x.a[0].startswith("FunctionLogger.")]
            if not calls:
                rep.notes.append("value of the single-row update not recognised")
                continue
            for c in calls:
                ind = [x for x in subterms(ys) if x.k == "idx" and x.a[0] is c]
                rep.check(all(is_const(x.a[1]) and cval(x.a[1]) == 0 for x in ind), "single update", "value", e.where, "the value added is not the one returned by the recorder")
                px = c.a[1][1] if len(c.a[1]) > 1 else None
                if px is not None:
                    rep.check(strip_site(px) is strip_site(xs) or same_value(px, xs), "single update", "point", e.where, f"the row added has point {show(xs, 2)}, its value was recorded at {show(px, 2)}")
            # only new, noiseless rows
            isid = lambda k: k.k == "idx" and k.a[0].k == "call" and k.a[0].a[0].startswith("FunctionLogger.") and is_const(k.a[1]) and cval(k.a[1]) == 2
            ids = lambda t: all(isid(k) or k.k not in ("idx", "add", "bin", "const", "attr", "havoc") for x in subterms(t) if x.k == "idx" and (base_attr(x.a[0]) or (None, None))[1] == "n_evals"
                                for k in [x.a[1].a[0] if x.a[1].k == "tup" and x.a[1].a else x.a[1]])
            nev = nos = False
            for t, b in e.facts.items():
                for z in atoms(t, b):
                    x, v = z
                    if x.k == "cmp" and x.a[0] == "eq" and v and is_const(x.a[2]) and cval(x.a[2]) == 1 and has_col(x.a[1], "n_evals"):
                        nev = True
                        rep.check(ids(x.a[1]), "single update", "row whose count is tested", e.where, "the count tested belongs to another row")
                    if x.k == "cmp" and x.a[0] in ("le", "lt") and v and has_col(x.a[1], "n_evals") and is_const(x.a[2]) and cval(x.a[2]) == (1 if x.a[0] == "le" else 2):
                        nev = True
                    if x.k == "cmp" and x.a[0] == "is" and v and is_const(x.a[2]) and cval(x.a[2]) is None and has_col(x.a[1], "S"):
                        nos = True
                    if (base_attr(x) or (None, None))[1] == "noise_flag" and not v:
                        nos = True
                    if x.k == "call" and x.a[0] == "hasattr" and not v and any(is_const(q) and cval(q) == "S" for q in x.a[1]):
                        nos = True
                    if x.k == "cmp" and key_level(x) and v is not None:
                        nos = nos or level0(x, v)
            rep.check(nev, "single update", "new rows only", e.where, "the surrogate gains a row also when the observation was merged into an existing one")
            if s2 is None or is_const(s2) and cval(s2) is None:
                rep.check(nos, "single update", "noiseless rows only", e.where, "the surrogate gains a row without its noise variance for noisy targets")
    rep.count("single-row updates", n)


def key_level(x):
    return any(is_const(z) and cval(z) == "uncertainty_handling_level" for z in subterms(x))


def level0(x, v):
    op, a, b = x.a[0], x.a[1], x.a[2]
    if op == "eq" and is_const(b) and cval(b) == 0:
        return v
    if op == "lt" and is_const(a) and cval(a) == 0:
        return not v
    return False


def atoms(t, b):
    """atomic facts implied by t being b"""
    if t.k in ("not", "inv"):
        return atoms(t.a[0], not b)
    if t.k == "and" and b or t.k == "or" and not b:
        return [z for x in t.a for z in atoms(x, b)]
    return [(t, b)]


def has_col(t, c):
    return any((base_attr(x) or (None, None))[1] == c for x in subterms(t))


def strip_site(t):
    return rewrite(t, lambda x: mk("call", x.a[0], x.a[1], x.a[2], None) if x.k == "call" and x.a[3] is not None else x)


def run(p, rep):
    training(p, rep)
    hpd(p, rep)
    pairing(p, rep)
    update(p, rep)
