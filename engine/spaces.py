"""Coordinate-space inference over value-number terms: every term is O (original), T (transformed), None (neither/unknown)
or X (conflict)."""
from .terms import *

O, T_, X = "original", "transformed", "mixed"
ORIG_NAMES = {"lower_bounds", "upper_bounds", "plausible_lower_bounds", "plausible_upper_bounds", "X_orig", "x_orig", "y_orig", "f_val_orig",
              "lb_orig", "ub_orig", "plb_orig", "pub_orig", "lb_eps_orig", "ub_eps_orig"}
TRAN_NAMES = {"lb_tran", "ub_tran", "plb_tran", "pub_tran", "lb_search", "ub_search", "search_cache", "run_mean"}
CLASS_ATTRS = {("FunctionLogger", "X"): T_, ("GP", "X"): T_, ("VariationalPosterior", "mu"): T_,
               # log-density values: with (transformed) and without (original) the log-Jacobian
               ("FunctionLogger", "y"): T_, ("GP", "y"): T_, ("FunctionLogger", "y_max"): T_}
JAC = "ParameterTransformer.log_abs_det_jacobian"
# declared space of the point-like parameters of baseline functions
PARAMS = {
    ("FunctionLogger.__call__", "x"): T_, ("FunctionLogger.add", "x"): T_,
    ("FunctionLogger._record", "x_orig"): O, ("FunctionLogger._record", "x"): T_,
    ("ParameterTransformer.__call__", "u"): O, ("ParameterTransformer.inverse", "x"): T_,
    ("ParameterTransformer.log_abs_det_jacobian", "u"): T_,
    ("ParameterTransformer.__init__", "lb_orig"): O, ("ParameterTransformer.__init__", "ub_orig"): O,
    ("ParameterTransformer.__init__", "plb_orig"): O, ("ParameterTransformer.__init__", "pub_orig"): O,
    ("AbstractAcqFcn.__call__", "Xs"): T_, ("AbstractAcqFcn._compute_acquisition_function", "Xs"): T_,
    ("AbstractAcqFcn._estimate_observation_noise", "Xs"): T_, ("AbstractAcqFcn._real2int", "X"): T_,
    ("AcqFcn._compute_acquisition_function", "Xs"): T_, ("AcqFcnLog._compute_acquisition_function", "Xs"): T_,
    ("AcqFcnNoisy._compute_acquisition_function", "Xs"): T_, ("AcqFcnVanilla._compute_acquisition_function", "Xs"): T_,
    ("AcqFcnIMIQR._compute_acquisition_function", "Xs"): T_, ("AcqFcnVIQR._compute_acquisition_function", "Xs"): T_,
    ("AcqFcnIMIQR.is_log_added", "vp_is"): None,
    ("VBMC.__init__", "x0"): O, ("VBMC.__init__", "lower_bounds"): O, ("VBMC.__init__", "upper_bounds"): O,
    ("VBMC.__init__", "plausible_lower_bounds"): O, ("VBMC.__init__", "plausible_upper_bounds"): O,
    ("VBMC._bounds_check", "x0"): O, ("VBMC._bounds_check", "lower_bounds"): O, ("VBMC._bounds_check", "upper_bounds"): O,
    ("VBMC._bounds_check", "plausible_lower_bounds"): O, ("VBMC._bounds_check", "plausible_upper_bounds"): O,
    ("VariationalPosterior.__init__", "x0"): T_, ("VariationalPosterior.get_bounds", "X"): T_,
    ("gaussian_process_train.train_gp", "plb_tran"): T_, ("gaussian_process_train.train_gp", "pub_tran"): T_,
    ("gaussian_process_train._gp_hyp", "plb_tran"): T_, ("gaussian_process_train._gp_hyp", "pub_tran"): T_,
    ("gaussian_process_train._gp_hyp", "X"): T_,
}
# component spaces of results of baseline functions
RETURNS = {
    "ParameterTransformer.__call__": T_, "ParameterTransformer.inverse": O,
    "AbstractAcqFcn._real2int": T_, "gaussian_process_train._get_training_data": (T_, T_, None, None),
    "VBMC._bounds_check": (O, O, O, O, O), "active_sample._get_search_points": (T_, None),
    "VariationalPosterior.sample": None, "VariationalPosterior.moments": None, "VariationalPosterior.mode": None,
}
KEEP = {"np.copy", "copy.copy", "copy.deepcopy", "np.array", "np.asarray", "np.atleast_1d", "np.atleast_2d", "np.reshape", "np.ravel",
        "np.transpose", "np.squeeze", "np.astype", "np.minimum", "np.maximum", "np.clip", "np.where", "np.append", "np.concatenate",
        "np.vstack", "np.hstack", "np.repeat", "np.tile", "np.mean", "np.min", "np.max", "np.amin", "np.amax", "np.quantile",
        "np.sort", "np.random.multivariate_normal", "np.random.uniform", "np.random.normal", "np.delete", "np.insert", "np.nanmin", "np.nanmax", "np.median", "np.add", "np.subtract", "np.flatten", "np.take",
        "np.expand_dims", "np.broadcast_to", "np.full_like", "np.percentile", "np.nanmedian", "np.abs", "abs", "np.fmax", "np.fmin",
        "min", "max", "np.diff", "np.ptp", "np.nan_to_num", "np.float64", "np.row_stack", "np.column_stack", "np.std", "np.sum", "list", "tuple"}
JOINARGS = {"np.minimum": 2, "np.maximum": 2, "np.clip": 3, "np.append": 2, "np.fmax": 2, "np.fmin": 2, "np.add": 2, "np.subtract": 2}


class Spaces:
    def __init__(self, interp, func):
        self.I, self.func = interp, func
        self.memo = {}
        self.extra = {}
        self.x0 = {"VBMC._init_optim_state": O, "VBMC.__init__": O}.get(func.qual, T_)

    def join(self, *ss):
        ss = {s for s in ss if s is not None}
        if not ss:
            return None
        if len(ss) == 1:
            return next(iter(ss))
        return X

    def sp(self, t, d=0):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._sp(t)
        self.memo[t] = r
        return r

    def flagged(self, t, pos, kw="orig_flag", default=True):
        a, k = t.a[1], dict(t.a[2])
        v = k.get(kw, a[pos] if len(a) > pos else const(default))
        if is_const(v):
            return O if cval(v) else T_
        return None

    def _sp(self, t):
        k = t.k
        if k == "sym":
            if t.a[0] in self.extra:
                return self.extra[t.a[0]]
            return PARAMS.get((self.func.qual, t.a[0]))
        if k == "attr":
            b, n = t.a
            return self.named(b, n)
        if k == "havoc":
            if isinstance(t.a[1], str) and len(t.a) > 2:
                n = t.a[1]
                if n.startswith("["):
                    return self.keyed(n[1:-1])
                return self.named(t.a[2], n)
            return None
        if k == "loop":
            out = [self.sp(x) for x in self.I.phi_alts.get(t, ())]
            s = self.join(*[x for x in out if x != X])
            if s is None and len(t.a) > 2 and isinstance(t.a[1], str):
                n = t.a[1]
                return self.keyed(n[1:-1]) if n.startswith("[") else self.named(t.a[2], n)
            return None if s == X else s
        if k == "idx":
            b, key = t.a
            if is_const(key) and isinstance(cval(key), str):
                return self.keyed(cval(key))
            if b.k == "call":
                r = self.result(b, key)
                if r != "?":
                    return r
            if b.k in ("tup", "lst"):
                return None
            return self.sp(b)
        if k == "call":
            f = t.a[0]
            if f == "dict.get" and len(t.a[1]) > 1 and is_const(t.a[1][1]):
                return self.keyed(cval(t.a[1][1]))
            r = self.result(t, None)
            if r != "?":
                return r
            if f in ("np.where",):
                return self.join(*[self.sp(x) for x in t.a[1][1:]])
            if f in KEEP and t.a[1]:
                if f in ("np.minimum", "np.maximum", "np.clip", "np.append", "np.fmax", "np.fmin", "min", "max", "np.add", "np.subtract"):
                    return self.join(*[self.sp(x) for x in t.a[1][:3]])
                return self.sp(t.a[1][0])
            return None
        if k == "add" and any(jac(x) for x in t.a):
            rest = self.join(*[self.sp(x) for x in t.a if not jac(x)])
            s = sum(jac(x) for x in t.a)
            if s == 0 or rest in (None, X):
                return rest
            return (T_ if rest == O else X) if s > 0 else (O if rest == T_ else X)
        if k == "bin" and t.a[0] == "-" and jac(t.a[2]) and not jac(t.a[1]):
            rest = self.sp(t.a[1])
            return rest if rest in (None, X) else O if rest == T_ and jac(t.a[2]) > 0 else X
        if k in ("add",):
            return self.join(*[self.sp(x) for x in t.a])
        if k == "bin":
            a, b = self.sp(t.a[1]), self.sp(t.a[2])
            if t.a[0] == "-":
                return self.join(a, b)
            if t.a[0] == "/":
                return a if b is None else None
            if t.a[0] in ("%", "//"):
                return a
            return None
        if k == "mul":
            ss = [self.sp(x) for x in t.a]
            n = [s for s in ss if s is not None]
            return n[0] if len(n) == 1 else None
        if k == "neg":
            return self.sp(t.a[0])
        if k in ("ite",):
            side = transform_side(t.a[0])
            if side is not None:
                # without a transform both spaces coincide: the branch with a transform decides
                return self.sp(t.a[1] if side else t.a[2])
            a, b = self.sp(t.a[1]), self.sp(t.a[2])
            return a if b is None else b if a is None else (a if a == b else None)
        if k == "phi":
            ss = {self.sp(x) for x in t.a[2]} - {None}
            return next(iter(ss)) if len(ss) == 1 else None
        if k == "upd":
            return self.join(self.sp(t.a[0]), self.sp(t.a[2]))
        if k in ("tup", "lst"):
            return self.join(*[self.sp(x) for x in t.a])
        if k == "elem":
            return self.sp(t.a[0])
        return None

    def keyed(self, n):
        if n in ORIG_NAMES:
            return O
        if n in TRAN_NAMES:
            return T_
        return None

    def named(self, b, n):
        c = self.I.cls_of(b)
        if n in ORIG_NAMES:
            return O
        if n in TRAN_NAMES:
            return T_
        if c and (c, n) in CLASS_ATTRS:
            return CLASS_ATTRS[(c, n)]
        if n == "x0" and c == "VBMC":
            return self.x0
        return None

    def result(self, t, key):
        f = t.a[0]
        if f == "VariationalPosterior.sample":
            s = self.flagged(t, 2)
            return s if key in (None, const(0)) else None
        if f == "VariationalPosterior.moments":
            s = self.flagged(t, 2)
            return s if key in (None, const(0)) else None
        if f == "VariationalPosterior.mode":
            return self.flagged(t, 1)
        if f == "get_hpd.get_hpd":
            return self.sp(t.a[1][0]) if key in (None, const(0)) else None
        if f in RETURNS:
            r = RETURNS[f]
            if isinstance(r, tuple):
                return r[cval(key)] if key is not None and is_const(key) and isinstance(cval(key), int) and cval(key) < len(r) else None
            return r
        return "?"


def jac(t):
    """+1/-1 if t is (a reshaped, scaled) log-Jacobian term, else 0"""
    if t.k == "neg":
        return -jac(t.a[0])
    while True:
        if t.k == "call" and t.a[0] in KEEP and t.a[1]:
            t = t.a[1][0]
        elif t.k == "idx":
            t = t.a[0]
        elif t.k == "bin" and t.a[0] == "/":
            t = t.a[1]
        else:
            break
    return 1 if t.k == "call" and t.a[0] == JAC else 0


def transform_side(c):
    """True: condition holds iff there is a transform; False: iff there is none; None: unrelated"""
    if c.k == "not":
        s = transform_side(c.a[0])
        return None if s is None else not s
    if c.k == "attr" and c.a[1] in ("transform_parameters", "parameter_transformer"):
        return True
    if c.k == "sym" and c.a[0] == "parameter_transformer":
        return True
    if c.k == "cmp" and NONE in c.a[1:]:
        o = c.a[1] if c.a[2] is NONE else c.a[2]
        if transform_side(o) is True and not (o.k == "attr" and o.a[1] == "transform_parameters"):
            return {"is": False, "eq": False, "isnot": True, "ne": True}.get(c.a[0])
    return None
