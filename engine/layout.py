"""Axis-label evaluation of array terms.

Every array is abstracted to one label tuple per axis, slowest varying first: () is an axis of length one, ("D",) an axis over
coordinates, ("K", "D") a flattened axis in which the component varies slowest.  Concatenations keep their pieces.  Reshaping,
raveling (both orders), transposing, tiling, slicing, broadcasting, reductions and products are followed; anything else is unknown
(None) and never reported.  `errs` collects operations that can only work when two different dimensions happen to be equal.
"""
from fractions import Fraction

from .poly import Norm
from .terms import *
from .terms import T, mk

ELT1 = {"np.exp", "np.log", "np.sqrt", "np.abs", "np.negative", "np.square", "np.log1p", "np.expm1", "np.isfinite", "np.isnan", "np.isinf", "np.sign",
        "np.logical_not", "np.invert", "np.reciprocal", "np.real", "np.spacing", "np.cos", "np.sin", "np.absolute", "np.cumsum"}
ELT2 = {"np.maximum", "np.minimum", "np.add", "np.subtract", "np.multiply", "np.divide", "np.true_divide", "np.power", "np.fmax", "np.fmin", "np.logical_and",
        "np.logical_or", "np.less", "np.greater", "np.clip", "np.where", "np.float_power"}
RED = {"np.sum", "np.mean", "np.max", "np.min", "np.amax", "np.amin", "np.prod", "np.median", "np.std", "np.var", "np.any", "np.all", "np.nansum", "np.nanmean",
       "np.nanmax", "np.nanmin", "np.argmax", "np.argmin", "np.quantile", "sum", "max", "min"}
KEEP = {"np.copy", "np.asarray", "np.array", "np.asanyarray", "copy.copy", "copy.deepcopy", "np.astype", "np.ascontiguousarray", "np.asfortranarray", "np.atleast_1d", "np.float64",
        "np.nan_to_num"}
ALLOC = {"np.zeros": 0, "np.ones": 0, "np.empty": 0, "np.full": 0}
LIKE = {"np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like"}
ALL = mk("slice", NONE, NONE, NONE)


class A:
    __slots__ = ("axes", "src", "lvl")

    def __init__(self, axes, src=frozenset(), lvl=0):
        self.axes, self.src, self.lvl = tuple(axes), frozenset(src), lvl

    def __eq__(self, o):
        return isinstance(o, A) and self.axes == o.axes and self.src == o.src and self.lvl == o.lvl

    def __hash__(self):
        return hash((self.axes, self.src, self.lvl))

    def __repr__(self):
        return f"A{self.axes}{set(self.src) or ''}{'' if not self.lvl else self.lvl}"


SC = A(())


def iscat(ax):
    return len(ax) > 0 and ax[0] == "cat"


def bad(ax):
    return "!" in ax


class Lay:
    """leaf(term) -> A or None for inputs; dim(term) -> label or None for size terms; one: labels of length one in this scenario;
    truth(term) -> bool or None for conditions"""

    def __init__(self, leaf, dim, one=(), truth=None, phis=None):
        self.leaf, self.dim, self.one, self.tr = leaf, dim, set(one), truth
        self.memo, self.errs = {}, []
        self.phis = phis or {}
        self.N = Norm(self._subst)

    # -- sizes -----------------------------------------------------------------------------------------------------------------
    def _subst(self, t):
        d = self.dim(t)
        if d is not None:
            return const(1) if d in self.one else sym("#" + d)
        if t.k == "ite":
            c = self.truth(t.a[0])
            if c is not None:
                return t.a[1] if c else t.a[2]
            if self.poly(t.a[1]) == self.poly(t.a[2]):
                return t.a[1]
        if t.k == "idx" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            v = self.ev(t.a[0].a[0])
            if v is not None and -len(v.axes) <= cval(t.a[1]) < len(v.axes):
                return self._axterm(v.axes[cval(t.a[1])])
        if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0] == "np.shape" and is_const(t.a[1]):
            return self._subst(idx(attr(t.a[0].a[1][0], "shape"), t.a[1]))
        if t.k == "call" and t.a[0] == "len" and len(t.a[1]) == 1:
            v = self.ev(t.a[1][0])
            if v is not None and v.axes:
                return self._axterm(v.axes[0])
        if t.k == "call" and t.a[0] == "np.size" and len(t.a[1]) == 1 or t.k == "attr" and t.a[1] == "size":
            v = self.ev(t.a[1][0] if t.k == "call" else t.a[0])
            if v is not None:
                r = [self._axterm(x) for x in v.axes]
                if all(x is not None for x in r):
                    return mk("mul", *r) if len(r) > 1 else (r[0] if r else const(1))
        return None

    def _axterm(self, ax):
        if iscat(ax):
            r = [self._axterm(p.axes[0]) for p in ax[1]]
            if any(x is None for x in r):
                return None
            return mk("add", *r) if len(r) > 1 else (r[0] if r else const(0))
        if any(x in ("?", "!") for x in ax):
            return None
        r = [sym("#" + x) for x in ax if x not in self.one]
        return mk("mul", *r) if len(r) > 1 else (r[0] if r else const(1))

    def poly(self, t):
        return self.N.poly(t)

    def labels(self, t):
        """multiset of labels whose product is the size t, or None"""
        if isinstance(t, T):
            t = self.poly(t)
        if len(t) != 1:
            return None
        (m, c), = t.items()
        if c != 1:
            return None
        out = []
        for a, e in m:
            if a.k != "sym" or not a.a[0].startswith("#") or e.denominator != 1 or e < 1:
                return None
            out += [a.a[0][1:]] * int(e)
        return tuple(sorted(out))

    def axis_of(self, t):
        l = self.labels(t)
        if l is None:
            return ("?",)
        return l if len(l) < 2 else ("?",)

    def norm(self, ax):
        if iscat(ax):
            return ax
        return tuple(x for x in ax if x not in self.one)

    # -- evaluation ------------------------------------------------------------------------------------------------------------
    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._ev(t)
        if r is not None:
            r = A([self.norm(x) for x in r.axes], r.src, r.lvl)
        self.memo[t] = r
        return r

    def err(self, t, msg):
        self.errs.append((t, msg))

    def join(self, vs):
        vs = [v for v in vs if v is not None]
        if not vs:
            return None
        r = vs[0]
        for v in vs[1:]:
            if v == r:
                continue
            if len(v.axes) != len(r.axes):
                return None
            axes = []
            for x, y in zip(r.axes, v.axes):
                axes.append(x if x == y else ("?",))
            r = A(axes, r.src | v.src, r.lvl if r.lvl == v.lvl else None)
        return r

    def _ev(self, t):
        l = self.leaf(t)
        if l is not None:
            return l
        if self.dim(t) is not None:
            return SC
        k, a = t.k, t.a
        if k == "const" or k == "mod" and a[0] in ("numpy.inf", "numpy.nan", "numpy.pi", "numpy.e"):
            return SC
        if k == "ite":
            c = self.truth(a[0])
            if c is not None:
                return self.ev(a[1] if c else a[2])
            x, y = self.ev(a[1]), self.ev(a[2])
            return None if x is None or y is None else self.join([x, y])
        if k == "phi":
            alts = a[2] if len(a) > 2 and isinstance(a[2], tuple) else self.phis.get(t, ())
            return self.join([self.ev(x) for x in alts if isinstance(x, T)])
        if k == "loop":
            return self.join([self.ev(x) for x in sorted(self.phis.get(t, ()), key=lambda x: show(x, 3)) if x is not t])
        if k == "upd":
            return self.ev(a[0])
        if k in ("add", "mul"):
            return self.elt(t, [self.ev(x) for x in a], mul=(k == "mul"))
        if k == "neg":
            return self.ev(a[0])
        if k == "bin":
            if a[0] == "@":
                return self.dot(t, self.ev(a[1]), self.ev(a[2]))
            x, y = self.ev(a[1]), self.ev(a[2])
            return self.elt(t, [x, y], mul=True)
        if k == "cmp":
            x, y = self.ev(a[1]), self.ev(a[2])
            r = self.elt(t, [x, y])
            return r and A(r.axes)
        if k == "attr" and a[1] == "T":
            v = self.ev(a[0])
            return v and A(v.axes[::-1], v.src, v.lvl)
        if k == "idx":
            return self.index(t, a[0], a[1])
        if k in ("lst", "tup"):
            vs = [self.ev(x) for x in a]
            if not vs:
                return A([("cat", ())])
            if all(v is not None and not v.axes for v in vs):
                return A([("?",)])
            return None
        if k == "call":
            return self.call(t)
        if k == "elem":
            v = self.ev(a[0]) if a and isinstance(a[0], T) else None
            if a and isinstance(a[0], T) and a[0].k == "call" and a[0].a[0] == "range":
                return SC
            return A(v.axes[1:], v.src, v.lvl) if v is not None and v.axes else None
        return None

    def truth(self, c):
        if is_const(c):
            return bool(cval(c))
        if self.tr is not None:
            r = self.tr(c)
            if r is not None:
                return r
        if c.k == "cmp" and c.a[0] == "is" and c.a[2] is NONE and self.dim(c.a[1]) is not None:
            return False
        if c.k == "not":
            r = self.truth(c.a[0])
            return None if r is None else not r
        if c.k in ("and", "or"):
            rs = [self.truth(x) for x in c.a]
            if c.k == "and":
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if c.k == "cmp" and c.a[0] in ("eq", "noteq", "lt", "le", "gt", "ge"):
            x, y = self.poly(c.a[1]), self.poly(c.a[2])
            d = dict(x)
            for m, v in y.items():
                d[m] = d.get(m, 0) - v
            d = {m: v for m, v in d.items() if v}
            op = c.a[0]
            if not d or set(d) == {frozenset()}:
                v = d.get(frozenset(), 0)
                return {"eq": v == 0, "noteq": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[op]
            # many: a dimension that is not one is at least two here
            if len(d) <= 2 and all(len(m) <= 1 for m in d):
                ms = [m for m in d if m]
                if len(ms) == 1:
                    (at, e), = ms[0]
                    if at.k == "sym" and at.a[0].startswith("#") and e == 1:
                        cst, co = d.get(frozenset(), 0), d[ms[0]]
                        lo = co * 2 + cst
                        if co > 0 and lo > 0:
                            return {"eq": False, "noteq": True, "lt": False, "le": False, "gt": True, "ge": True}[op]
                        if co < 0 and lo < 0:
                            return {"eq": False, "noteq": True, "lt": True, "le": True, "gt": False, "ge": False}[op]
        return None

    def elt(self, t, vs, mul=False):
        if any(v is None for v in vs):
            return None
        n = max(len(v.axes) for v in vs)
        axes = []
        for i in range(n):
            xs = [v.axes[len(v.axes) - n + i] for v in vs if len(v.axes) - n + i >= 0]
            xs = [x for x in xs if x != ()]
            u = list(dict.fromkeys(xs))
            if not u:
                axes.append(())
            elif len(u) == 1:
                axes.append(u[0])
            elif all(iscat(x) for x in u) and len({tuple(p.axes for p in x[1]) for x in u}) == 1:
                axes.append(("cat", tuple(A(ps[0].axes, frozenset().union(*[p.src for p in ps]), ps[0].lvl if len({p.lvl for p in ps}) == 1 else None) for ps in zip(*[x[1] for x in u]))))
            elif any("?" in x or iscat(x) for x in u):
                axes.append(("?",))
            elif any(bad(x) for x in u):
                axes.append(("!",))
            else:
                self.err(t, "combines axes " + " and ".join(self.showax(x) for x in u))
                axes.append(("!",))
        src = frozenset().union(*[v.src for v in vs])
        lv = {v.lvl for v in vs if v.src}
        lvl = 0 if not lv else (lv.pop() if len(lv) == 1 else None)
        return A(axes, src, lvl)

    @staticmethod
    def showax(x):
        if iscat(x):
            return "[" + ", ".join(Lay.showax(p.axes[0]) for p in x[1]) + "]"
        if x == ():
            return "1"
        names = {"D": "coordinate", "K": "component", "S": "GP sample", "N": "training point"}
        return "-major ".join(names.get(y, y) for y in x)

    def dot(self, t, x, y):
        if x is None or y is None or not x.axes or not y.axes:
            return self.elt(t, [x, y], True) if x is not None and y is not None else None
        c1, c2 = x.axes[-1], y.axes[-2] if len(y.axes) > 1 else y.axes[0]
        if c1 != c2 and "?" not in c1 and "?" not in c2 and not iscat(c1) and not iscat(c2):
            self.err(t, f"contracts axes {self.showax(c1)} and {self.showax(c2)}")
        ax = x.axes[:-1] + (y.axes[:-2] + y.axes[-1:] if len(y.axes) > 1 else ())
        return A(ax, x.src | y.src, None)

    # -- indexing --------------------------------------------------------------------------------------------------------------
    def index(self, t, b, k):
        if is_const(k) and isinstance(cval(k), str):
            if b.k == "ite":
                return self.join([self.index(t, x, k) for x in b.a[1:]])
            if b.k == "dct":
                for q in b.a:
                    if q[0] is k:
                        return self.ev(q[1])
            return None
        v = self.ev(b)
        if v is None:
            return None
        ks = list(k.a) if k.k == "tup" else [k]
        axes, i = [], 0
        src = v.src
        n = sum(1 for x in ks if not self._newaxis(x) and not (is_const(x) and cval(x) is Ellipsis))
        for x in ks:
            if self._newaxis(x):
                axes.append(())
                continue
            if is_const(x) and cval(x) is Ellipsis:
                m = len(v.axes) - n
                axes += v.axes[i:i + m]
                i += m
                continue
            if i >= len(v.axes):
                return None
            ax = v.axes[i]
            i += 1
            if x.k == "slice":
                r = self.slice(t, ax, x)
                if r is None:
                    return None
                if isinstance(r, A):
                    src = r.src
                    if len(v.axes) > 1:
                        axes.append(r.axes[0])
                        continue
                    return A(r.axes, r.src, r.lvl)
                axes.append(r)
            elif x.k in ("lst", "tup") and len(x.a) == 1:
                axes.append(())
            else:
                e = self.ev(x)
                if x.k in ("elem", "loop", "const") or e is not None and e.axes == ():
                    continue
                return None
        axes += v.axes[i:]
        return A(axes, src, v.lvl)

    @staticmethod
    def _newaxis(x):
        return x is NONE or x.k == "mod" and x.a[0] == "numpy.newaxis"

    def slice(self, t, ax, s):
        lo, hi, st = s.a
        if lo is NONE and hi is NONE:
            if st is NONE:
                return ax
            return ax if False else ("?",)
        if st is not NONE and not (is_const(st) and cval(st) == 1):
            return ("?",)
        total = self._axterm(ax)
        if iscat(ax):
            if total is None:
                return None
            P = self.poly
            a = P(const(0)) if lo is NONE else P(lo)
            b = P(total) if hi is NONE else P(hi)
            a, b = self._wrap(a, total), self._wrap(b, total)
            off, starts = P(const(0)), []
            acc = const(0)
            for p in ax[1]:
                starts.append(P(acc))
                acc = mk("add", acc, self._axterm(p.axes[0]))
            starts.append(P(acc))
            if a in starts and b in starts:
                # a zero-length piece gives equal boundaries: choose the widest consistent match
                i = len(starts) - 1 - starts[::-1].index(a)
                j = starts.index(b)
                if i > j:
                    i, j = starts.index(a), len(starts) - 1 - starts[::-1].index(b)
                ps = [p for p in ax[1][i:j]]
                if i > j:
                    return None
                if len(ps) == 1:
                    return A(ps[0].axes[:1], ps[0].src, ps[0].lvl)
                return A([("cat", tuple(ps))], frozenset().union(*[p.src for p in ps]) if ps else frozenset())
            if all(self._dimpoly(x) for x in (a, b)):
                self.err(t, "the slice does not match the layout " + self.layout(ax))
                return A([("!",)])
            return None
        P = self.poly
        if total is None and (lo is NONE or hi is NONE):
            if lo is NONE and hi is not NONE:
                h = P(hi)
                if self._dimpoly(h) and not self._negative(h):
                    return self.axis_of(h)
            if hi is NONE and lo is not NONE:
                q = P(lo)
                if self._dimpoly(q) and self._negative(q):
                    return self.axis_of(P(mk("neg", lo)))
            return ("?",)
        if hi is NONE:
            q = P(lo)
            ln = P(mk("neg", lo)) if self._negative(q) else P(mk("add", total, mk("neg", lo)))
        elif lo is NONE:
            h = P(hi)
            ln = h if not self._negative(h) else P(mk("add", total, hi))
        else:
            ln = P(mk("add", hi, mk("neg", lo)))
        if total is not None and ln == P(total):
            return ax
        return self.axis_of(ln)

    def layout(self, ax):
        return "[" + ", ".join("/".join(sorted(p.src)) or self.showax(p.axes[0]) for p in ax[1]) + "]"

    @staticmethod
    def _dimpoly(p):
        return all(a.k == "sym" and a.a[0].startswith("#") for m in p for a, e in m)

    @staticmethod
    def _negative(p):
        return bool(p) and all(c < 0 for c in p.values())

    def _wrap(self, p, total):
        if self._negative(p):
            from .poly import _add
            return _add(self.poly(total), p)
        return p

    # -- calls -----------------------------------------------------------------------------------------------------------------
    def call(self, t):
        f, args, kws = t.a[0], t.a[1], dict(t.a[2])
        if f in KEEP and args:
            return self.ev(args[0])
        if f in ELT1 and args:
            v = self.ev(args[0])
            if v is None:
                return None
            if f == "np.log" or f == "np.exp":
                d = 1 if f == "np.log" else -1
                up = lambda l: None if l is None else l + d
                return A([("cat", tuple(A(p.axes, p.src, up(p.lvl)) for p in x[1])) if iscat(x) else x for x in v.axes], v.src, up(v.lvl))
            return v
        if f in ELT2:
            return self.elt(t, [self.ev(x) for x in args], mul=True)
        if f in ("np.maximum", "np.minimum"):
            return self.elt(t, [self.ev(x) for x in args])
        if f in RED and args:
            return self.reduce(t, f, args, kws)
        if f in ("np.item", "float", "int", "np.shape", "np.size", "len", "np.isscalar", "np.linalg.norm") and args:
            return SC if f != "np.shape" and "axis" not in kws else None
        if f in ALLOC:
            sh = args[0] if args else kws.get("shape")
            if sh is None:
                return None
            if sh.k in ("tup", "lst"):
                ds = sh.a
            elif sh.k == "attr" and sh.a[1] == "shape":
                v = self.ev(sh.a[0])
                return v and A(v.axes)
            elif sh.k == "call" and sh.a[0] == "np.shape":
                v = self.ev(sh.a[1][0])
                return v and A(v.axes)
            else:
                ds = (sh,)
            if len(ds) == 1 and is_const(ds[0]) and cval(ds[0]) == 0:
                return A([("cat", ())])
            return A([self.axis_of(x) for x in ds])
        if f in LIKE and args:
            v = self.ev(args[0])
            return v and A(v.axes)
        if f in ("np.ravel", "np.flatten"):
            v = self.ev(args[0]) if args else None
            o = kws.get("order", args[1] if len(args) > 1 else const("C"))
            return self.ravel(v, o)
        if f == "np.reshape":
            return self.reshape(t, args, kws)
        if f == "np.transpose":
            v = self.ev(args[0])
            if v is None:
                return None
            if len(args) == 1 and not kws:
                return A(v.axes[::-1], v.src, v.lvl)
            p = args[1:] if len(args) > 2 else (args[1].a if len(args) > 1 and args[1].k in ("tup", "lst") else (kws["axes"].a if "axes" in kws and kws["axes"].k in ("tup", "lst") else ()))
            if len(p) == len(v.axes) and all(is_const(x) for x in p):
                return A([v.axes[cval(x)] for x in p], v.src, v.lvl)
            return None
        if f in ("np.swapaxes", "np.moveaxis"):
            v = self.ev(args[0])
            if v is None or len(v.axes) != 2:
                return None
            return A(v.axes[::-1], v.src, v.lvl)
        if f == "np.expand_dims":
            v = self.ev(args[0])
            x = kws.get("axis", args[1] if len(args) > 1 else None)
            if v is None or x is None or not is_const(x):
                return None
            n = cval(x) if cval(x) >= 0 else cval(x) + len(v.axes) + 1
            return A(v.axes[:n] + ((),) + v.axes[n:], v.src, v.lvl)
        if f == "np.squeeze":
            v = self.ev(args[0])
            if v is None or any("?" in x for x in v.axes):
                return None
            return A([x for x in v.axes if x != ()], v.src, v.lvl)
        if f == "np.atleast_2d":
            v = self.ev(args[0])
            return v and (v if len(v.axes) > 1 else A(((),) * (2 - len(v.axes)) + v.axes, v.src, v.lvl))
        if f == "np.tile" and len(args) > 1 or f == "np.tile" and "reps" in kws:
            v = self.ev(args[0])
            r = args[1] if len(args) > 1 else kws["reps"]
            rs = r.a if r.k in ("tup", "lst") else (r,)
            if v is None:
                return None
            ax = [()] * (len(rs) - len(v.axes)) + list(v.axes)
            if any(iscat(x) for x in ax):
                return None
            rs = [None] * (len(ax) - len(rs)) + list(rs)
            out = []
            for x, q in zip(ax, rs):
                l = () if q is None else self.labels(q)
                out.append(("?",) if l is None or len(l) > 1 else l + x)
            return A(out, v.src, v.lvl)
        if f == "np.repeat" and len(args) > 1:
            v = self.ev(args[0])
            l = self.labels(args[1])
            if v is None or l is None or len(l) > 1:
                return None
            x = kws.get("axis", args[2] if len(args) > 2 else None)
            if x is None:
                v = self.ravel(v, const("C"))
                return v and A([v.axes[0] + l], v.src, v.lvl)
            if not is_const(x):
                return None
            ax = list(v.axes)
            ax[cval(x)] = ax[cval(x)] + l
            return A(ax, v.src, v.lvl)
        if f in ("np.outer", "np.kron"):
            x, y = self.ev(args[0]), self.ev(args[1])
            x, y = self.ravel(x, const("C")), self.ravel(y, const("C"))
            if x is None or y is None or iscat(x.axes[0]) or iscat(y.axes[0]):
                return None
            r = self.elt(t, [A((), x.src, x.lvl), A((), y.src, y.lvl)])
            return A((x.axes[0], y.axes[0]) if f == "np.outer" else (x.axes[0] + y.axes[0],), r.src, r.lvl)
        if f in ("np.dot", "np.matmul"):
            return self.dot(t, self.ev(args[0]), self.ev(args[1]))
        if f == "np.diag":
            v = self.ev(args[0])
            if v is None:
                return None
            return A((v.axes[0], v.axes[0]) if len(v.axes) == 1 else v.axes[:1], v.src, v.lvl)
        if f in ("np.concatenate", "np.hstack", "np.append", "np.vstack", "np.r_"):
            if f == "np.append":
                ps = list(args[:2])
                x = kws.get("axis", args[2] if len(args) > 2 else None)
                flat = x is None or x is NONE
            else:
                if not args or args[0].k not in ("tup", "lst"):
                    v = self.ev(args[0]) if args else None
                    return v if v is not None and iscat(v.axes[0] if v.axes else ()) else None
                ps = list(args[0].a)
                x = kws.get("axis", args[1] if len(args) > 1 else const(0))
                flat = False
            vs = [self.ev(q) for q in ps]
            if any(v is None for v in vs):
                return None
            if flat:
                vs = [self.ravel(v, const("C")) for v in vs]
                if any(v is None for v in vs):
                    return None
            if not vs:
                return A([("cat", ())])
            n = max(len(v.axes) for v in vs)
            if f == "np.hstack" and n > 1 or f == "np.vstack" and n == 1:
                return None
            if not flat and (not is_const(x) or cval(x) not in (0, -n)):
                return None
            return self.cat(t, vs)
        return None

    def cat(self, t, vs):
        ps, rest = [], None
        for v in vs:
            if not v.axes:
                return None
            ax = v.axes[0]
            if iscat(ax):
                ps += list(ax[1])
            else:
                ps.append(A((ax,) + v.axes[1:], v.src, v.lvl))
            if len(v.axes) > 1:
                r = v.axes[1:]
                if rest is None:
                    rest = r
                elif rest != r and not any("?" in x for x in rest + r):
                    self.err(t, "concatenates arrays with different trailing axes")
        return A([("cat", tuple(A(p.axes[:1], p.src, p.lvl) for p in ps))] + list(rest or ()), frozenset().union(*[v.src for v in vs]) if vs else frozenset())

    def ravel(self, v, o):
        if v is None or not is_const(o):
            return None
        if len(v.axes) == 1:
            return v
        ax = v.axes if cval(o) != "F" else v.axes[::-1]
        if any(iscat(x) for x in ax):
            r = [x for x in ax if x != ()]
            return A([r[0]], v.src, v.lvl) if len(r) == 1 else None
        return A([sum(ax, ())], v.src, v.lvl)

    def reduce(self, t, f, args, kws):
        v = self.ev(args[0])
        x = kws.get("axis", args[1] if len(args) > 1 and f not in ("np.quantile",) else NONE)
        if x is NONE or x is None:
            return SC
        if v is None or not is_const(x) or not isinstance(cval(x), int):
            return None
        n = cval(x)
        if not -len(v.axes) <= n < len(v.axes):
            return None
        n %= len(v.axes)
        kd = kws.get("keepdims")
        ax = v.axes[:n] + (((),) if kd is TRUE else ()) + v.axes[n + 1:]
        return A(ax, v.src, v.lvl if f not in ("np.any", "np.all") else 0)

    def reshape(self, t, args, kws):
        v = self.ev(args[0])
        sh = args[1:] if len(args) != 2 or args[1].k not in ("tup", "lst") else args[1].a
        if len(args) == 1:
            sh = kws.get("newshape", kws.get("shape"))
            if sh is None:
                return None
            sh = sh.a if sh.k in ("tup", "lst") else (sh,)
        if args[1:] and args[-1].k == "const" and isinstance(cval(args[-1]), str):
            order, sh = cval(args[-1]), (args[1].a if args[1].k in ("tup", "lst") else (args[1],))
        else:
            o = kws.get("order", const("C"))
            if not is_const(o):
                return None
            order = cval(o)
        if v is None:
            return None
        if len(sh) == 1 and sh[0].k == "attr" and sh[0].a[1] == "shape":
            w = self.ev(sh[0].a[0])
            if w is None or any(iscat(x) for x in w.axes):
                return None
            want = [tuple(sorted(x)) for x in w.axes]
        else:
            want = []
            for q in sh:
                if is_const(q) and cval(q) == -1:
                    want.append(-1)
                else:
                    l = self.labels(q)
                    if l is None:
                        return None
                    want.append(l)
        nonunit = [x for x in v.axes if x != ()]
        if any(iscat(x) for x in v.axes):
            # only adding or removing unit axes
            if len(nonunit) == 1 and sum(1 for w in want if w != ()) == 1:
                return A([nonunit[0] if w != () else () for w in want], v.src, v.lvl)
            return None
        tot = sum(v.axes if order != "F" else v.axes[::-1], ())
        if "?" in tot or "!" in tot:
            if len(nonunit) == 1 and sum(1 for w in want if w != ()) == 1:
                return A([nonunit[0] if w != () else () for w in want], v.src, v.lvl)
            return None
        if want.count(-1) == 1:
            rem = list(tot)
            for w in want:
                if w != -1:
                    for q in w:
                        if q not in rem:
                            return None
                        rem.remove(q)
            want[want.index(-1)] = tuple(sorted(rem))
        elif want.count(-1) > 1:
            return None
        if sorted(tot) != sorted(sum(want, ())):
            return None
        seq = want if order != "F" else want[::-1]
        out, pos = [], 0
        for w in seq:
            got = tot[pos:pos + len(w)]
            pos += len(w)
            if tuple(sorted(got)) != w:
                self.err(t, f"splits a {self.showax(tot)} sequence as if it were ordered differently")
                out = [("!",)] * len(seq)
                break
            out.append(got)
        if order == "F":
            out = out[::-1]
        return A(out, v.src, v.lvl)
