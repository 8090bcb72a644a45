"""Algebraic normal form of value terms: polynomials over atoms, with common NumPy spellings unified.

Two terms with the same normal form denote the same real function; different normal forms over the same
atoms denote different ones.  Pure term rewriting: nothing is executed or solved.
"""
import math
from fractions import Fraction

from .terms import *
from .terms import T, mk

UN = {"np.negative": "neg", "np.square": "sq", "np.sqrt": "sqrt", "np.reciprocal": "recip", "math.sqrt": "sqrt"}
BIN = {"np.add": "+", "np.subtract": "-", "np.multiply": "*", "np.divide": "/", "np.true_divide": "/", "np.power": "**", "np.float_power": "**"}
FOLD = {"np.log": math.log, "math.log": math.log, "np.exp": math.exp, "np.log1p": math.log1p, "math.exp": math.exp}
WRAP = {"np.copy", "np.asarray", "np.array", "np.asanyarray", "copy.copy", "copy.deepcopy", "np.astype", "np.float64", "float", "np.ascontiguousarray"}
COMM = {"np.maximum", "np.minimum", "np.fmax", "np.fmin"}
PI = mk("mod", "numpy.pi")


class P(dict):
    """monomial (frozenset of (atom, exponent)) -> coefficient"""


def num(c):
    return P({frozenset(): c}) if c else P()


def _add(a, b, s=1):
    r = P(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if isinstance(v, float) and abs(v) < 1e-12:
            v = 0
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return frozenset(d.items())


def _mul(a, b):
    r = P()
    for m, c in a.items():
        for n, d in b.items():
            k = _mm(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _pow(a, e):
    if isinstance(e, Fraction) and e.denominator == 1 and 0 <= e <= 6:
        r = num(Fraction(1))
        for _ in range(int(e)):
            r = _mul(r, a)
        return r
    if len(a) == 1:
        (m, c), = a.items()
        if e == -1 or float(c) > 0:
            cc = _cpow(c, e)
            if cc is not None:
                return P({frozenset((x, y * e) for x, y in m): cc})
    if not a:
        return None
    # scale-free power of a sum
    k, at = _content(a)
    if float(k) > 0 or (isinstance(e, Fraction) and e.denominator == 1):
        cc = _cpow(k, e)
        if cc is not None:
            return P({frozenset([(at, e)]): cc})
    return P({frozenset([(freeze(a), e)]): Fraction(1)})


def _cpow(c, e):
    try:
        if isinstance(e, Fraction) and e.denominator == 1 and isinstance(c, Fraction):
            return c ** int(e)
        return num_of(float(c) ** float(e))
    except Exception:
        return None


_ORD = {}


def _key(m):
    return tuple(sorted((_ORD.setdefault(a, len(_ORD)), e) for a, e in m))


def _content(a):
    """(k, atom) with a = k * atom, atom's leading coefficient 1"""
    lead = min(a, key=lambda m: (len(m) == 0, _key(m)))
    k = a[lead]
    return k, freeze(P({m: _div(c, k) for m, c in a.items()}))


def _div(c, k):
    if isinstance(c, Fraction) and isinstance(k, Fraction):
        return c / k
    return num_of(float(c) / float(k))


def num_of(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if v == int(v) if math.isfinite(v) else False:
        return Fraction(int(v))
    f = Fraction(v).limit_denominator(10000)
    if abs(float(f) - v) < 1e-13 * max(1, abs(v)):
        return f
    return float(v)


def freeze(a):
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1 and len(m) == 1:
            (x, e), = m
            if e == 1:
                return x
    return mk("poly", frozenset((m, round(c, 11) if isinstance(c, float) else c) for m, c in a.items()))


class Norm:
    def __init__(self, subst=None):
        """subst: function term -> term or None applied first (e.g. dropping masks)"""
        self.subst = subst
        self.memo = {}

    def n(self, t):
        """normal form as a term"""
        return freeze(self.poly(t))

    def poly(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._poly(t)
        self.memo[t] = r
        return r

    def atom(self, t):
        return P({frozenset([(t, Fraction(1))]): Fraction(1)})

    def _poly(self, t):
        if self.subst is not None:
            s = self.subst(t)
            if s is not None and s is not t:
                return self.poly(s)
        k, a = t.k, t.a
        if k == "poly":
            return P({m: c for m, c in a[0]})
        if k == "const":
            v = cval(t)
            if isinstance(v, (int, float)) and (not isinstance(v, float) or math.isfinite(v)):
                return num(num_of(v))
            return self.atom(t)
        if t is PI:
            return num(math.pi)
        if k == "add":
            r = P()
            for x in a:
                r = _add(r, self.poly(x))
            return r
        if k == "mul":
            r = num(Fraction(1))
            for x in a:
                r = _mul(r, self.poly(x))
            return r
        if k == "neg":
            return _mul(num(Fraction(-1)), self.poly(a[0]))
        if k == "bin":
            r = self.binop(a[0], a[1], a[2])
            if r is not None:
                return r
        if k == "call":
            f, args, kws = a[0], a[1], a[2]
            if f in WRAP and args:
                return self.poly(args[0])
            if f in BIN and len(args) == 2 and not kws:
                r = self.binop(BIN[f], args[0], args[1])
                if r is not None:
                    return r
            if f in UN and len(args) == 1 and not kws:
                x = self.poly(args[0])
                u = UN[f]
                if u == "neg":
                    return _mul(num(Fraction(-1)), x)
                r = _pow(x, {"sq": Fraction(2), "sqrt": Fraction(1, 2), "recip": Fraction(-1)}[u])
                if r is not None:
                    return r
            if f in ("scipy.special.expit",) and len(args) == 1:
                e = self.atom(mk("call", "np.exp", (freeze(_mul(num(Fraction(-1)), self.poly(args[0]))),), (), None))
                return _pow(_add(num(Fraction(1)), e), Fraction(-1))
            if f == "np.logaddexp" and len(args) == 2 and is_const(args[0]) and cval(args[0]) == 0:
                return self.poly(call("np.log1p", [call("np.exp", [args[1]])]))
            if f in FOLD and len(args) == 1 and not kws:
                x = self.poly(args[0])
                g = "np." + f.split(".")[1]
                if not x or (len(x) == 1 and frozenset() in x):
                    try:
                        return num(num_of(FOLD[f](float(x.get(frozenset(), 0)))))
                    except (ValueError, OverflowError):
                        pass
                if g == "np.log":
                    if x.get(frozenset()) == 1 and len(x) > 1:      # log(1 + y)
                        y = P(x)
                        del y[frozenset()]
                        return self.atom(mk("call", "np.log1p", (freeze(y),), (), None))
                    if len(x) == 1:                 # log of a monomial
                        (m, c), = x.items()
                        if c > 0 and (c != 1 or len(m) > 1 or any(e != 1 for _, e in m)):
                            r = num(num_of(math.log(float(c)))) if c != 1 else P()
                            for at, e in m:
                                r = _add(r, _mul(num(e), self.atom(mk("call", "np.log", (at,), (), None))))
                            return r
                    elif x:
                        kf, at = _content(x)
                        if kf > 0 and kf != 1:
                            return _add(num(num_of(math.log(float(kf)))), self.atom(mk("call", "np.log", (at,), (), None)))
                if g == "np.exp" and len(x) == 1:
                    (m, c), = x.items()
                    if c == 1 and len(m) == 1:
                        (at, e), = m
                        if e == 1 and at.k == "call" and at.a[0] == "np.log":
                            return self.poly(at.a[1][0])
                return self.atom(mk("call", g, (freeze(x),), (), None))
            nargs = tuple(self.sub(x) for x in args)
            if f in COMM:
                nargs = tuple(sorted(nargs, key=lambda x: _ORD.setdefault(x, len(_ORD))))
            return self.atom(mk("call", f, nargs, tuple((n, self.sub(v)) for n, v in kws), None))
        if k in ("sym", "mod", "fn", "cls"):
            return self.atom(t)
        return self.atom(rebuild(t, self.sub))

    def sub(self, x):
        return self.n(x)

    def binop(self, op, x, y):
        if op == "+":
            return _add(self.poly(x), self.poly(y))
        if op == "-":
            return _add(self.poly(x), self.poly(y), -1)
        if op == "*":
            return _mul(self.poly(x), self.poly(y))
        if op == "/":
            d = _pow(self.poly(y), Fraction(-1)) if self.poly(y) else None
            return _mul(self.poly(x), d) if d is not None else None
        if op == "**":
            e = self.poly(y)
            if not e:
                return num(Fraction(1))
            if len(e) == 1 and frozenset() in e:
                return _pow(self.poly(x), e[frozenset()])
        return None


def heads(t):
    """function names and operators occurring in a normal form"""
    out = set()
    for x in subterms_p(t):
        if x.k == "call":
            out.add(x.a[0])
        elif x.k not in ("poly", "const", "sym"):
            out.add(x.k)
    return out


def subterms_p(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "poly":
            for m, c in x.a[0]:
                st += [a for a, e in m]
        else:
            st += list(children(x))


def showp(t, d=6):
    if t.k == "poly":
        if d <= 0:
            return "…"
        out = []
        for m, c in t.a[0]:
            f = [showp(a, d - 1) + ("" if e == 1 else f"^{e}") for a, e in m]
            out.append("·".join(([] if c == 1 and f else [str(c)]) + f))
        return "(" + " + ".join(sorted(out)) + ")"
    if t.k == "call":
        return f"{t.a[0]}({', '.join(showp(x, d - 1) for x in t.a[1])})"
    return show(t, d)
