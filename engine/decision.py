"""Decision tables: truth of extracted boolean terms under assignments of recognised conditions."""
from itertools import product

from .poly import Norm, _add
from .terms import *

INTS = {"int", "float", "bool", "np.int64", "np.float64", "math.ceil", "np.ceil", "np.asarray", "np.array", "np.squeeze"}


def canon1(t):
    """one spelling per operation (ceil, clip, min, max, sum, all)"""
    if t.k != "call":
        return None
    n, a = t.a[0], t.a[1]
    if n in ("np.ceil", "math.ceil") and len(a) == 1:
        return mk("call", "ceil", tuple(a), (), None)
    if n in ("np.floor", "math.floor") and len(a) == 1:
        return mk("call", "floor", tuple(a), (), None)
    if n in ("int", "float", "np.int64", "np.float64") and len(a) == 1:
        return a[0]
    if n in ("np.minimum", "np.maximum") and len(a) == 2:
        return mk("call", n[3:6], tuple(a), (), None)
    if n in ("np.amax", "np.max", "max", "np.amin", "np.min", "min", "np.nanmax", "np.nanmin") and len(a) == 1:
        x = a[0]
        m = "max" if "max" in n else "min"
        if x.k in ("lst", "tup"):
            return mk("call", m, tuple(x.a), (), None)
        return mk("call", "v" + m, (x,), (), None)
    if n in ("np.astype", "np.copy", "np.ravel", "np.asarray", "np.array", "np.flatten", "np.atleast_1d") and a:
        return a[0]
    if n == "np.logical_not" and len(a) == 1:
        return mk("inv", a[0])
    if n == "np.logical_and" and len(a) == 2:
        return mk("bin", "&", a[0], a[1])
    return None


class Conditions:
    """evaluate boolean terms given role(term) -> (name, value when true) | ("bad", why) | None"""

    def __init__(self, role):
        self.N = Norm()
        self._role, self.memo = role, {}

    def canon(self, t):
        return rewrite(t, canon1)

    def poly(self, t):
        return self.N.poly(self.canon(strip(t)))

    def same(self, a, b):
        return not _add(self.poly(a), self.poly(b), -1)

    def diff(self, a, b):
        return _add(self.poly(a), self.poly(b), -1)

    def role(self, t):
        if t not in self.memo:
            self.memo[t] = self._role(t)
        return self.memo[t]

    def ev(self, t, asg, facts=None):
        if t is TRUE or t is FALSE:
            return t is TRUE
        r = self.role(t)
        if r and r[0] != "bad":
            v = asg.get(r[0])
            return None if v is None else v == r[1]
        if t.k == "call" and t.a[0] in ("bool", "int") and t.a[1]:
            return self.ev(t.a[1][0], asg, facts)
        if t.k in ("not", "inv"):
            v = self.ev(t.a[0], asg, facts)
            return None if v is None else not v
        if t.k in ("and", "or") or t.k == "bin" and t.a[0] in ("&", "|") or t.k == "call" and t.a[0] in ("np.logical_and", "np.logical_or"):
            z = t.k == "or" or t.k == "bin" and t.a[0] == "|" or t.k == "call" and t.a[0] == "np.logical_or"
            xs = t.a if t.k in ("and", "or") else t.a[1:] if t.k == "bin" else t.a[1]
            vs = [self.ev(x, asg, facts) for x in xs]
            if z in vs:
                return z
            return None if None in vs else not z
        if t.k == "ite":
            c = self.ev(t.a[0], asg, facts)
            if c is None:
                x, y = self.ev(t.a[1], asg, facts), self.ev(t.a[2], asg, facts)
                return x if x == y else None
            return self.ev(t.a[1] if c else t.a[2], asg, facts)
        return (facts or {}).get(t)

    def pick(self, t, asg, facts=None):
        """value of a term whose choices (ite) are decided by the assignment"""
        while t.k == "ite":
            c = self.ev(t.a[0], asg, facts)
            if c is None:
                return t
            t = t.a[1] if c else t.a[2]
        return t

    def consistent(self, facts, asg):
        """the path is taken under the assignment, as far as it is decided"""
        return all(self.ev(t, asg) in (v, None) for t, v in facts.items())

    def opaque(self, facts):
        """atomic conditions of a path that are not recognised"""
        return [t for t in facts if t.k not in ("and", "or", "not", "ite") and not self.role(t) and not (t.k == "bin" and t.a[0] in ("&", "|"))]


def assignments(names):
    for bits in product((False, True), repeat=len(names)):
        yield dict(zip(names, bits))
