"""Hash-consed value-number terms."""


class T:
    __slots__ = ("k", "a", "_r")

    def __repr__(self):
        return show(self)


_TAB = {}


def mk(k, *a):
    key = (k, a)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.k, t.a, t._r = k, a, None
        _TAB[key] = t
    return t


class _C:
    """constant wrapper distinguishing 1, 1.0, True"""
    __slots__ = ()


def const(v):
    if isinstance(v, (list, dict, set)):
        raise TypeError
    return mk("const", type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.k == "const"


def cval(t):
    return t.a[1]


def sym(n):
    return mk("sym", n)


def attr(b, n):
    return mk("attr", b, n)


def idx(b, k):
    return mk("idx", b, k)


def call(f, args, kws=(), site=None):
    return mk("call", f, tuple(args), tuple(sorted(kws)) if kws else (), site)


def fname(t):
    return t.a[0] if t.k == "call" else None


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def _tup(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tup(y)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f):
    """map f over direct T children"""
    def m(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        return x
    return mk(t.k, *[m(x) for x in t.a])


def rewrite(t, f, memo=None):
    """bottom-up rewrite: f(term)->term or None"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = t
    n = rebuild(t, lambda x: rewrite(x, f, memo))
    r = f(n)
    if r is not None:
        n = r
    memo[t] = n
    return n


_SITED = {"call": 3, "phi": 0, "loop": 0, "elem": 1, "havoc": 0}


def strip(t, memo=None):
    """remove allocation/call-site identities"""
    def f(x):
        if x.k == "call" and x.a[3] is not None:
            return mk("call", x.a[0], x.a[1], x.a[2], None)
        if x.k == "elem":
            return mk("elem", x.a[0], None)
        return None
    return rewrite(t, f, memo)


def show(t, d=6):
    if d <= 0:
        return "…"
    s = lambda x: show(x, d - 1) if isinstance(x, T) else (
        "(" + ", ".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    k, a = t.k, t.a
    if k == "const":
        return repr(a[1])
    if k == "sym":
        return a[0]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "call":
        args = [s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]
        return f"{a[0]}({', '.join(args)})"
    if k == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k in ("add", "mul"):
        return "(" + (" + " if k == "add" else " * ").join(s(x) for x in a) + ")"
    if k == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "not":
        return f"not {s(a[0])}"
    if k == "inv":
        return f"~{s(a[0])}"
    if k == "neg":
        return f"-{s(a[0])}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x) for x in a) + ")"
    if k in ("tup", "lst", "set"):
        return k + "(" + ", ".join(s(x) for x in a) + ")"
    if k == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if k == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    return k + "(" + ", ".join(s(x) for x in a) + ")"
