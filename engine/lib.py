"""Helpers shared by the rules."""
import ast

from .absint import baseline_funcs
from .program import dotted
from .terms import *
from .terms import T

BASELINE = baseline_funcs()
_pm = {}


def parent_map(f):
    k = id(f.node)
    if k not in _pm:
        m = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                m[c] = n
        _pm[k] = (f.node, m)
    return _pm[k][1]


def root_attr(t):
    """(base, attr) of the object attribute a container term lives in"""
    d = 0
    while d < 40:
        if t.k == "attr":
            return t.a[0], t.a[1]
        if t.k in ("idx", "upd"):
            t = t.a[0]
        elif t.k == "havoc" and len(t.a) > 2 and isinstance(t.a[2], T):
            return t.a[2], t.a[1]
        elif t.k == "loop" and len(t.a) > 2:
            return t.a[2], t.a[1]
        elif t.k == "call" and t.a[0] in VIEWS and t.a[1]:
            t = t.a[1][0]
        else:
            return None
        d += 1
    return None


VIEWS = {"np.transpose", "np.ravel", "np.reshape", "np.squeeze", "np.atleast_1d", "np.atleast_2d", "np.asarray",
         "np.swapaxes", "np.asfarray", "np.expand_dims", "np.broadcast_to", "np.moveaxis", "np.diagonal", "np.asanyarray"}


def norm_sum(t):
    """canonical multiset of an add-chain with folded numeric constants"""
    items, c = [], 0

    def go(x, sgn):
        nonlocal c
        if x.k == "add":
            for y in x.a:
                go(y, sgn)
        elif x.k == "bin" and x.a[0] == "-":
            go(x.a[1], sgn)
            go(x.a[2], -sgn)
        elif x.k == "neg":
            go(x.a[0], -sgn)
        elif is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool):
            c += sgn * cval(x)
        else:
            items.append((strip(x), sgn))
    go(t, 1)
    cnt = {}
    for x, s in items:
        cnt[x] = cnt.get(x, 0) + s
    return frozenset((x, n) for x, n in cnt.items() if n), c


SHAPE = VIEWS | {"np.copy", "copy.copy", "copy.deepcopy", "np.array", "np.astype"}


def unshape(t, copies=True):
    """strip reshaping/copying wrappers (value-preserving element-wise)"""
    while True:
        if t.k == "call" and t.a[0] in SHAPE and t.a[1]:
            if t.a[0] == "np.transpose":
                return t
            t = t.a[1][0]
        else:
            return t


def same_value(a, b):
    return a is b or strip(a) is strip(b) or strip(unshape(a)) is strip(unshape(b))


def attr_writes(f):
    """(base-expr, attr-name, node) for every assignment to / in-place write into an attribute"""
    for n in ast.walk(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = list(n.targets)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = list(n.targets)
        elif isinstance(n, ast.For):
            tg = [n.target]
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                yield n.args[0], n.args[1].value, n
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "fill", "sort", "resize", "extend", "pop", "clear", "update", "put", "itemset") \
                    and isinstance(n.func.value, ast.Attribute):
                yield n.func.value.value, n.func.value.attr, n
            for k in n.keywords:
                if k.arg == "out" and isinstance(k.value, ast.Attribute):
                    yield k.value.value, k.value.attr, n
        while tg:
            x = tg.pop()
            if isinstance(x, (ast.Tuple, ast.List)):
                tg += x.elts
            elif isinstance(x, ast.Starred):
                tg.append(x.value)
            else:
                y = x
                while isinstance(y, ast.Subscript):
                    y = y.value
                if isinstance(y, ast.Attribute):
                    yield y.value, y.attr, n


def is_logger_expr(e, f):
    d = dotted(e) or ""
    last = d.split(".")[-1]
    return last.startswith("function_logger") or last.startswith("func_logger") or last == "flogger" or (
        last == "self" and f.cls is not None and f.cls.name == "FunctionLogger")


_callers = {}


def callers_of(p, f):
    """functions that mention f by name (conservative)"""
    key = (id(p), f.qual)
    if key in _callers:
        return _callers[key]
    out = set()
    for g in p.all_func_nodes():
        if g.node is f.node:
            continue
        for n in ast.walk(g.node):
            if (isinstance(n, ast.Name) and n.id == f.name) or (isinstance(n, ast.Attribute) and n.attr == f.name):
                out.add(g.qual)
                break
    _callers[key] = out
    return out


def part_of_caller(p, f):
    """a helper that is not an operation of its own: new, and called by other functions, inside which it is analysed with its arguments"""
    if f.qual in BASELINE or f.name.startswith("__") or any(hasattr(t, f.name) for t in (dict, list, set, str)):
        return False
    key = (id(p), f.qual, "calls")
    if key not in _callers:
        _callers[key] = any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name or isinstance(n.func, ast.Attribute) and n.func.attr == f.name)
                            for g in p.all_func_nodes() if g.node is not f.node for n in ast.walk(g.node))
    return _callers[key]


def only_called_from(p, f, allowed, _seen=()):
    """a non-baseline helper all of whose users are in `allowed` (transitively)"""
    if f.qual in BASELINE or f.qual in _seen:
        return False
    cs = callers_of(p, f)
    if not cs:
        return False
    for c in cs:
        if c in allowed:
            continue
        g = p.functions.get(c)
        if g is None or not only_called_from(p, g, allowed, _seen + (f.qual,)):
            return False
    return True


def program_events(p, label, mkconfig, only=None):
    """(function, event, interp) over an independent abstract run of every function"""
    from .absint import Interp
    out, names = [], set()
    for f in list(p.all_func_nodes()):
        if only is not None and not only(f):
            continue
        I = Interp(p, mkconfig())
        seen = set()
        for s, c, v in I.run(f):
            for e in s.events:
                k = e.key
                if k not in seen:
                    seen.add(k)
                    out.append((f, e, I))
        names |= I.stats["functions"]
    return out, names


_alias = {}


def aliasing(p):
    from .alias import Aliasing
    if id(p) not in _alias:
        _alias[id(p)] = (p, Aliasing(p))
    return _alias[id(p)][1]


def key_parts(k):
    """index components without full slices / newaxis-like padding"""
    ks = list(k.a) if k.k == "tup" else [k]
    return [x for x in ks if not (x.k == "slice" and all(y is NONE for y in x.a)) and x is not const(Ellipsis if False else "...")]


def final_value(s, base, name):
    return s.store.get(attr(base, name))


def self_attr(n):
    return attr(sym("self"), n)


def flag_fact(facts, t):
    """truth of term t, under facts; None if unknown"""
    return facts.get(t)


def bind(p, qual, args, kws):
    """{parameter name: argument term} of a call to an in-repo function (constructors: without self)"""
    f = p.functions.get(qual)
    names = None
    if f is None and qual in p.classes:
        f = p.method(qual, "__init__")
        names = f.posonly[1:] if f else None
    if f is None:
        return {}
    names = names if names is not None else list(f.posonly)
    out = {}
    for i, a in enumerate(args):
        if a.k == "star":
            break
        if i < len(names):
            out[names[i]] = a
    for k, v in kws:
        if k != "**":
            out[k] = v
    return out


def default_of(p, qual, name):
    """constant default of a parameter as a term, or None"""
    f = p.functions.get(qual) or (p.method(qual, "__init__") if qual in p.classes else None)
    if f is None:
        return None
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name and isinstance(d, ast.Constant):
            return const(d.value)
    return None


_sweeps = {}


def sweep(p, inline=None):
    """[(function, interp, events)]: every call, store, operator and read of every function, joined paths"""
    key = (id(p), tuple(sorted((inline or {}).items())))
    if key in _sweeps:
        return _sweeps[key][1]
    from .absint import Config, Interp
    out = []
    for f in p.all_func_nodes():
        I = Interp(p, Config(collect=True, track_op=True, track_call=lambda n: True, track_store=lambda b, n: True,
                             track_read=lambda b, k: True, inline=(inline or {}).get(f.qual, ())))
        I.run(f)
        out.append((f, I, I.log))
    _sweeps[key] = (p, out)
    return out


def holds_with(I, facts, assume):
    """False if the assumptions {term: bool} contradict the facts (a path with these facts cannot satisfy them)"""
    from .absint import State
    s = State()
    s.facts = dict(facts)
    for t, v in assume.items():
        cur = I.truth(t, s)
        if cur is not None and cur != v:
            return False
        if cur is None and not I._put(s, t, v):
            return False
    for t, v in facts.items():
        z = State()
        z.facts = dict(s.facts)
        if t in assume:
            continue
        z.facts.pop(t, None)
        if t.k in ("and", "or", "not", "ite"):
            r = I.truth(t, z)
            if r is not None and r != v:
                return False
    return True


def fresh(t, d=0):
    """the term denotes an object created here (copy or construction), not a shared one"""
    if d > 10:
        return False
    if t.k == "call":
        return t.a[0] in ("copy.deepcopy", "copy.copy", "np.copy") or t.a[0].endswith(".__new__") or t.a[0][:1].isupper() and "." not in t.a[0]
    if t.k == "ite":
        return fresh(t.a[1], d + 1) and fresh(t.a[2], d + 1)
    if t.k == "phi":
        return all(fresh(x, d + 1) for x in t.a[2])
    if t.k in ("upd",):
        return fresh(t.a[0], d + 1)
    if t.k in ("dct", "lst", "set", "tup"):
        return True
    return False


def ini_names(p):
    """option names declared by the shipped configuration files (same reading as the program's)"""
    import configparser
    import os
    from .program import REPO
    base = os.path.join(REPO, "pyvbmc", "vbmc", "option_configs")
    out = {}
    for fn in sorted(os.listdir(base)):
        if fn.endswith(".ini"):
            c = configparser.ConfigParser(comment_prefixes="", allow_no_value=True)
            c.optionxform = str
            c.read(os.path.join(base, fn))
            for sec in c.sections():
                for k, v in c.items(sec):
                    if "#" not in k:
                        out[k] = (fn, v)
    return out


def dict_entries(s, v):
    """{key: value term} of a dictionary built on a path (state needs tracked item stores), returned as v"""
    out = {}
    chain = []
    x = v
    while x.k == "upd":
        chain.append((x.a[1], x.a[2]))
        x = x.a[0]
    if x.k == "dct":
        for k, y in x.a:
            if is_const(k):
                out[cval(k)] = y
    for k, y in reversed(chain):
        if is_const(k):
            out[cval(k)] = y
    for e in s.events:
        if e.kind == "setidx" and is_const(e.sig[1]):
            b = e.sig[0]
            while b.k == "upd":
                b = b.a[0]
            if b is x or b is v:
                out[cval(e.sig[1])] = e.sig[2]
    return out
