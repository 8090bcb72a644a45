"""Interprocedural may-alias / may-mutate analysis (flow-sensitive inside a function, summaries across calls).

A value is a set of locations (root, path): root = ("P",param) | ("G",name) | ("N",site) ; path = tuple of fields.
NumPy views (slicing, reshape, ravel, .T, ...) alias their base; arithmetic, copies and advanced indexing do not.
A mutation is (location, field, node, function, how).
"""
import ast

from .absint import TYPED_NAMES, baseline_funcs
from .program import dotted

VIEWF = {"asarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "swapaxes",
         "broadcast_to", "expand_dims", "moveaxis", "asanyarray", "asfarray", "real", "imag", "diagonal", "flip", "fliplr",
         "flipud", "rollaxis", "ascontiguousarray", "asfortranarray", "require", "split", "array_split", "hsplit", "vsplit",
         "rot90", "real_if_close"}
VIEWM = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal", "get", "items", "values", "setdefault",
         "__getitem__"}
VIEWA = {"T", "flat", "real", "imag", "mT"}
INPLACE_M = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard",
             "sort", "reverse", "fill", "resize", "itemset", "put", "partition", "setflags", "__setitem__", "byteswap"}
INPLACE_F = {"numpy.fill_diagonal": 0, "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
             "numpy.random.shuffle": 0, "numpy.put_along_axis": 0, "numpy.add.at": 0, "numpy.subtract.at": 0,
             "numpy.multiply.at": 0, "random.shuffle": 0, "numpy.ndarray.sort": 0}
# effects of gpyreg's GP methods on their receiver
GP_MUT = {"update", "fit", "set_hyperparameters", "set_bounds", "set_priors", "clean", "set_from_gp", "temporary_data"}
SHAPE_ATTRS = {"shape", "size", "ndim", "dtype", "D", "K"}
MAXPATH = 4
EMPTY = frozenset()


class Mut(tuple):
    """(loc, field, where, func, how)"""
    __slots__ = ()
    loc = property(lambda s: s[0])
    field = property(lambda s: s[1])
    where = property(lambda s: s[2])
    func = property(lambda s: s[3])
    how = property(lambda s: s[4])


def ext(loc, f):
    r, p = loc
    if len(p) >= MAXPATH:
        return (r, p)
    if f == "[]" and p and p[-1] == "[]":
        return loc
    return (r, p + (f,))


def under(loc, base):
    return loc[0] == base[0] and loc[1][: len(base[1])] == base[1]


class St:
    __slots__ = ("env", "heap", "shallow", "dead")

    def __init__(self):
        self.env, self.heap, self.shallow, self.dead = {}, {}, {}, False

    def copy(self):
        s = St()
        s.env, s.heap, s.shallow, s.dead = dict(self.env), dict(self.heap), self.shallow, self.dead
        return s


class Summary:
    def __init__(self):
        self.mut = {}        # (loc, field) -> Mut
        self.ret = EMPTY
        self.heap = {}       # (loc, field) -> locs
        self.types = {}
        self.retelts = None

    def key(self):
        return (frozenset(self.mut), self.ret, tuple(sorted((k, v) for k, v in self.heap.items() if v)).__repr__())


class Aliasing:
    def __init__(self, p, passes=6):
        self.p = p
        self.sum = {f.qual: Summary() for f in p.all_func_nodes()}
        self.funcs = {f.qual: f for f in p.all_func_nodes()}
        self.retained = {}
        for i in range(passes):
            ch = False
            for f in self.funcs.values():
                s = FuncRun(self, f).run()
                if s.key() != self.sum[f.qual].key():
                    ch = True
                self.sum[f.qual] = s
            if not ch:
                break
        self.passes = i + 1

    def mutated(self, qual):
        """mutations of caller-visible state: P and G rooted"""
        return [m for m in self.sum[qual].mut.values() if m.loc[0][0] in "PG"]


class FuncRun:
    def __init__(self, A, f):
        self.A, self.p, self.f, self.mod = A, A.p, f, f.mod
        self.mut, self.types, self.ret = {}, {}, EMPTY
        self.retelts = "?"
        self.heap_out = {}
        self.depth = 0
        self.closure_stack = []
        self.scalars = set()
        self.brk = []
        self._lastelts = {}

    # -------------------------------------------------- driver
    def run(self):
        f = self.f
        st = St()
        a = f.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        pos = a.posonlyargs + a.args
        defaults = {}
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for i, x in enumerate(allp):
            n = x.arg
            if self._scalar_param(x, defaults.get(n)):
                st.env[n] = EMPTY
                continue
            loc = (("P", n), ())
            st.env[n] = frozenset([loc])
            if i == 0 and f.cls is not None and not f.is_static:
                self.types[("P", n)] = f.cls.name
            else:
                c = self._ann(x)
                if c:
                    self.types[("P", n)] = c
        if a.vararg:
            st.env[a.vararg.arg] = frozenset([(("P", a.vararg.arg), ())])
        if a.kwarg:
            st.env[a.kwarg.arg] = frozenset([(("N", "kwargs"), ())])
        self.exits = []
        if isinstance(f.node, ast.Lambda):
            self.ret |= self.ev(f.node.body, st)
            self.exits.append(st)
        else:
            st = self.block(f.node.body, st)
            if not st.dead:
                self.exits.append(st)
        s = Summary()
        s.mut = self.mut
        s.ret = self.ret
        for e in self.exits:
            for k, v in e.heap.items():
                s.heap[k] = s.heap.get(k, EMPTY) | v
        # keep only bindings reachable by the caller
        keep = {}
        roots = {l[0] for l in s.ret}
        ch = True
        while ch:
            ch = False
            for (loc, fld), v in s.heap.items():
                if (loc[0][0] in "PG" or loc[0] in roots) and v and (loc, fld) not in keep:
                    keep[(loc, fld)] = v
                    for l in v:
                        if l[0] not in roots:
                            roots.add(l[0])
                    ch = True
        s.heap = keep
        s.types = {r: c for r, c in self.types.items() if r[0] == "N"}
        s.retelts = self.retelts if self.retelts != "?" else None
        return s

    def _ann(self, x):
        if x.annotation is None:
            return None
        d = x.annotation.value if isinstance(x.annotation, ast.Constant) else dotted(x.annotation)
        return str(d).split(".")[-1] if d else None

    def _scalar_param(self, x, d):
        t = self._ann(x)
        if t in ("int", "float", "bool", "str"):
            return True
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)) and d.value is not None:
            return True
        return False

    # -------------------------------------------------- types
    def type_of(self, loc):
        r, p = loc
        if not p:
            if r in self.types:
                return self.types[r]
            if r[0] == "P":
                return TYPED_NAMES.get(r[1])
            return None
        last = p[-1]
        if last.startswith("."):
            return TYPED_NAMES.get(last[1:])
        if last.startswith("['"):
            c = TYPED_NAMES.get(last[2:-2])
            if c and self.type_of((r, p[:-1])) == "IterationHistory":
                return "seq:" + c
            return c
        if last == "[]":
            c = self.type_of((r, p[:-1]))
            if c and c.startswith("seq:"):
                return c[4:]
        return None

    def classes(self, locs):
        return {c for c in (self.type_of(l) for l in locs) if c}

    # -------------------------------------------------- heap
    def read(self, st, locs, fld, seen=frozenset()):
        out = set()
        for l in locs:
            if l in seen:
                continue
            hit = False
            for q in self._variants(fld):
                if (l, q) in st.heap:
                    out |= st.heap[(l, q)]
                    if q == fld:
                        hit = True
            if fld == "[]":
                for (l2, q), v in st.heap.items():
                    if l2 == l and q.startswith("["):
                        out |= v
                hit = False
            if hit:
                continue
            if l in st.shallow:
                out |= self.read(st, st.shallow[l], fld, seen | {l})
            else:
                out.add(ext(l, fld))
        return frozenset(out)

    def _variants(self, fld):
        return (fld,) if not fld.startswith("['") else (fld, "[]")

    def mutate(self, st, locs, fld, node, how):
        where = f"{self.mod.rel}:{getattr(node, 'lineno', 0)}"
        for l in locs:
            self._rec(Mut((l, fld, where, self.f.qual, how)))

    def _rec(self, m):
        if m.loc[0][0] == "N":
            return
        self.mut.setdefault((m.loc, m.field), m)

    def bind(self, st, locs, fld, v, strong=True):
        strong = strong and len(locs) == 1 and fld != "[]" and self.loopdepth == 0
        for l in locs:
            if strong:
                st.heap[(l, fld)] = v
            else:
                old = st.heap.get((l, fld))
                st.heap[(l, fld)] = v | (old if old is not None else (frozenset([ext(l, fld)]) if l[0][0] != "N" else EMPTY))

    loopdepth = 0

    # -------------------------------------------------- statements
    def join(self, a, b):
        if a.dead:
            return b
        if b.dead:
            return a
        s = a.copy()
        for n, v in b.env.items():
            o = s.env.get(n)
            if o is None:
                s.env[n] = v
            elif isinstance(o, frozenset) and isinstance(v, frozenset):
                s.env[n] = o | v
        for k, v in b.heap.items():
            if k in s.heap:
                s.heap[k] = s.heap[k] | v
            else:
                s.heap[k] = v | (frozenset([ext(*k)]) if k[0][0][0] != "N" else EMPTY)
        for k in list(s.heap):
            if k not in b.heap and k[0][0][0] != "N":
                s.heap[k] = s.heap[k] | frozenset([ext(*k)])
        return s

    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                break
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        k = type(s).__name__
        if k == "Expr":
            self.ev(s.value, st)
        elif k == "Assign":
            v = self.ev(s.value, st)
            el = self.elts(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s, el)
        elif k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s, None)
        elif k == "AugAssign":
            v = self.ev(s.value, st)
            t = s.target
            if isinstance(t, ast.Name):
                locs = st.env.get(t.id, EMPTY)
                if isinstance(locs, frozenset) and not self.is_immutable_aug(locs, t.id):
                    self.mutate(st, locs, "[]", s, f"{t.id} {op(s.op)}= ...")
                    if isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List,)):
                        self.bind(st, locs, "[]", v, False)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for l in b:
                    bound = st.heap.get((l, "." + t.attr))
                    if bound:
                        self.mutate(st, bound, "[]", s, f".{t.attr} {op(s.op)}= ...")
                self.mutate(st, b, "." + t.attr, s, f".{t.attr} {op(s.op)}= ...")
            else:
                b = self.ev(t.value, st)
                self.ev_index(t.slice, st)
                self.mutate(st, b, self.fld(t.slice), s, "[...] op= ...")
        elif k == "Return":
            if s.value is not None:
                v = self.ev(s.value, st)
                el = self.elts(s.value, st)
                if not isinstance(v, frozenset):
                    v = EMPTY
                if el is not None:
                    el = [x if isinstance(x, frozenset) else EMPTY for x in el]
                if self.closure_stack:
                    self.closure_stack[-1].append(v)
                else:
                    self.ret |= v
                    if el is not None and (self.retelts == "?" or (self.retelts and len(self.retelts) == len(el))):
                        self.retelts = el if self.retelts == "?" else [a | b for a, b in zip(self.retelts, el)]
                    else:
                        self.retelts = None
            if not self.closure_stack:
                self.exits.append(st.copy())
            st = st.copy()
            st.dead = True
        elif k in ("Raise",):
            if s.exc is not None:
                self.ev(s.exc, st)
            st = st.copy()
            st.dead = True
        elif k in ("Break", "Continue"):
            if self.brk:
                self.brk[-1].append(st.copy())
            st = st.copy()
            st.dead = True
        elif k == "If":
            self.ev(s.test, st)
            a, b = self.block(s.body, st.copy()), self.block(s.orelse, st.copy())
            st = self.join(a, b)
        elif k in ("For", "While", "AsyncFor"):
            if k == "While":
                self.ev(s.test, st)
                itv = None
            else:
                itv = self.ev(s.iter, st)
            cur = st
            self.loopdepth += 1
            self.brk.append([])
            for _ in range(3):
                b = cur.copy()
                if k != "While":
                    self.loop_bind(s.target, s.iter, itv, b)
                else:
                    self.ev(s.test, b)
                b = self.block(s.body, b)
                for x in self.brk[-1]:
                    b = self.join(b, x)
                self.brk[-1] = []
                n = self.join(cur, b)
                if n.env == cur.env and n.heap == cur.heap:
                    break
                cur = n
            self.brk.pop()
            self.loopdepth -= 1
            st = self.block(s.orelse, cur)
        elif k in ("With", "AsyncWith"):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, s, None)
            st = self.block(s.body, st)
        elif k in ("Try", "TryStar"):
            pre = st.copy()
            body = self.block(s.body, st.copy())
            h0 = self.join(pre, body)
            out = self.block(s.orelse, body)
            for h in s.handlers:
                out = self.join(out, self.block(h.body, h0.copy()))
            if s.finalbody:
                if out.dead:
                    z = h0.copy()
                    self.block(s.finalbody, z)
                else:
                    out = self.block(s.finalbody, out)
            st = out
        elif k == "FunctionDef":
            st.env[s.name] = ("fn", s)
        elif k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    self.mutate(st, self.ev(t.value, st), "." + t.attr, s, "del")
                elif isinstance(t, ast.Subscript):
                    self.mutate(st, self.ev(t.value, st), self.fld(t.slice), s, "del")
        elif k == "Match":
            self.ev(s.subject, st)
            out = st.copy()
            for c in s.cases:
                out = self.join(out, self.block(c.body, st.copy()))
            st = out
        elif k == "Assert":
            self.ev(s.test, st)
        return st

    brk = []

    def is_immutable_aug(self, locs, name):
        return False

    def loop_bind(self, tgt, it, itv, st):
        # enumerate/zip/items: bind componentwise
        if isinstance(it, ast.Call):
            n = dotted(it.func) or ""
            if n == "enumerate" and isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 and it.args:
                self.assign(tgt.elts[0], EMPTY, st, it, None)
                self.loop_bind(tgt.elts[1], it.args[0], self.ev(it.args[0], st), st)
                return
            if n == "zip" and isinstance(tgt, ast.Tuple) and len(tgt.elts) == len(it.args):
                for t, a in zip(tgt.elts, it.args):
                    self.loop_bind(t, a, self.ev(a, st), st)
                return
            if n == "range":
                self.assign(tgt, EMPTY, st, it, None)
                return
            if n.endswith(".items") and isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 and isinstance(it.func, ast.Attribute):
                b = self.ev(it.func.value, st)
                self.assign(tgt.elts[0], EMPTY, st, it, None)
                self.assign(tgt.elts[1], self.read(st, b, "[]"), st, it, None)
                return
            if n.endswith(".keys"):
                self.assign(tgt, EMPTY, st, it, None)
                return
        self.assign(tgt, self.read(st, itv, "[]"), st, it, None)

    def elts(self, e, st):
        if isinstance(e, (ast.Tuple,)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return [self.ev(x, st) for x in e.elts]
        if isinstance(e, ast.Call):
            return getattr(e, "_elts", {}).get(id(self)) if False else self._lastelts.get(id(e))
        return None

    _lastelts = {}

    def assign(self, t, v, st, node, el):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v, st, node, None)
                elif el is not None and len(el) == len(t.elts):
                    self.assign(x, el[i], st, node, None)
                else:
                    self.assign(x, self.read(st, v, "[]") if isinstance(v, frozenset) else EMPTY, st, node, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.mutate(st, b, "." + t.attr, node, f".{t.attr} = ...")
            if not isinstance(v, frozenset):
                v = EMPTY
            self.bind(st, b, "." + t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev_index(t.slice, st)
            f = self.fld(t.slice)
            self.mutate(st, b, f, node, "[...] = ...")
            if f.startswith("['") and isinstance(v, frozenset):
                self.bind(st, b, f, v)
            elif isinstance(v, frozenset) and any(l[0][0] == "N" and self.types.get(l[0]) in ("list", "dict") for l in b):
                self.bind(st, b, "[]", v, False)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node, None)

    def fld(self, sl):
        if isinstance(sl, ast.Constant) and isinstance(sl.value, str):
            return "['%s']" % sl.value
        return "[]"

    # -------------------------------------------------- expressions
    def ev_index(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.NamedExpr)):
                self.ev(n, st)

    def is_copy_index(self, e, st):
        """advanced indexing, which copies"""
        if isinstance(e, (ast.Compare, ast.List)):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(e, ast.Call):
            n = (dotted(e.func) or "").split(".")[-1]
            return n in ("where", "argsort", "nonzero", "isfinite", "isinf", "isnan", "logical_not", "logical_and", "logical_or",
                         "flatnonzero", "invert", "ix_", "all", "any", "argwhere", "arange", "array", "isin", "permutation", "squeeze")
        if isinstance(e, ast.Name):
            if e.id in self.masks:
                return True
            return False
        if isinstance(e, ast.Attribute):
            return e.attr.lower().endswith(("flag", "mask"))
        if isinstance(e, ast.Tuple):
            return any(self.is_copy_index(x, st) for x in e.elts)
        if isinstance(e, ast.Subscript):
            return self.is_copy_index(e.value, st)
        return False

    @property
    def masks(self):
        m = getattr(self, "_masks", None)
        if m is None:
            m = set()
            nonmask = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            v = n.value
                            if isinstance(v, (ast.Compare, ast.UnaryOp, ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)) \
                                    and self._maskexpr(v):
                                m.add(t.id)
                            else:
                                nonmask.add(t.id)
            self._masks = m - nonmask
            m = self._masks
        return m

    def _maskexpr(self, v):
        if isinstance(v, ast.Compare):
            return True
        if isinstance(v, ast.UnaryOp):
            return isinstance(v.op, ast.Invert)
        if isinstance(v, ast.BinOp):
            return isinstance(v.op, (ast.BitAnd, ast.BitOr))
        if isinstance(v, ast.Attribute):
            return v.attr.lower().endswith(("flag", "mask"))
        if isinstance(v, ast.Call):
            n = (dotted(v.func) or "").split(".")[-1]
            if n in ("where", "argsort", "nonzero", "isfinite", "isinf", "isnan", "logical_not", "logical_and", "logical_or",
                     "flatnonzero", "invert", "full", "ones", "zeros", "array", "arange", "permutation", "concatenate", "choice",
                     "isin", "argpartition", "unique"):
                return True
            if n in ("any", "all"):
                return any(k.arg == "axis" for k in v.keywords) or len(v.args) > 1
        if isinstance(v, ast.Subscript):
            return self._maskexpr(v.value)
        return False

    def ev(self, e, st):
        k = type(e).__name__
        m = getattr(self, "v_" + k, None)
        if m is not None:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return EMPTY

    def v_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        r = self.p.resolve_global(self.mod, e.id)
        if r is not None and r[0] == "const" and not isinstance(r[2], ast.Constant):
            return frozenset([(("G", f"{r[1].short}.{e.id}"), ())])
        return EMPTY

    def v_Attribute(self, e, st):
        d = dotted(e)
        b = self.ev(e.value, st)
        if not isinstance(b, frozenset):
            return EMPTY
        if e.attr in SHAPE_ATTRS:
            return EMPTY
        if e.attr in VIEWA:
            return b
        # property?
        out = set()
        rest = []
        for l in b:
            c = self.type_of(l)
            if c and c in self.p.classes:
                m = self.p.method(c, e.attr)
                if m is not None and m.is_property:
                    out |= self.call_repo([m], [frozenset([l])], {}, st, e)
                    continue
            rest.append(l)
        return frozenset(out) | self.read(st, frozenset(rest), "." + e.attr)

    def v_Subscript(self, e, st):
        b = self.ev(e.value, st)
        self.ev_index(e.slice, st)
        if not isinstance(b, frozenset):
            return EMPTY
        if self.is_copy_index(e.slice, st):
            return EMPTY
        return self.read(st, b, self.fld(e.slice))

    def v_Starred(self, e, st):
        return self.ev(e.value, st)

    def v_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        return (a if isinstance(a, frozenset) else EMPTY) | (b if isinstance(b, frozenset) else EMPTY)

    def v_BoolOp(self, e, st):
        out = EMPTY
        for x in e.values:
            v = self.ev(x, st)
            if isinstance(v, frozenset):
                out |= v
        return out

    def v_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def v_Lambda(self, e, st):
        return ("fn", e)

    def fresh(self, e, typ=None, tag=""):
        r = ("N", f"{self.mod.short}:{e.lineno}:{e.col_offset}{tag}")
        if typ:
            self.types[r] = typ
        return frozenset([(r, ())])

    def _container(self, e, st, elts, typ):
        vs = EMPTY
        for x in elts:
            v = self.ev(x, st)
            if isinstance(v, frozenset):
                vs |= v
        out = self.fresh(e, typ)
        if vs:
            self.bind(st, out, "[]", vs, False)
        return out

    def v_Tuple(self, e, st):
        return self._container(e, st, e.elts, "list")

    v_List = v_Tuple
    v_Set = v_Tuple

    def v_Dict(self, e, st):
        out = self.fresh(e, "dict")
        for kx, vx in zip(e.keys, e.values):
            v = self.ev(vx, st)
            if not isinstance(v, frozenset) or not v:
                continue
            if isinstance(kx, ast.Constant) and isinstance(kx.value, str):
                st.heap[(next(iter(out)), "['%s']" % kx.value)] = v
            else:
                self.bind(st, out, "[]", v, False)
        return out

    def _comp(self, e, st, elts):
        s = st.copy()
        for g in e.generators:
            self.loop_bind(g.target, g.iter, self.ev(g.iter, s), s)
            for c in g.ifs:
                self.ev(c, s)
        self.loopdepth += 1
        r = self._container(e, s, elts, "list")
        self.loopdepth -= 1
        for kk, v in s.heap.items():
            if kk not in st.heap:
                st.heap[kk] = v
        return r

    def v_ListComp(self, e, st):
        return self._comp(e, st, [e.elt])

    v_GeneratorExp = v_ListComp
    v_SetComp = v_ListComp

    def v_DictComp(self, e, st):
        return self._comp(e, st, [e.value])

    # -------------------------------------------------- calls
    def v_Call(self, e, st):
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = True
            args.append(self.ev(a, st))
        kws = {}
        for kw in e.keywords:
            v = self.ev(kw.value, st)
            if kw.arg:
                kws[kw.arg] = v
        # closures handed to something are analysed for effects
        for v in list(args) + list(kws.values()):
            if isinstance(v, tuple) and v[0] == "fn":
                self.call_closure(v[1], [], {}, st, e)
        fargs = [a if isinstance(a, frozenset) else EMPTY for a in args]
        fkws = {k: (v if isinstance(v, frozenset) else EMPTY) for k, v in kws.items()}
        f = e.func
        if "out" in fkws:
            self.mutate(st, fkws["out"], "[]", e, "out=")
        if isinstance(f, ast.Name):
            if f.id in st.env:
                v = st.env[f.id]
                if isinstance(v, tuple) and v[0] == "fn":
                    return self.call_closure(v[1], fargs, fkws, st, e)
                return self.call_object(v, fargs, fkws, st, e)
            r = self.p.resolve_global(self.mod, f.id)
            if r is not None and r[0] == "func":
                return self.call_repo([r[1]], fargs, fkws, st, e)
            if r is not None and r[0] == "class":
                return self.construct(r[1].name, fargs, fkws, st, e)
            if r is not None and r[0] == "mod":
                return self.external(r[1], fargs, fkws, st, e)
            return self.builtin(f.id, fargs, fkws, st, e)
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            if d:
                head = d.split(".")[0]
                if head not in st.env and (head in self.mod.imports):
                    full = self.mod.imports[head] + d[len(head):]
                    r = self.p.resolve_dotted(full)
                    if r and r[0] == "func":
                        return self.call_repo([r[1]], fargs, fkws, st, e)
                    if r and r[0] == "class":
                        return self.construct(r[1].name, fargs, fkws, st, e)
                    if r and r[0] == "mod":
                        hr = self.p.resolve_dotted(full.rsplit(".", 1)[0])
                        if hr and hr[0] == "class":
                            m = self.p.method(hr[1].name, f.attr)
                            if m is not None:
                                a = fargs
                                if m.is_class:
                                    a = [EMPTY] + fargs
                                return self.call_repo([m], a, fkws, st, e)
                        return self.external(full, fargs, fkws, st, e)
                if head not in st.env and head in self.mod.classes:
                    m = self.p.method(head, f.attr)
                    if m is not None:
                        a = [EMPTY] + fargs if m.is_class else fargs
                        return self.call_repo([m], a, fkws, st, e)
            if isinstance(f.value, ast.Call) and dotted(f.value.func) == "super" and self.f.cls is not None:
                me = st.env.get(self.f.posonly[0], EMPTY) if self.f.posonly else EMPTY
                for c in self.p.mro(self.f.cls.name)[1:]:
                    if f.attr in c.methods:
                        return self.call_repo([c.methods[f.attr]], [me] + fargs, fkws, st, e)
                if f.attr in ("__setitem__", "__delitem__", "pop", "update", "clear", "setdefault", "popitem"):
                    self.mutate(st, me, "[]", e, f"super().{f.attr}(...)")
                    if f.attr == "__setitem__" and len(fargs) > 1:
                        self.bind(st, me, "[]", fargs[1], False)
                return EMPTY
            b = self.ev(f.value, st)
            if isinstance(b, tuple):
                return EMPTY
            return self.method_call(b, f.attr, fargs, fkws, st, e)
        v = self.ev(f, st)
        if isinstance(v, tuple) and v[0] == "fn":
            return self.call_closure(v[1], fargs, fkws, st, e)
        return EMPTY

    def method_call(self, b, n, args, kws, st, e):
        out = EMPTY
        rest = set()
        for l in b:
            c = self.type_of(l)
            if c and c in self.p.classes:
                m = self.p.method(c, n)
                ms = [m] if m is not None else []
                if m is None or m.is_abstract:
                    ms = ms + [s.methods[n] for s in self.p.subclasses(c) if n in s.methods]
                if ms:
                    out |= self.call_repo(ms, [frozenset([l])] + args, kws, st, e, recv=True)
                    continue
                if n in INPLACE_M or n in ("get", "items", "values", "keys", "copy"):
                    rest.add(l)
                    continue
                # attribute holding a callable
                o = self.read(st, frozenset([l]), "." + n)
                out |= self.call_object(o, args, kws, st, e)
                continue
            if c == "GP" and n in GP_MUT:
                self.mutate(st, frozenset([l]), "." + n + "()", e, f"gp.{n}(...)")
                continue
            rest.add(l)
        rest = frozenset(rest)
        if n in INPLACE_M and rest:
            if not (n in ("add",) and self.classes(rest)):
                self.mutate(st, rest, "[]", e, f".{n}(...)")
            for a in args:
                if a and n in ("append", "extend", "insert", "add", "update", "setdefault"):
                    v = a if n not in ("extend", "update") else self.read(st, a, "[]")
                    self.bind(st, rest, "[]", v, False)
        if n in ("pop", "setdefault", "popitem"):
            return out | self.read(st, rest, "[]")
        if n in ("get",):
            key = e.args[0] if e.args else None
            fl = self.fld(key) if key is not None else "[]"
            d = args[1] if len(args) > 1 else EMPTY
            return out | self.read(st, rest, fl) | d
        if n in ("items", "values"):
            return out | rest
        if n == "astype" and "copy" in kws:
            return out | rest
        if n in VIEWM:
            return out | rest
        if n == "copy" and rest and any(self.type_of(l) in ("dict", "list", "Options", "IterationHistory") for l in rest):
            f = self.fresh(e, "dict")
            self.bind(st, f, "[]", self.read(st, rest, "[]"), False)
            return out | f
        return out

    def call_object(self, v, args, kws, st, e):
        out = EMPTY
        if not isinstance(v, frozenset):
            return out
        for l in v:
            c = self.type_of(l)
            if c and c in self.p.classes:
                m = self.p.method(c, "__call__")
                ms = [m] if m is not None else []
                if ms:
                    out |= self.call_repo(ms, [frozenset([l])] + args, kws, st, e, recv=True)
        return out

    def construct(self, cname, args, kws, st, e):
        o = self.fresh(e, cname)
        init = self.p.method(cname, "__init__")
        if init is not None:
            self.call_repo([init], [o] + args, kws, st, e)
        return o

    def builtin(self, n, args, kws, st, e):
        if n == "setattr" and len(e.args) == 3:
            fl = "." + e.args[1].value if isinstance(e.args[1], ast.Constant) else "[]"
            self.mutate(st, args[0], fl, e, "setattr")
            self.bind(st, args[0], fl, args[2])
            return EMPTY
        if n == "getattr" and len(e.args) >= 2:
            if isinstance(e.args[1], ast.Constant):
                return self.read(st, args[0], "." + str(e.args[1].value))
            return self.read(st, args[0], "[]")
        if n in ("dict", "list", "tuple", "set", "sorted", "reversed", "filter", "zip", "enumerate", "iter"):
            f = self.fresh(e, "list" if n != "dict" else "dict")
            for a in args:
                v = self.read(st, a, "[]")
                if v:
                    self.bind(st, f, "[]", v, False)
            for k, v in kws.items():
                if v:
                    st.heap[(next(iter(f)), "['%s']" % k)] = v
            return f
        if n in ("next", "max", "min"):
            return EMPTY
        if n == "vars" and args:
            return args[0]
        return EMPTY

    def external(self, full, args, kws, st, e):
        n = full.split(".")[-1]
        if full in INPLACE_F and args:
            self.mutate(st, args[INPLACE_F[full]], "[]", e, full)
            return EMPTY
        if full.startswith("numpy.") and n in VIEWF and len(full.split(".")) == 2:
            return args[0] if args else EMPTY
        if full == "numpy.array" or full == "numpy.nan_to_num":
            cp = next((k.value for k in e.keywords if k.arg == "copy"), None)
            if isinstance(cp, ast.Constant) and cp.value in (False, None):
                if n == "nan_to_num":
                    self.mutate(st, args[0], "[]", e, full)
                return args[0]
            return EMPTY
        if full.startswith("numpy."):
            return EMPTY
        if full in ("copy.copy",) and args:
            f = self.fresh(e)
            loc = next(iter(f))
            c = self.classes(args[0])
            if c:
                self.types[loc[0]] = next(iter(sorted(c)))
            st.shallow = dict(st.shallow)
            st.shallow[loc] = args[0]
            for l in args[0]:
                for (l2, fl), v in list(st.heap.items()):
                    if l2 == l:
                        st.heap[(loc, fl)] = v
            return f
        if full in ("copy.deepcopy",) and args:
            c = self.classes(args[0])
            return self.fresh(e, next(iter(sorted(c))) if c else None)
        return EMPTY

    def call_closure(self, node, args, kws, st, e):
        if len(self.closure_stack) > 3:
            return EMPTY
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        saved = {}
        s = st
        old = dict(st.env)
        nd = len(names) - len(a.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                s.env[n] = args[i]
            elif n in kws:
                s.env[n] = kws[n]
            elif i >= nd:
                s.env[n] = self.ev(a.defaults[i - nd], s)
            else:
                s.env[n] = EMPTY
        self.closure_stack.append([])
        brk, self.brk = self.brk, []
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, s)
            self.closure_stack[-1].append(r)
            s2 = s
        else:
            s2 = self.block(node.body, s.copy())
        self.brk = brk
        out = EMPTY
        for v in self.closure_stack.pop():
            if isinstance(v, frozenset):
                out |= v
        for k, v in s2.heap.items():
            st.heap[k] = st.heap.get(k, EMPTY) | v
        st.env = old
        return out

    def call_repo(self, fns, args0, kws, st, e, recv=False):
        out = EMPTY
        els = None
        for fn in fns:
            sm = self.A.sum.get(fn.qual)
            if sm is None:
                continue
            names = fn.posonly
            b = {}
            args = args0[1:] if fn.is_static and recv else args0
            if fn.is_class and len(args) < len(names) and (not args or True) and not (fn.posonly and fn.posonly[0] == "cls" and len(args) == len(names)):
                pass
            for i, n in enumerate(names):
                if i < len(args):
                    b[("P", n)] = args[i]
            for k, v in kws.items():
                b[("P", k)] = v
            if fn.vararg and len(args) > len(names):
                vs = EMPTY
                for a in args[len(names):]:
                    vs |= a
                b[("P", fn.vararg)] = vs

            def sub(loc):
                r, path = loc
                if r[0] == "P":
                    cur = b.get(r, EMPTY)
                elif r[0] == "N":
                    nr = ("N", f"{self.mod.short}:{e.lineno}:{e.col_offset}>{r[1].split('>')[-1]}")
                    if r in sm.types:
                        self.types.setdefault(nr, sm.types[r])
                    cur = frozenset([(nr, ())])
                else:
                    cur = frozenset([(r, ())])
                for f in path:
                    cur = self.read(st, cur, f)
                return cur

            pend = []
            for (loc, fld), m in sm.mut.items():
                for l in sub(loc):
                    pend.append(Mut((l, fld, m.where, m.func, m.how)))
            binds = []
            for (loc, fld), v in sm.heap.items():
                vv = EMPTY
                for l in v:
                    vv |= sub(l)
                binds.append((sub(loc), fld, vv))
            r = EMPTY
            for l in sm.ret:
                r |= sub(l)
            if sm.retelts is not None:
                el = []
                for s in sm.retelts:
                    x = EMPTY
                    for l in s:
                        x |= sub(l)
                    el.append(x)
                els = el if els is None or len(els) != len(el) else [p | q for p, q in zip(els, el)]
            for m in pend:
                self._rec(m)
            for base, fld, vv in binds:
                self.bind(st, base, fld, vv, False)
            out |= r
        self._lastelts[id(e)] = els
        return out


def op(o):
    return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "FloorDiv": "//", "Mod": "%"}.get(type(o).__name__, "?")
