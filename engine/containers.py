"""Whole-program unification analysis of keyed containers (dictionaries, histories).

Every variable, attribute, entry and function result is a node; assignments, calls, copies and
merges unify nodes (flow-insensitive, context-insensitive). Each equivalence class then collects the
constant keys under which it is written, read and tested anywhere in the program.
"""
import ast

from .program import dotted

COPY = {"deepcopy", "copy"}
TYPED = {"vbmc": "VBMC", "function_logger": "FunctionLogger", "iteration_history": "IterationHistory", "options": "Options",
         "vp": "VariationalPosterior", "parameter_transformer": "ParameterTransformer", "timer": "Timer", "gp": "GP",
         "acq_fcn": "AbstractAcqFcn"}
GENERIC = {"get", "copy", "update", "pop", "items", "keys", "values", "append", "setdefault", "clear", "sum", "mean", "sample", "pdf",
           "predict", "fit", "format", "split", "join", "min", "max", "ravel", "reshape", "any", "all", "extend", "sort", "popitem"}


class N:
    __slots__ = ("p", "elem", "attrs", "w", "r", "t", "ext", "dyn", "new", "keysof", "fn")

    def __init__(self):
        self.p = None
        self.elem, self.attrs = {}, {}
        self.w, self.r, self.t = [], [], []       # (key, where, function qual)
        self.ext, self.dyn, self.new = [], [], []
        self.keysof = []
        self.fn = []


class Containers:
    def __init__(self, p):
        self.p = p
        self.inst, self.ret, self.env = {}, {}, {}
        self.work = []
        self.results = {}
        self.byname = {}
        for f in p.functions.values():
            self.byname.setdefault(f.name, []).append(f)
        self.records = []                 # (key or None, where, qual, value node)
        self.deferred = []
        self.guards = []
        for f in p.all_func_nodes():
            self.func(f, None)
        self._settle()
        for g in self.deferred:
            g()
        self._settle()

    # -------- union find
    def find(self, n):
        while n.p is not None:
            n = n.p
        return n

    def union(self, a, b):
        st = [(a, b)]
        while st:
            a, b = st.pop()
            a, b = self.find(a), self.find(b)
            if a is b:
                continue
            b.p = a
            for s in ("w", "r", "t", "ext", "dyn", "new", "keysof", "fn"):
                getattr(a, s).extend(getattr(b, s))
            for d in ("elem", "attrs"):
                x, y = getattr(a, d), getattr(b, d)
                for k, v in y.items():
                    if k in x:
                        st.append((x[k], v))
                    else:
                        x[k] = v
        return

    def _settle(self):
        """an entry of unknown key may be any entry of containers that are also accessed by unknown keys"""

    def sub(self, n, d, k):
        m = getattr(self.find(n), d)
        if k not in m:
            m[k] = N()
            if d == "attrs" and k in TYPED and k != "options" and (TYPED[k] in self.p.classes or k == "gp"):
                self.union(self.instance(TYPED[k]), m[k])
        return getattr(self.find(n), d)[k]

    def instance(self, c):
        # one object per class hierarchy root inside the repo
        ms = self.p.mro(c)
        c = ms[-1].name if ms else c
        if c not in self.inst:
            self.inst[c] = N()
        return self.inst[c]

    # -------- functions
    def fenv(self, f):
        k = id(f.node)
        if k not in self.env:
            self.env[k] = (f, {})
        return self.env[k][1]

    def var(self, f, name):
        g = f
        while g is not None:
            e = self.fenv(g)
            if name in e:
                return e[name]
            g = g.parent
        e = self.fenv(f)
        e[name] = N()
        if name in TYPED and (TYPED[name] in self.p.classes or name == "gp") and name != "options":
            self.union(self.instance(TYPED[name]), e[name])
        return e[name]

    def rnode(self, f):
        k = id(f.node)
        if k not in self.ret:
            self.ret[k] = N()
        return self.ret[k]

    def func(self, f, parent):
        e = self.fenv(f)
        for i, n in enumerate(f.params + [x for x in (f.vararg, f.kwarg) if x]):
            if n not in e:
                e[n] = N()
            if n == f.kwarg:
                e[n].ext.append(f.where)
            if f.cls is not None and i == 0 and not f.is_static and f.parent is None:
                self.union(self.instance(f.cls.name), e[n])
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ann = dotted(x.annotation) if x.annotation is not None else None
            last = ann.split(".")[-1] if ann else None
            if last in self.p.classes and last != "Options":
                self.union(self.instance(last), e[x.arg])
            elif x.arg in TYPED and (TYPED[x.arg] in self.p.classes or x.arg == "gp"):
                self.union(self.instance(TYPED[x.arg]), e[x.arg])
            elif x.arg == "optim_state":
                self.union(self.sub(self.instance("VBMC"), "attrs", "optim_state"), e[x.arg])
        for d, x in list(zip(a.defaults, (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):])) + \
                [(d, x) for d, x in zip(a.kw_defaults, a.kwonlyargs) if d is not None]:
            self.union(e[x.arg], self.ev(d, f))
        if isinstance(f.node, ast.Lambda):
            self.union(self.rnode(f), self.ev(f.node.body, f))
            return
        for s in f.node.body:
            self.stmt(s, f)

    # -------- constants
    def strs(self, k, f, d=0):
        """constant strings a key expression may be, or None"""
        if isinstance(k, ast.Constant):
            return [k.value] if isinstance(k.value, str) else []
        if isinstance(k, ast.IfExp):
            a, b = self.strs(k.body, f), self.strs(k.orelse, f)
            return None if a is None or b is None else a + b
        if isinstance(k, ast.Name) and d < 3:
            out, n = [], 0
            g = f
            while g is not None:
                root = g.node
                for x in ast.walk(root):
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k.id for t in x.targets):
                        v = self.strs(x.value, f, d + 1)
                        if v is None:
                            return None
                        out += v
                        n += 1
                    elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == k.id:
                        it = x.iter
                        if isinstance(it, ast.Name):
                            r = self.p.resolve_global(f.mod, it.id)
                            if r and r[0] == "const":
                                it = r[2]
                        if isinstance(it, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(z, ast.Constant) for z in it.elts):
                            out += [z.value for z in it.elts if isinstance(z.value, str)]
                            n += 1
                        else:
                            return None
                    elif isinstance(x, ast.Name) and x.id == k.id and isinstance(x.ctx, ast.Store):
                        pass
                if n:
                    return out
                if k.id in g.params:
                    return self.param_strs(g, k.id, d)
                g = g.parent
            r = self.p.resolve_global(f.mod, k.id)
            if r and r[0] == "const":
                return self.strs(r[2], f, d + 1)
        if isinstance(k, ast.UnaryOp) or (isinstance(k, (ast.Slice, ast.Tuple, ast.BinOp, ast.Compare))):
            return [] if not isinstance(k, ast.BinOp) or not any(isinstance(z, ast.Constant) and isinstance(z.value, str) for z in ast.walk(k)) else None
        return None

    def param_strs(self, g, name, d):
        """all constant strings passed for a parameter by every mention of the function"""
        out, n = [], 0
        pos = g.posonly.index(name) if name in g.posonly else None
        off = 1 if g.cls is not None and not g.is_static and g.parent is None else 0
        for h in self.p.all_func_nodes():
            for x in ast.walk(h.node):
                if isinstance(x, ast.Call):
                    nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                    if nm == g.name:
                        arg = None
                        for kw in x.keywords:
                            if kw.arg == name:
                                arg = kw.value
                        if arg is None and pos is not None:
                            i = pos - (off if isinstance(x.func, ast.Attribute) else 0)
                            if 0 <= i < len(x.args):
                                arg = x.args[i]
                        if arg is None:
                            return None
                        v = self.strs(arg, h, d + 1) if isinstance(arg, ast.Constant) or h.node is not g.node else None
                        if v is None:
                            return None
                        out += v
                        n += 1
        return out if n else None

    def addw(self, n, k, w, q):
        self.find(n).w.append((k, w, q, tuple(g for g in self.guards if g[1] == k)))

    def positive_reads(self, test, f):
        """[(container, key)] that must be set for the test to hold"""
        out = []

        def go(x):
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                for y in x.values:
                    go(y)
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                c = x.comparators[0]
                if not (isinstance(c, ast.Constant) and c.value is None):
                    go(x.left)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and len(x.args) == 1:
                for k in self.strs(x.args[0], f) or ():
                    out.append((self.ev(x.func.value, f), k))
            elif isinstance(x, ast.Subscript):
                for k in self.strs(x.slice, f) or ():
                    out.append((self.ev(x.value, f), k))
        go(test)
        return out

    # -------- statements
    def stmt(self, s, f):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            from .program import Func
            g = Func(f.mod, s, None, f)
            self.var(f, s.name).fn.append(g) if False else None
            n = self.fenv(f).setdefault(s.name, N())
            self.find(n).fn.append(g)
            self.func(g, f)
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, f)
            for t in s.targets:
                self.assign(t, v, s.value, f)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, f), s.value, f)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, f)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.ev(t, f, load=True)
            if isinstance(s.op, ast.BitOr):
                self.union(self.ev(t, f), v)
            else:
                self.assign(t, N(), None, f)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.union(self.rnode(f), self.ev(s.value, f))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s.target, s.iter, f)
            for x in s.body + s.orelse:
                self.stmt(x, f)
        elif isinstance(s, (ast.If, ast.While)):
            self.ev(s.test, f)
            pr = self.positive_reads(s.test, f)
            self.guards += pr
            for x in s.body:
                self.stmt(x, f)
            if pr:
                del self.guards[-len(pr):]
            for x in s.orelse:
                self.stmt(x, f)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, f)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None, f)
            for x in s.body:
                self.stmt(x, f)
        elif isinstance(s, ast.Try):
            for x in s.body + s.orelse + s.finalbody + [y for h in s.handlers for y in h.body]:
                self.stmt(x, f)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(t.value, f)
                else:
                    self.ev(t, f)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x, f)

    def loop(self, target, it, f):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            d = self.ev(it.func.value, f)
            if isinstance(target.elts[0], ast.Name):
                self.find(self.var(f, target.elts[0].id)).keysof.append(d)
            self.assign(target.elts[1], self.sub(d, "elem", "*"), None, f)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(target, ast.Tuple):
            for t, a in zip(target.elts, it.args):
                self.loop(t, a, f)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(target, ast.Tuple) and it.args:
            self.assign(target.elts[0], N(), None, f)
            self.loop(target.elts[1], it.args[0], f)
            return
        v = it
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys":
            v = it.func.value
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple", "sorted", "set") and it.args:
            v = it.args[0]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "keys":
                v = v.func.value
        n = self.ev(v, f)
        if isinstance(target, ast.Name):
            self.find(self.var(f, target.id)).keysof.append(n)
        self.assign(target, self.sub(n, "elem", "*"), None, f)

    def assign(self, t, v, vnode, f):
        if isinstance(t, ast.Name):
            self.union(self.var(f, t.id), v)
        elif isinstance(t, ast.Attribute):
            self.union(self.sub(self.ev(t.value, f), "attrs", t.attr), v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, f)
            ks = self.strs(t.slice, f)
            w = f"{f.mod.rel}:{t.lineno} ({f.qual})"
            if ks is None:
                kn = self.ev(t.slice, f)
                src = self.find(kn).keysof
                if src:
                    self.deferred.append(lambda b=b, src=src, w=w, q=f.qual: self.copykeys(b, src, w, q))
                else:
                    self.find(b).dyn.append(w)
                self.union(self.sub(b, "elem", "*"), v)
            elif not ks:
                self.ev(t.slice, f)
                self.union(self.sub(b, "elem", "*"), v)
            for k in ks or ():
                self.addw(self.find(b), k, w, f.qual)
                if len(set(ks)) == 1:
                    self.union(self.sub(b, "elem", k), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(vnode, (ast.Tuple, ast.List)) and len(vnode.elts) == len(t.elts):
                for x, y in zip(t.elts, vnode.elts):
                    self.assign(x, self.ev(y, f), y, f)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, self.sub(v, "elem", i), None, f)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.sub(v, "elem", "*"), None, f)

    def copykeys(self, b, src, w, q):
        for s in src:
            if self.find(s) is self.find(b):
                continue
            if self.find(s).dyn or self.find(s).ext:
                self.find(b).dyn.append(w)
            for k in {x[0] for x in self.find(s).w}:
                self.addw(self.find(b), k, w, q)

    # -------- expressions
    def ev(self, e, f, load=False):
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in self.fenv(g):
                    return self.fenv(g)[e.id]
                g = g.parent
            stored = any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
            if stored:
                return self.var(f, e.id)
            r = self.p.resolve_global(f.mod, e.id)
            n = N()
            if r and r[0] == "func":
                n.fn.append(r[1])
            elif r and r[0] == "class":
                n.fn.append(r[1])
            elif r and r[0] == "const":
                key = ("glob", r[1].name, e.id)
                if key not in self.env:
                    self.env[key] = N()
                    fake = f
                    self.union(self.env[key], self.ev(r[2], fake))
                return self.env[key]
            return n
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.split(".")[0] in f.mod.imports and d.split(".")[0] not in self.fenv(f):
                r = self.p.resolve_dotted(f.mod.imports[d.split(".")[0]] + d[len(d.split(".")[0]):])
                if r and r[0] in ("func", "class"):
                    n = N()
                    n.fn.append(r[1])
                    return n
            return self.sub(self.ev(e.value, f), "attrs", e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, f)
            ks = self.strs(e.slice, f)
            w = f"{f.mod.rel}:{e.lineno} ({f.qual})"
            if not ks:
                self.ev(e.slice, f) if not isinstance(e.slice, ast.Constant) else None
                k = e.slice.value if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) else "*"
                return self.sub(b, "elem", k if k in self.find(b).elem or k == "*" or isinstance(e.value, ast.Call) or self.is_result(e.value, f) else "*")
            for k in ks:
                self.find(b).r.append((k, w, f.qual))
            return self.sub(b, "elem", ks[0]) if len(set(ks)) == 1 else N()
        if isinstance(e, ast.Dict):
            n = N()
            w = f"{f.mod.rel}:{e.lineno} ({f.qual})"
            n.new.append(w)
            for k, v in zip(e.keys, e.values):
                x = self.ev(v, f)
                if k is None:
                    self.union(n, x)
                    continue
                ks = self.strs(k, f)
                if ks is None:
                    self.find(n).dyn.append(w)
                for z in ks or ():
                    self.addw(self.find(n), z, w, f.qual)
                    self.union(self.sub(n, "elem", z), x)
            return n
        if isinstance(e, ast.Call):
            return self.callx(e, f)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, f)
            a, b = self.ev(e.body, f), self.ev(e.orelse, f)
            self.union(a, b)
            return a
        if isinstance(e, ast.BoolOp):
            n = N()
            for x in e.values:
                self.union(n, self.ev(x, f))
            return n
        if isinstance(e, (ast.Tuple, ast.List)):
            n = N()
            for i, x in enumerate(e.elts):
                v = self.ev(x, f)
                if isinstance(e, ast.Tuple):
                    self.union(self.sub(n, "elem", i), v)
                else:
                    self.union(self.sub(n, "elem", "*"), v)
            return n
        if isinstance(e, ast.Compare):
            l = e.left
            vals = [self.ev(x, f) for x in [l] + e.comparators]
            for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
                if isinstance(op, (ast.In, ast.NotIn)):
                    k = ([l] + e.comparators)[i]
                    ks = self.strs(k, f)
                    b = vals[i + 1]
                    for z in ks or ():
                        self.find(b).t.append((z, f"{f.mod.rel}:{e.lineno} ({f.qual})", f.qual))
            return N()
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, f)
            self.assign(e.target, v, e.value, f)
            return v
        if isinstance(e, ast.Lambda):
            from .program import Func
            g = Func(f.mod, e, None, f)
            n = N()
            n.fn.append(g)
            self.func(g, f)
            return n
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in e.generators:
                self.loop(c.target, c.iter, f)
                for i in c.ifs:
                    self.ev(i, f)
            n = N()
            if isinstance(e, ast.DictComp):
                w = f"{f.mod.rel}:{e.lineno} ({f.qual})"
                ks = self.strs(e.key, f)
                v = self.ev(e.value, f)
                if ks is None:
                    src = self.find(self.ev(e.key, f)).keysof
                    if src and not any(c.ifs for c in e.generators):
                        self.deferred.append(lambda b=n, src=src, w=w, q=f.qual: self.copykeys(b, src, w, q))
                    elif src:
                        self.deferred.append(lambda b=n, src=src, w=w, q=f.qual: self.copykeys(b, src, w, q))
                    else:
                        n.dyn.append(w)
                    self.union(self.sub(n, "elem", "*"), v)
                for k in ks or ():
                    self.addw(n, k, w, f.qual)
                    self.union(self.sub(n, "elem", k), v)
            else:
                self.union(self.sub(n, "elem", "*"), self.ev(e.elt, f))
            return n
        if isinstance(e, ast.Starred):
            return self.ev(e.value, f)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, f)
        return N()

    def is_result(self, e, f):
        """a local that only ever holds the result of a call and is only ever taken apart by constant position"""
        if not isinstance(e, ast.Name):
            return False
        key = (id(f.node), e.id)
        if key not in self.results:
            ok, loads = e.id not in f.params, 0
            good = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and len(x.targets) == 1:
                    good.add(id(x.targets[0]))
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int):
                    good.add(id(x.value))
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and x.id == e.id and id(x) not in good:
                    ok = False
            self.results[key] = ok
        return self.results[key]

    def callx(self, e, f):
        w = f"{f.mod.rel}:{e.lineno} ({f.qual})"
        fn = e.func
        args = [self.ev(a, f) for a in e.args]
        kws = [(k.arg, self.ev(k.value, f)) for k in e.keywords]
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        if name in COPY and (isinstance(fn, ast.Name) or dotted(fn) in ("copy.deepcopy", "copy.copy", "np.copy")) and args:
            return args[0]
        targets = []
        if isinstance(fn, ast.Name):
            targets = list(self.find(self.ev(fn, f)).fn)
            if name == "dict":
                n = N()
                n.new.append(w)
                for a in args:
                    self.union(n, a)
                for k, v in kws:
                    if k is None:
                        self.union(n, v)
                    else:
                        self.addw(self.find(n), k, w, f.qual)
                        self.union(self.sub(n, "elem", k), v)
                return n
            if name in ("getattr",) and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return self.sub(args[0], "attrs", e.args[1].value)
            if name == "setattr" and len(e.args) > 2 and isinstance(e.args[1], ast.Constant):
                self.union(self.sub(args[0], "attrs", e.args[1].value), args[2])
                return N()
            if not targets and name in self.byname and name not in GENERIC:
                targets = [g for g in self.byname[name]]
        elif isinstance(fn, ast.Attribute):
            d = dotted(fn)
            head = d.split(".")[0] if d else None
            if d and head in f.mod.imports and head not in self.fenv(f):
                r = self.p.resolve_dotted(f.mod.imports[head] + d[len(head):])
                if r and r[0] in ("func", "class"):
                    targets = [r[1]]
                else:
                    n = N()
                    n.ext.append(w)
                    for a in args:
                        pass
                    return n
            else:
                b = self.ev(fn.value, f)
                hist = self.find(b) is self.find(self.instance("IterationHistory")) if "IterationHistory" in self.p.classes else False
                if name == "copy" and not e.args:
                    return b
                if name in ("get", "pop", "setdefault") and e.args and not hist or (hist and name == "get" and e.args):
                    ks = self.strs(e.args[0], f)
                    n = N()
                    for k in ks or ():
                        self.find(b).r.append((k, w, f.qual))
                        if name == "setdefault":
                            self.addw(self.find(b), k, w, f.qual)
                        self.union(n, self.sub(b, "elem", k))
                    if ks is None:
                        self.union(n, self.sub(b, "elem", "*"))
                    for a in args[1:]:
                        self.union(n, a)
                    return n
                if name == "update" and not hist:
                    for a in args:
                        self.union(b, a)
                    for k, v in kws:
                        if k is None:
                            self.union(b, v)
                        else:
                            self.addw(self.find(b), k, w, f.qual)
                            self.union(self.sub(b, "elem", k), v)
                    return N()
                if name == "append" and args:
                    self.union(self.sub(b, "elem", "*"), args[0])
                    return N()
                if name == "record" and len(args) >= 1 and hist:
                    ks = self.strs(e.args[0], f) if e.args else None
                    if e.args and ks is None:
                        src = self.find(args[0]).keysof
                        self.records.append((None, w, f.qual, src))
                    for k in ks or ():
                        self.records.append((k, w, f.qual, None))
                        if len(args) > 1:
                            self.union(self.sub(self.sub(b, "elem", k), "elem", "*"), args[1])
                    return N()
                if name == "record_iteration" and args and hist:
                    self.records.append((None, w, f.qual, [args[0]]))
                    d0 = args[0]
                    for k in list(self.find(d0).elem):
                        if k != "*":
                            self.union(self.sub(self.sub(b, "elem", k), "elem", "*"), self.sub(d0, "elem", k))
                    return N()
                nd = self.find(b)
                if (isinstance(fn.value, ast.Name) and fn.value.id in ("dict", "list", "MutableMapping", "np")) or \
                        (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and name != "__init__"):
                    return N()
                x = self.sub(b, "attrs", name)
                targets = list(self.find(x).fn)
                if not targets:
                    own = None
                    for c, n in self.inst.items():
                        if self.find(n) is nd:
                            own = c
                    cands = [g for g in self.byname.get(name, []) if g.cls is not None]
                    if own is not None:
                        fam = {own} | {c.name for c in self.p.subclasses(own)}
                        mine = [g for g in cands if g.cls.name in fam]
                        cands = mine or ([] if name in GENERIC else cands)
                    elif name in GENERIC:
                        cands = []
                    targets = cands
        else:
            targets = list(self.find(self.ev(fn, f)).fn)
        if not targets:
            # unknown callee: an object called -> __call__ of acquisition functions
            if isinstance(fn, ast.Name):
                v = self.find(self.ev(fn, f))
                targets = [g for g in self.byname.get("__call__", []) if any(self.find(self.instance(g.cls.name)) is v for _ in (0,))]
            if not targets:
                n = N()
                n.ext.append(w)
                return n
        n = N()
        from .program import Cls
        for g in targets:
            cls = None
            if isinstance(g, Cls):
                cls = g
                self.union(n, self.instance(g.name))
                g = self.p.method(g.name, "__init__")
                if g is None:
                    continue
            self.bindcall(g, e, args, kws, isinstance(fn, ast.Attribute) and cls is None, cls is not None)
            if cls is None:
                self.union(n, self.rnode(g))
        return n

    def bindcall(self, g, e, args, kws, attrcall, ctor):
        if "formatting" in g.mod.name:      # generic printing helpers accept any object
            return
        env = self.fenv(g)
        names = list(g.posonly)
        if g.cls is not None and not g.is_static and g.parent is None:
            # bound call unless called through the class
            names = names[1:]
        i = 0
        for a, v in zip(e.args, args):
            if isinstance(a, ast.Starred):
                break
            if i < len(names):
                self.union(env.setdefault(names[i], N()), v)
            i += 1
        for k, v in kws:
            if k is None:
                continue
            if k in g.params:
                self.union(env.setdefault(k, N()), v)

    # -------- results
    def classes(self):
        """all equivalence classes reachable: [root]"""
        seen, st, out = set(), [], []
        for n in list(self.inst.values()) + list(self.ret.values()):
            st.append(n)
        for k, v in self.env.items():
            if isinstance(v, tuple):
                st.extend(v[1].values())
            else:
                st.append(v)
        while st:
            n = self.find(st.pop())
            if id(n) in seen:
                continue
            seen.add(id(n))
            out.append(n)
            st.extend(n.elem.values())
            st.extend(n.attrs.values())
        return out

    def written(self, root):
        """{key: where} of entries that can come into being"""
        out = {}
        for k, w, q, gs in root.w:
            if not any(self.find(g[0]) is root for g in gs):
                out.setdefault(k, w)
        return out

    def names_of(self, root, limit=4):
        """some access paths that denote the class (for reports)"""
        out = []
        for c, n in self.inst.items():
            for a, v in self.find(n).attrs.items():
                if self.find(v) is root:
                    out.append(f"{c}.{a}")
        for k, v in self.env.items():
            if isinstance(v, tuple):
                for nm, x in v[1].items():
                    if self.find(x) is root:
                        out.append(nm)
        out2 = []
        for x in out:
            if x not in out2:
                out2.append(x)
        return out2[:limit]
