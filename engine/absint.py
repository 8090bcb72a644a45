"""Flow-sensitive, interprocedural abstract interpretation over value-number terms.

State = local environment, heap (access path -> term), must-facts, event trace.
Branches are joined (gated phi 'ite') unless their event traces differ (trace partitioning).
New (non-baseline) helper functions are analysed inline, so extracting a helper changes nothing.
Nothing of the analysed program is executed.
"""
import ast
import os

from .program import AnalysisBroken, dotted
from .terms import *
from .terms import T, mk

HERE = os.path.dirname(os.path.abspath(__file__))


def baseline_funcs():
    with open(os.path.join(HERE, "baseline_funcs.txt")) as f:
        return set(f.read().split())


# attribute / parameter names that carry an object of a known class everywhere in the repo
TYPED_NAMES = {
    "parameter_transformer": "ParameterTransformer", "function_logger": "FunctionLogger",
    "iteration_history": "IterationHistory", "options": "Options", "vp": "VariationalPosterior",
    "vp2": "VariationalPosterior", "timer": "Timer", "prior": "Prior", "vbmc": "VBMC",
    "vp_old": "VariationalPosterior", "vp_new": "VariationalPosterior", "vp0": "VariationalPosterior",
    "gp": "GP", "optim_state": "dict",
}
ALLOC = {"copy.deepcopy", "copy.copy", "np.copy", "np.array", "np.zeros", "np.ones", "np.full", "np.empty",
         "np.zeros_like", "np.ones_like", "np.full_like", "np.empty_like", "np.append", "np.concatenate",
         "np.eye", "np.arange", "dict", "list", "set"}
NP_METHODS = {"all", "any", "sum", "mean", "min", "max", "ravel", "reshape", "squeeze", "astype", "transpose",
              "dot", "argsort", "argmin", "argmax", "std", "var", "prod", "cumsum", "round", "clip", "repeat",
              "nonzero", "item", "tolist", "flatten", "copy", "fill", "sort", "take", "diagonal", "trace", "swapaxes"}
BUILTINS = {"len", "max", "min", "abs", "sum", "range", "enumerate", "zip", "int", "float", "str", "bool", "list",
            "dict", "set", "tuple", "isinstance", "callable", "type", "print", "map", "filter", "sorted", "any", "all",
            "round", "hasattr", "getattr", "setattr", "iter", "next", "super", "reversed", "repr", "id", "hash", "vars",
            "ValueError", "TypeError", "KeyError", "RuntimeError", "NotImplementedError", "Exception", "open", "locals",
            "globals", "eval", "slice", "divmod", "pow", "AttributeError", "NotImplemented", "frozenset", "ArithmeticError",
            "FloatingPointError", "ZeroDivisionError", "OSError", "FileExistsError", "StopIteration", "object", "exit",
            "BaseException", "IndexError", "ImportError", "Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning",
            "property", "classmethod", "staticmethod", "complex", "bytes", "delattr", "dir", "issubclass", "ord", "chr"}


class Event:
    __slots__ = ("kind", "sig", "node", "mod", "func", "facts", "loops", "maybe", "env")

    def __init__(self, kind, sig, node, mod, func, facts, loops):
        self.kind, self.sig, self.node, self.mod, self.func = kind, sig, node, mod, func
        self.facts, self.loops, self.maybe = facts, loops, False

    @property
    def key(self):
        return (self.kind, self.sig, id(self.node), self.loops)

    @property
    def where(self):
        return f"{self.mod.rel}:{getattr(self.node, 'lineno', 0)} ({self.func})"

    def __repr__(self):
        return f"<{self.kind} {self.sig} @{self.where}>"


class State:
    __slots__ = ("env", "store", "facts", "events", "inval", "loops")

    def __init__(self):
        self.env, self.store, self.facts, self.events, self.inval, self.loops = {}, {}, {}, (), (), ()

    def copy(self):
        s = State()
        s.env, s.store, s.facts = dict(self.env), dict(self.store), dict(self.facts)
        s.events, s.inval, s.loops = self.events, self.inval, self.loops
        return s


class Config:
    def __init__(self, inline=(), opaque=(), track_call=None, track_store=None, path_sensitive=False,
                 cap=400, maxdepth=8, track_raise=False, inline_all=False, track_read=None, havoc_calls=True,
                 types=None, collect=False, track_op=False, fork_ite=False):
        self.fork_ite = fork_ite
        self.collect, self.track_op = collect, track_op
        self.inline, self.opaque_extra = set(inline), set(opaque)
        self.track_call = track_call or (lambda n: False)
        self.track_store = track_store or (lambda b, n: False)
        self.track_read = track_read
        self.path_sensitive, self.cap, self.maxdepth = path_sensitive, cap, maxdepth
        self.track_raise, self.inline_all = track_raise, inline_all
        self.havoc_calls = havoc_calls
        self.types = dict(TYPED_NAMES)
        self.types.update(types or {})


class Frame:
    __slots__ = ("func", "mod", "cls", "selfcls", "depth", "path", "globals_decl")

    def __init__(self, func, depth, path, selfcls=None):
        self.func, self.mod, self.cls = func, func.mod, func.cls
        self.selfcls = selfcls or (func.cls.name if func.cls else None)
        self.depth, self.path = depth, path


class Interp:
    def __init__(self, program, config=None):
        self.p = program
        self.c = config or Config()
        self.baseline = baseline_funcs()
        self.closures = {}
        self.phi_alts = {}
        self.types = {}           # term -> class name
        self.pending = []         # (state, ctl, val) raised inside expression evaluation
        self.stats = {"functions": set(), "calls": 0, "paths": 0, "joins": 0}
        self._writes = None
        self._uid = 0
        self.log = []
        self.unbound = []         # (name, frame, node, term): reads of a local that some path leaves unset

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, state=None, selfcls=None, closure_env=None):
        """Analyse func from an arbitrary state; returns list of (state, ctl, value)."""
        st = state.copy() if state else State()
        fr = Frame(func, 0, (), selfcls)
        bind = {}
        names = func.posonly + func.kwonly
        for i, n in enumerate(names):
            if args and n in args:
                bind[n] = args[n]
            else:
                t = sym(n)
                bind[n] = t
                self._type_param(func, n, t, fr, i)
        if func.vararg:
            bind[func.vararg] = sym("*" + func.vararg)
        if func.kwarg:
            bind[func.kwarg] = sym("**" + func.kwarg)
        st.env = dict(closure_env or {})
        st.env.update(bind)
        self.stats["functions"].add(func.qual)
        outs = self.exec_body(func, st, fr)
        self.stats["paths"] += len(outs)
        return outs

    def _type_param(self, func, n, t, fr, i):
        if i == 0 and func.cls is not None and not func.is_static:
            self.types[t] = fr.selfcls
            return
        ann = None
        for a in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs:
            if a.arg == n and a.annotation is not None:
                ann = dotted(a.annotation)
                if isinstance(a.annotation, ast.Constant) and isinstance(a.annotation.value, str):
                    ann = a.annotation.value
        if ann:
            last = ann.split(".")[-1]
            if last in self.p.classes or last in ("GP", "dict"):
                self.types[t] = last
                return
        if n in self.c.types:
            self.types[t] = self.c.types[n]

    def exec_body(self, func, st, fr):
        if isinstance(func.node, ast.Lambda):
            outs = []
            for s, v in self.ev(func.node.body, st, fr):
                outs.append((s, "return", v))
            return self._flush(outs)
        outs = []
        for s, ctl, v in self.exec_block(func.node.body, [st], fr):
            if ctl is None:
                outs.append((s, "return", NONE))
            else:
                outs.append((s, ctl, v))
        return outs

    # ------------------------------------------------------------ types
    def cls_of(self, t, d=0):
        if t in self.types:
            return self.types[t]
        if d > 8:
            return None
        k = t.k
        if k == "attr":
            return self.c.types.get(t.a[1])
        if k == "call":
            f = t.a[0]
            if f in self.p.classes:
                return f
            if f in ("copy.deepcopy", "copy.copy") and t.a[1]:
                return self.cls_of(t.a[1][0], d + 1)
            if f in RETURN_TYPES:
                return RETURN_TYPES[f]
            return None
        if k == "ite":
            return self.cls_of(t.a[1], d + 1) or self.cls_of(t.a[2], d + 1)
        if k in ("phi", "loop"):
            for x in self.phi_alts.get(t, ()):
                c = self.cls_of(x, d + 1)
                if c:
                    return c
            if k == "loop" and isinstance(t.a[1], str):
                return self.c.types.get(t.a[1].lstrip("."))
            return None
        if k == "havoc":
            return self.c.types.get(t.a[1]) if isinstance(t.a[1], str) else None
        if k == "idx":
            b, key = t.a
            if is_const(key) and isinstance(cval(key), str) and cval(key) in ("vp", "gp", "function_logger", "optim_state") \
                    and self.cls_of(b, d + 1) in ("IterationHistory", "dict", None):
                if self.cls_of(b, d + 1) == "IterationHistory":
                    return "seq:" + self.c.types[cval(key)]
                return self.c.types[cval(key)]
            cb = self.cls_of(b, d + 1)
            if cb and cb.startswith("seq:"):
                return cb[4:]
            if b.k == "call" and b.a[0] in TUPLE_TYPES and is_const(key) and isinstance(cval(key), int):
                tt = TUPLE_TYPES[b.a[0]]
                if cval(key) < len(tt):
                    return tt[cval(key)]
            return None
        if k == "upd":
            return self.cls_of(t.a[0], d + 1)
        if k == "cls":
            return "type:" + t.a[0]
        return None

    # ------------------------------------------------------------ events
    def emit(self, st, kind, sig, node, fr):
        e = Event(kind, sig, node, fr.mod, fr.func.qual, st.facts, st.loops)
        st.facts = dict(st.facts)
        if self.c.collect:          # flow-insensitive log: paths with different events are still joined
            self.log.append(e)
            return
        st.events = st.events + (e,)

    # ------------------------------------------------------------ facts
    def truth(self, t, st):
        f = st.facts
        if t in f:
            return f[t]
        k = t.k
        if k == "const":
            try:
                return bool(cval(t))
            except Exception:
                return None
        if k in ("tup", "lst", "dct"):
            return len(t.a) > 0
        if k in ("not",):
            r = self.truth(t.a[0], st)
            return None if r is None else not r
        if k == "inv":
            r = self.truth(t.a[0], st)
            return None if r is None else not r
        if k == "and":
            rs = [self.truth(x, st) for x in t.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if k == "or":
            rs = [self.truth(x, st) for x in t.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if k == "cmp":
            return self._cmp_truth(t, st)
        if k == "ite":
            c = self.truth(t.a[0], st)
            if c is not None:
                return self.truth(t.a[1] if c else t.a[2], st)
            x, y = self.truth(t.a[1], st), self.truth(t.a[2], st)
            if x is not None and x == y:
                return x
        if k in ("fn", "cls", "mod", "bound"):
            return True
        return None

    def _cmp_truth(self, t, st):
        op, a, b = t.a
        if a is b and op in ("eq", "is", "le"):
            if a.k in ("const", "sym", "attr"):
                return True
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                return {"eq": lambda: x == y, "is": lambda: x is y or (x == y and type(x) is type(y)), "lt": lambda: x < y,
                        "le": lambda: x <= y, "in": lambda: x in y}[op]()
            except Exception:
                return None
        if op == "is" and (b is NONE or a is NONE):
            o = a if b is NONE else b
            if o.k in ("tup", "lst", "dct", "bin", "add", "mul", "fn", "cls", "comp", "fstr", "upd", "neg", "cmp") or \
                    (o.k == "call" and (o.a[0].startswith("np.") or o.a[0] in self.p.classes or o.a[0] in BUILTINS)):
                return False
            if o.k == "ite":
                x = self.truth(mk("cmp", "is", o.a[1], NONE), st)
                y = self.truth(mk("cmp", "is", o.a[2], NONE), st)
                c = self.truth(o.a[0], st)
                if c is not None:
                    return x if c else y
                if x is not None and x == y:
                    return x
        if op == "in" and b.k in ("tup", "lst", "set"):
            if is_const(a) and all(is_const(x) for x in b.a):
                return any(cval(a) == cval(x) for x in b.a)
        return None

    def assume(self, st, t, val):
        """-> State or None when infeasible"""
        cur = self.truth(t, st)
        if cur is not None:
            return st if cur == val else None
        st = st.copy()
        if self._put(st, t, val):
            return st
        return None

    def _put(self, st, t, val):
        k = t.k
        st.facts[t] = val
        if k in ("not", "inv"):
            return self._put(st, t.a[0], not val)
        if k == "and" and val:
            return all(self._put(st, x, True) for x in t.a)
        if k == "or" and not val:
            return all(self._put(st, x, False) for x in t.a)
        if (k == "and" and not val) or (k == "or" and val):
            unk = [x for x in t.a if self.truth(x, st) is None]
            dec = [x for x in t.a if self.truth(x, st) is (val)]
            if not dec and len(unk) == 1:
                return self._put(st, unk[0], val)
        if k == "cmp" and t.a[0] == "lt" and val:
            st.facts[mk("cmp", "lt", t.a[2], t.a[1])] = False
            st.facts[mk("cmp", "eq", t.a[1], t.a[2])] = False
            st.facts[mk("cmp", "le", t.a[1], t.a[2])] = True
            st.facts[mk("cmp", "le", t.a[2], t.a[1])] = False
        if k == "cmp" and t.a[0] == "le" and val:
            st.facts[mk("cmp", "lt", t.a[2], t.a[1])] = False
        if k == "ite":
            x, y = self.truth(t.a[1], st), self.truth(t.a[2], st)
            if x is not None and x != val:
                return self._put(st, t.a[0], False) and self._put(st, t.a[2], val)
            if y is not None and y != val:
                return self._put(st, t.a[0], True) and self._put(st, t.a[1], val)
        return True

    def simp(self, t, st):
        while t.k == "ite":
            c = self.truth(t.a[0], st)
            if c is None:
                return t
            t = t.a[1] if c else t.a[2]
        return t

    # ------------------------------------------------------------ joins
    def join(self, states, site, cond=None):
        """join states with equal event traces"""
        a = states[0]
        if len(states) == 1:
            return a
        self.stats["joins"] += 1
        out = State()
        out.loops = a.loops
        out.inval = a.inval
        for s in states[1:]:
            if s.inval != out.inval:
                out.inval = out.inval + tuple(x for x in s.inval if x not in out.inval)
        def comb(name, vals):
            if all(v is vals[0] for v in vals):
                return vals[0]
            if cond is not None and len(vals) == 2:
                return mk("ite", cond, vals[0], vals[1])
            return self.phi(site, name, vals)
        for n in a.env:
            if all(n in s.env for s in states):
                out.env[n] = comb(n, [s.env[n] for s in states])
        for s in states:
            for n in s.env:
                if n not in out.env:
                    vs = [x.env.get(n, UNBOUND) for x in states]
                    out.env[n] = comb(n, vs)
        keys = {}
        for s in states:
            for kk in s.store:
                keys[kk] = 1
        for kk in keys:
            vals = []
            for s in states:
                if kk in s.store:
                    vals.append(s.store[kk])
                else:
                    vals.append(self._sym_read(s, kk))
            out.store[kk] = comb(kk, vals)
        f0 = a.facts
        out.facts = {t: v for t, v in f0.items() if all(s.facts.get(t) is v for s in states[1:])}
        evs = []
        for tup in zip(*[s.events for s in states]):
            e = tup[0]
            if any(x is not e for x in tup):
                f = {t: v for t, v in e.facts.items() if all(x.facts.get(t) is v for x in tup[1:])}
                e2 = Event(e.kind, e.sig, e.node, e.mod, e.func, f, e.loops)
                e2.maybe = any(x.maybe for x in tup)
                evs.append(e2)
            else:
                evs.append(e)
        out.events = tuple(evs)
        return out

    def phi(self, site, name, vals):
        alts = []
        for v in vals:
            if v not in alts:
                alts.append(v)
        t = mk("phi", site, name, tuple(alts))
        self.phi_alts.setdefault(t, set()).update(alts)
        return t

    def merge(self, outs, site, cond=None):
        """merge [(state, ctl, val)] with equal ctl and events"""
        if len(outs) < 2 or (self.c.path_sensitive and len(outs) <= self.c.cap):
            return outs
        groups, order = {}, []
        for s, ctl, v in outs:
            if ctl in ("return", "raise"):
                key = (ctl, v, tuple(e.key for e in s.events))
            else:
                key = (ctl, None, tuple(e.key for e in s.events))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, v))
        res = []
        for key in order:
            g = groups[key]
            if len(g) == 1:
                res.append((g[0][0], key[0], g[0][1]))
            else:
                c = cond if (cond is not None and len(g) == 2 and len(outs) == 2) else None
                res.append((self.join([x[0] for x in g], site, c), key[0], g[0][1]))
        if len(res) > self.c.cap:
            raise AnalysisBroken(f"more than {self.c.cap} partitions at {site}")
        return res

    # ------------------------------------------------------------ heap
    def _sym_read(self, st, path):
        """value of an access path that is not in the store"""
        if path.k == "attr":
            b, n = path.a
            key = n
        else:
            b, kk = path.a
            key = ("[%s]" % (cval(kk),)) if is_const(kk) else "[*]"
        for (base, names, site) in reversed(st.inval):
            if (key in names or (path.k == "idx" and "[*]" in names)) and (base is None or self._under(b, base)):
                return mk("havoc", site, key if isinstance(key, str) else str(key), b)
        return path

    def _under(self, b, base):
        d = 0
        while d < 12:
            if b is base:
                return True
            if b.k in ("attr", "idx"):
                b = b.a[0]
            elif b.k == "havoc" and len(b.a) > 2 and isinstance(b.a[2], T):
                b = b.a[2]
            elif b.k == "upd":
                b = b.a[0]
            else:
                return False
            d += 1
        return False

    def read_attr(self, st, b, n, fr, node=None):
        if b.k == "ite":
            c = self.truth(b.a[0], st)
            if c is not None:
                return self.read_attr(st, b.a[1] if c else b.a[2], n, fr, node)
        path = attr(b, n)
        if path in st.store:
            return self.simp(st.store[path], st)
        if b.k == "ite" and (any(p.k == "attr" and p.a[1] == n and p.a[0] in (b.a[1], b.a[2]) for p in st.store)):
            return mk("ite", b.a[0], self.read_attr(st, b.a[1], n, fr), self.read_attr(st, b.a[2], n, fr))
        if b.k == "mod":
            r = self.p.resolve_dotted(b.a[0] + "." + n)
            return self._resolved(r, fr)
        if b.k == "cls":
            m = self.p.method(b.a[0], n)
            if m is not None:
                return mk("fnref", m.qual)
        if n == "T":
            return call("np.transpose", (b,))
        c = self.cls_of(b)
        if c and c in self.p.classes:
            m = self.p.method(c, n)
            if m is not None:
                if m.is_property:
                    return call(m.qual, (b,))
                return mk("bound", b, n, c)
            for k in self.p.mro(c):
                if n in k.attrs and isinstance(k.attrs[n], ast.Constant):
                    return const(k.attrs[n].value)
        v = self._sym_read(st, path)
        return v

    def read_idx(self, st, b, k):
        b = self.simp(b, st)
        if b.k == "ite" and (self._lit(b.a[1]) and self._lit(b.a[2])):
            return mk("ite", b.a[0], self.read_idx(st, b.a[1], k), self.read_idx(st, b.a[2], k))
        path = idx(b, k)
        if path in st.store:
            return self.simp(st.store[path], st)
        if b.k in ("tup", "lst") and is_const(k) and isinstance(cval(k), int) and not any(x.k == "star" for x in b.a):
            try:
                return b.a[cval(k)]
            except IndexError:
                pass
        if b.k in ("tup", "lst") and k.k == "slice" and all(is_const(x) for x in k.a) and not any(x.k == "star" for x in b.a):
            try:
                return mk(b.k, *b.a[slice(*[cval(x) for x in k.a])])
            except Exception:
                pass
        if b.k == "dct":
            for kk, vv in b.a:
                if kk is k:
                    return vv
        if b.k == "upd" and strip(b.a[1]) is strip(k):
            return b.a[2]
        return self._sym_read(st, path)

    def _lit(self, t):
        return t.k in ("tup", "lst", "dct")

    def write_attr(self, st, b, n, v, node, fr):
        if self.c.track_store(b, n):
            self.emit(st, "setattr", (b, n, v), node, fr)
        st.store[attr(b, n)] = v
        st.inval = tuple(x for x in st.inval)

    def write_idx(self, st, b, k, v, node, fr):
        b0 = b
        if self.c.track_store(b, k):
            self.emit(st, "setidx", (b, k, v), node, fr)
        ck = is_const(k) and isinstance(cval(k), str)
        if ck:
            st.store[idx(b, k)] = v
            return
        new = mk("upd", b, k, v)
        self._replace(st, b, new)
        # write-through when b is itself a view of something reachable
        if b0.k == "idx":
            pass

    def _append(self, st, old, new, e):
        """append to a literal list: only the receiver is updated (equal literals are hash-consed, not shared)"""
        r = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
        if isinstance(r, ast.Name) and st.env.get(r.id) is old:
            st.env[r.id] = new
            return
        self._replace(st, old, new)

    def _replace(self, st, old, new):
        hit = False
        for n, v in list(st.env.items()):
            if v is old:
                st.env[n] = new
        for p, v in list(st.store.items()):
            if v is old:
                st.store[p] = new
                hit = True
        if not hit and old.k in ("attr", "idx") and old not in st.store:
            st.store[old] = new
        elif old.k == "havoc":
            # find path: havoc(site,name,base)
            if len(old.a) > 2 and isinstance(old.a[2], T) and not hit:
                nm = old.a[1]
                p = attr(old.a[2], nm) if not nm.startswith("[") else None
                if p is not None:
                    st.store[p] = new
        if old in self.types:
            self.types[new] = self.types[old]

    # syntactic transitive write summary of in-repo functions
    def writes(self, qual):
        if self._writes is None:
            self._build_writes()
        return self._writes.get(qual, frozenset())

    def _build_writes(self):
        direct, calls = {}, {}
        byname = {}
        for f in self.p.all_func_nodes():
            w, c = set(), set()
            for n in ast.walk(f.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.Delete):
                    tg = n.targets
                elif isinstance(n, (ast.For,)):
                    tg = [n.target]
                todo = list(tg)
                while todo:
                    x = todo.pop()
                    if isinstance(x, (ast.Tuple, ast.List)):
                        todo += x.elts
                    elif isinstance(x, ast.Attribute):
                        w.add(x.attr)
                    elif isinstance(x, ast.Subscript):
                        if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                            w.add("[%s]" % x.slice.value)
                        y = x.value
                        while isinstance(y, ast.Subscript):
                            if isinstance(y.slice, ast.Constant) and isinstance(y.slice.value, str):
                                w.add("[%s]" % y.slice.value)
                            y = y.value
                        if isinstance(y, ast.Attribute):
                            w.add(y.attr)
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute):
                        c.add(("m", n.func.attr))
                        if n.func.attr in ("append", "extend", "pop", "update", "remove", "clear", "insert", "sort", "fill"):
                            y = n.func.value
                            if isinstance(y, ast.Attribute):
                                w.add(y.attr)
                    elif isinstance(n.func, ast.Name):
                        if n.func.id in ("setattr",) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            w.add(n.args[1].value)
                        r = self.p.resolve_global(f.mod, n.func.id)
                        if r and r[0] == "func":
                            c.add(("f", r[1].qual))
                        elif r and r[0] == "class":
                            c.add(("f", r[1].name + ".__init__"))
                        elif n.func.id in self.c.types:
                            c.add(("f", self.c.types[n.func.id] + ".__call__"))
            # callable objects
            direct[f.qual], calls[f.qual] = w, c
            if f.cls is not None:
                byname.setdefault(f.name, []).append(f.qual)
        ambiguous = {"get", "items", "keys", "values", "copy", "sum", "append", "pop", "update", "eval", "add", "sample"}
        res = {q: set(w) for q, w in direct.items()}
        ch = True
        while ch:
            ch = False
            for q in res:
                for kind, n in calls[q]:
                    tgts = [n] if kind == "f" else ([] if n in ambiguous else byname.get(n, []))
                    for t in tgts:
                        if t in res and not res[t] <= res[q]:
                            res[q] |= res[t]
                            ch = True
        self._writes = {q: frozenset(w) for q, w in res.items()}

    def havoc_call(self, st, qual, args, site):
        if not self.c.havoc_calls:
            return
        w = self.writes(qual)
        if not w:
            return
        objs = [a for a in args if a.k in ("sym", "attr", "idx", "call", "havoc", "loop", "phi", "ite", "upd", "elem")
                and not (a.k == "call" and a.a[0].startswith("np."))]
        for a in objs:
            for p in list(st.store):
                key = p.a[1] if p.k == "attr" else ("[%s]" % cval(p.a[1]) if is_const(p.a[1]) else "[*]")
                if key in w and self._under(p.a[0], a):
                    st.store[p] = mk("havoc", site, key, p.a[0])
            st.inval = st.inval + ((a, w, site),)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states, fr):
        """-> [(state, ctl, value)]"""
        live = list(states)
        done = []
        for s in stmts:
            if not live:
                break
            nxt = []
            for st in live:
                for o in self.exec_stmt(s, st, fr):
                    if o[1] is None:
                        nxt.append(o)
                    else:
                        done.append(o)
            nxt = self.merge(nxt, self.site(s, fr)) if len(nxt) > 1 else nxt
            live = [o[0] for o in nxt]
            if len(done) > self.c.cap:
                done = self.merge(done, self.site(s, fr))
        done = self.merge(done, ("blk",) + self.site(stmts[0], fr)) if len(done) > 1 and stmts else done
        return done + [(s, None, None) for s in live]

    def site(self, node, fr):
        return fr.path + ((fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)

    def _flush(self, outs):
        if self.pending:
            outs = outs + self.pending
            self.pending = []
        return outs

    def exec_stmt(self, s, st, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {fr.mod.rel}:{s.lineno}")
        saved = self.pending
        self.pending = []
        outs = m(s, st.copy(), fr)
        outs = outs + self.pending
        self.pending = saved
        return outs

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, None, None)]
        return [(x, None, None) for x, _ in self.ev(s.value, st, fr)]

    def x_Pass(self, s, st, fr):
        return [(st, None, None)]

    def x_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = mk("mod", a.name if a.asname else a.name.split(".")[0])
        return [(st, None, None)]

    def x_ImportFrom(self, s, st, fr):
        for a in s.names:
            n = a.asname or a.name
            if n in fr.mod.imports:
                st.env[n] = self._resolved(self.p.resolve_dotted(fr.mod.imports[n]), fr)
        return [(st, None, None)]

    def x_Global(self, s, st, fr):
        return [(st, None, None)]
    x_Nonlocal = x_Global

    def x_Assign(self, s, st, fr):
        outs = []
        for x, v in self.ev(s.value, st, fr):
            xs = [x]
            for t in s.targets:
                nx = []
                for y in xs:
                    nx += self.assign(t, v, y, fr)
                xs = nx
            outs += [(y, None, None) for y in xs]
        return outs

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None, None)]
        outs = []
        for x, v in self.ev(s.value, st, fr):
            outs += [(y, None, None) for y in self.assign(s.target, v, x, fr)]
        return outs

    def x_AugAssign(self, s, st, fr):
        outs = []
        op = OPS[type(s.op)]
        load = ast.copy_location(_as_load(s.target), s.target)
        for x, old in self.ev(load, st, fr):
            for y, v in self.ev(s.value, x, fr):
                new = self.binop(op, old, v)
                if self.c.track_op:
                    self.emit(y, "op", (op, old, v), s, fr)
                if self.c.track_store(None, "aug"):
                    self.emit(y, "aug", (old, op, v, ast.dump(s.target) if False else type(s.target).__name__), s, fr)
                outs += [(z, None, None) for z in self.assign(s.target, new, y, fr, aug=True)]
        return outs

    def x_Delete(self, s, st, fr):
        xs = [st]
        for t in s.targets:
            nx = []
            for x in xs:
                if isinstance(t, ast.Name):
                    x.env.pop(t.id, None)
                    nx.append(x)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, fr):
                        y.store[attr(b, t.attr)] = UNBOUND
                        if self.c.track_store(b, t.attr):
                            self.emit(y, "delattr", (b, t.attr), s, fr)
                        nx.append(y)
                elif isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x, fr):
                        for z, k in self.ev_slice(t.slice, y, fr):
                            if self.c.track_store(b, k):
                                self.emit(z, "delidx", (b, k), s, fr)
                            z.store[idx(b, k)] = UNBOUND
                            nx.append(z)
                else:
                    nx.append(x)
            xs = nx
        return [(x, None, None) for x in xs]

    def x_Return(self, s, st, fr):
        if s.value is None:
            return [(st, "return", NONE)]
        return [(x, "return", v) for x, v in self.ev(s.value, st, fr)]

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            v = mk("exc", "reraise")
            outs = [(st, v)]
        else:
            outs = []
            for x, v in self.ev(s.exc, st, fr):
                n = dotted(s.exc.func if isinstance(s.exc, ast.Call) else s.exc)
                outs.append((x, mk("exc", n or "?")))
        res = []
        for x, v in outs:
            if self.c.track_raise:
                self.emit(x, "raise", (v,), s, fr)
            res.append((x, "raise", v))
        return res

    def x_Break(self, s, st, fr):
        return [(st, "break", None)]

    def x_Continue(self, s, st, fr):
        return [(st, "continue", None)]

    def x_Assert(self, s, st, fr):
        outs = []
        for x, c in self.ev(s.test, st, fr):
            y = self.assume(x, c, True)
            if y is not None:
                outs.append((y, None, None))
            z = self.assume(x, c, False)
            if z is not None:
                outs.append((z, "raise", mk("exc", "AssertionError")))
        return outs

    def x_FunctionDef(self, s, st, fr):
        from .program import Func
        self._uid += 1
        f = Func(fr.mod, s, None, fr.func)
        f.cls = fr.func.cls if False else None
        key = self.site(s, fr)
        t = mk("fn", key)
        self.closures[t] = (f, dict(st.env), fr)
        st.env[s.name] = t
        return [(st, None, None)]
    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, fr):
        st.env[s.name] = sym("localclass:" + s.name)
        return [(st, None, None)]

    def x_If(self, s, st, fr):
        outs = []
        for x, c in self.ev(s.test, st, fr):
            a = self.assume(x, c, True)
            b = self.assume(x, c, False)
            oa = self.exec_block(s.body, [a.copy()], fr) if a is not None else []
            ob = (self.exec_block(s.orelse, [b.copy()], fr) if s.orelse else [(b.copy(), None, None)]) if b is not None else []
            if a is not None and b is not None and len(oa) == 1 and len(ob) == 1:
                outs += self.merge(oa + ob, self.site(s, fr), c)
            else:
                fa = [o for o in oa if o[1] is None]
                fb = [o for o in ob if o[1] is None]
                rest = [o for o in oa + ob if o[1] is not None]
                if len(fa) == 1 and len(fb) == 1:
                    outs += rest + self.merge(fa + fb, self.site(s, fr), c)
                else:
                    outs += self.merge(oa + ob, self.site(s, fr))
        return outs

    def x_With(self, s, st, fr):
        states = [st]
        names = []
        for it in s.items:
            nx = []
            for x in states:
                for y, v in self.ev(it.context_expr, x, fr):
                    self._ctx(y, "with_enter", v, s, fr)
                    names.append(v)
                    if it.optional_vars is not None:
                        nx += self.assign(it.optional_vars, v, y, fr)
                    else:
                        nx.append(y)
            states = nx
        outs = self.exec_block(s.body, states, fr)
        for o in outs:
            for v in names:
                self._ctx(o[0], "with_exit", v, s, fr)
        return outs

    def _ctx(self, st, kind, v, s, fr):
        if self.c.track_call("with:" + (v.a[0] if v.k == "call" else v.k)):
            self.emit(st, kind, (v,), s, fr)

    def x_Try(self, s, st, fr):
        # handler entry: states before each top-level statement and explicit raises
        entry, outs, live = [], [], [st.copy()]
        raised = []
        for b in s.body:
            for x in live:
                e = x.copy()
                entry.append(e)
            res = []
            for x in live:
                res += self.exec_stmt(b, x, fr)
            nxt = []
            for o in res:
                if o[1] is None:
                    nxt.append(o)
                elif o[1] == "raise":
                    raised.append(o)
                else:
                    outs.append(o)
            nxt = self.merge(nxt, self.site(b, fr))
            live = [o[0] for o in nxt]
            # the statement may also raise after its inlined effects
            for x in live:
                if len(x.events) != len(entry[-1].events):
                    entry.append(x.copy())
        norm = [(x, None, None) for x in live]
        if s.orelse and live:
            norm = self.exec_block(s.orelse, live, fr)
        hin = [(x, None, None) for x in entry] + [(x, None, None) for x, _, _ in raised]
        hout = []
        if s.handlers:
            # join entry states with the same trace
            hm = self.merge([(x.copy(), None, None) for x, _, _ in hin], ("try",) + self.site(s, fr))
            for h in s.handlers:
                for x, _, _ in hm:
                    y = x.copy()
                    if h.name:
                        y.env[h.name] = sym("exc:" + h.name)
                    if self.c.track_call("except"):
                        self.emit(y, "except", (dotted(h.type) if h.type is not None else None,), h, fr)
                    hout += self.exec_block(h.body, [y], fr)
            # explicit raises not matched by a typed handler propagate too
            for o in raised:
                n = o[2].a[0] if o[2] is not None and o[2].k == "exc" else "?"
                if not any(_catches(h, n) for h in s.handlers):
                    outs.append(o)
        else:
            outs += raised
            if s.finalbody:
                outs += [(x.copy(), "raise", mk("exc", "?")) for x, _, _ in
                         self.merge([(x.copy(), None, None) for x in entry], ("fin",) + self.site(s, fr))]
        allo = outs + norm + hout
        if s.finalbody:
            res = []
            for x, ctl, v in allo:
                for y, c2, v2 in self.exec_block(s.finalbody, [x], fr):
                    res.append((y, ctl, v) if c2 is None else (y, c2, v2))
            allo = res
        return self.merge(allo, self.site(s, fr)) if len(allo) > 1 else allo
    x_TryStar = x_Try

    # ---- loops
    def _assigned(self, stmts):
        names, attrs = set(), set()
        for s in stmts:
            for n in ast.walk(s):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = list(n.targets)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)):
                    tg = [n.target]
                elif isinstance(n, ast.NamedExpr):
                    tg = [n.target]
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    tg = [n.optional_vars]
                elif isinstance(n, ast.Delete):
                    tg = list(n.targets)
                elif isinstance(n, ast.FunctionDef):
                    names.add(n.name)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    y = n.func.value
                    if isinstance(y, ast.Name):
                        names.add(y.id)
                    elif isinstance(y, ast.Attribute):
                        attrs.add(y.attr)
                while tg:
                    x = tg.pop()
                    if isinstance(x, (ast.Tuple, ast.List)):
                        tg += x.elts
                    elif isinstance(x, ast.Starred):
                        tg.append(x.value)
                    elif isinstance(x, ast.Name):
                        names.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        attrs.add(x.attr)
                    elif isinstance(x, ast.Subscript):
                        y = x
                        while isinstance(y, ast.Subscript):
                            if isinstance(y.slice, ast.Constant) and isinstance(y.slice.value, str):
                                attrs.add("[%s]" % y.slice.value)
                                if isinstance(y.value, ast.Name):
                                    y = None
                                    break
                            y = y.value
                        if isinstance(y, ast.Name):
                            names.add(y.id)
                        elif isinstance(y, ast.Attribute):
                            attrs.add(y.attr)
        return names, attrs

    def _havoc_loop(self, st, s, fr, body):
        names, attrs = self._assigned(body)
        # attribute writes of in-repo callees
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call):
                    q = self._callee_guess(n, fr)
                    for qq in q:
                        attrs |= set(self.writes(qq)) if self.c.havoc_calls else set()
        site = self.site(s, fr)
        h = st.copy()
        for n in names:
            if n in h.env:
                t = mk("loop", site, n)
                self.phi_alts.setdefault(t, set()).add(h.env[n])
                c = self.cls_of(h.env[n])
                if c:
                    self.types[t] = c
                h.env[n] = t
        if attrs:
            for p in list(h.store):
                key = p.a[1] if p.k == "attr" else ("[%s]" % cval(p.a[1]) if is_const(p.a[1]) else "[*]")
                if key in attrs:
                    t = mk("loop", site, key, p.a[0])
                    self.phi_alts.setdefault(t, set()).add(h.store[p])
                    c = self.cls_of(h.store[p])
                    if c:
                        self.types[t] = c
                    h.store[p] = t
            h.inval = h.inval + ((None, frozenset(attrs), ("loop",) + site),)
        h.loops = h.loops + (site,)
        return h, names

    def _callee_guess(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name):
            r = self.p.resolve_global(fr.mod, f.id)
            if r and r[0] == "func":
                return [r[1].qual]
            if f.id in self.c.types:
                return [self.c.types[f.id] + ".__call__"]
        elif isinstance(f, ast.Attribute):
            out = []
            if f.attr in self.c.types:
                out.append(self.c.types[f.attr] + ".__call__")
            if f.attr in NP_METHODS or f.attr in ("get", "items", "keys", "append", "update", "pop", "values"):
                return out
            for c in self.p.classes.values():
                if f.attr in c.methods:
                    out.append(c.methods[f.attr].qual)
            return out
        return []

    def _literal_items(self, it, st):
        it = self.simp(it, st)
        if it.k in ("tup", "lst") and not any(x.k == "star" for x in it.a):
            return list(it.a)
        if it.k == "const" and isinstance(cval(it), str) and len(cval(it)) <= 12:
            return [const(c) for c in cval(it)]
        if it.k == "dct":
            return [k for k, v in it.a]
        if it.k == "call":
            f, a = it.a[0], it.a[1]
            if f == "range" and all(is_const(x) and isinstance(cval(x), int) for x in a) and not it.a[2]:
                try:
                    r = range(*[cval(x) for x in a])
                except Exception:
                    return None
                return [const(i) for i in r] if len(r) <= 16 else None
            if f == "enumerate" and a:
                b = self._literal_items(a[0], st)
                return None if b is None else [mk("tup", const(i), x) for i, x in enumerate(b)]
            if f == "zip":
                bs = [self._literal_items(x, st) for x in a]
                return None if any(b is None for b in bs) else [mk("tup", *z) for z in zip(*bs)]
            if f in ("dict.items", "dict.keys", "dict.values") and a and a[0].k == "dct":
                return [mk("tup", k, v) if f.endswith("items") else (k if f.endswith("keys") else v) for k, v in a[0].a]
            if f in ("list", "tuple", "reversed", "sorted") and len(a) == 1:
                b = self._literal_items(a[0], st)
                if b is not None and f == "reversed":
                    return b[::-1]
                return b if f != "sorted" else None
        return None

    def x_For(self, s, st, fr):
        outs = []
        for x, it in self.ev(s.iter, st, fr):
            items = self._literal_items(it, x)
            if items is not None and len(items) <= 16:
                outs += self._unroll(s, x, items, fr)
            else:
                outs += self._sym_loop(s, x, fr, it)
        return outs
    x_AsyncFor = x_For

    def _unroll(self, s, st, items, fr):
        live, outs, broke = [st], [], []
        for i, item in enumerate(items):
            nxt = []
            fr2 = Frame(fr.func, fr.depth, fr.path + (("u", s.lineno, s.col_offset, i),), fr.selfcls)
            for x in live:
                for y in self.assign(s.target, item, x, fr):
                    for o in self.exec_block(s.body, [y], fr2):
                        if o[1] in (None, "continue"):
                            nxt.append((o[0], None, None))
                        elif o[1] == "break":
                            broke.append((o[0], None, None))
                        else:
                            outs.append(o)
            nxt = self.merge(nxt, self.site(s, fr2))
            live = [o[0] for o in nxt]
        if s.orelse:
            outs += self.exec_block(s.orelse, live, fr)
        else:
            outs += [(x, None, None) for x in live]
        return self.merge(outs + broke, self.site(s, fr))

    def _sym_loop(self, s, st, fr, it=None):
        h, names = self._havoc_loop(st, s, fr, s.body + ([ast.Assign(targets=[s.target], value=None)] if False else []))
        site = self.site(s, fr)
        is_while = isinstance(s, ast.While)
        outs, exits, breaks = [], [], []
        always = False
        if is_while:
            starts = []
            for x, c in self.ev(s.test, h, fr):
                always = self.truth(c, x) is True and is_const(c)
                y = self.assume(x, c, True)
                if y is not None:
                    starts.append(y)
            zero = []
            if not always:
                for x, c in self.ev(s.test, st.copy(), fr):
                    y = self.assume(x, c, False)
                    if y is not None:
                        zero.append(y)
        else:
            starts = self.assign(s.target, mk("elem", it, site), h.copy(), fr)
            zero = [st.copy()]
        body = self.exec_block(s.body, starts, fr)
        for o in body:
            x = o[0]
            if o[1] in (None, "continue"):
                for n in names:
                    t = mk("loop", site, n)
                    if n in x.env and x.env[n] is not t:
                        self.phi_alts.setdefault(t, set()).add(x.env[n])
                for p, v in x.store.items():
                    key = p.a[1] if p.k == "attr" else ("[%s]" % cval(p.a[1]) if is_const(p.a[1]) else "[*]")
                    t = mk("loop", site, key, p.a[0])
                    if t in self.phi_alts and v is not t:
                        self.phi_alts[t].add(v)
                x = x.copy()
                x.loops = st.loops
                if is_while:
                    if not always:
                        for y, c in self.ev(s.test, x, fr):
                            z = self.assume(y, c, False)
                            if z is not None:
                                exits.append((z, None, None))
                else:
                    exits.append((x, None, None))
            elif o[1] == "break":
                x = x.copy()
                x.loops = st.loops
                breaks.append((x, None, None))
            else:
                x = x.copy()
                x.loops = st.loops
                outs.append((x, o[1], o[2]))
        exits = self.merge([(z, None, None) for z in zero] + exits, ("loopexit",) + site)
        if s.orelse:
            ex = []
            for x, _, _ in exits:
                ex += self.exec_block(s.orelse, [x], fr)
            exits = ex
        return self.merge(outs + exits + breaks, ("loopout",) + site)

    def x_While(self, s, st, fr):
        return self._sym_loop(s, st, fr)

    def x_Match(self, s, st, fr):
        outs = []
        for x, v in self.ev(s.subject, st, fr):
            rest = x
            for c in s.cases:
                y = rest.copy()
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        y.env[nm] = mk("havoc", self.site(s, fr), nm)
                pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
                if all(isinstance(q, (ast.MatchValue, ast.MatchSingleton)) for q in pats):
                    live = True
                    for q in pats:
                        y = rest.copy()
                        if isinstance(q, ast.MatchValue):
                            z, pv = self.ev(q.value, y, fr)[0]
                            cond = self.cmpop("eq", v, pv)
                        else:
                            z, cond = y, self.cmpop("is", v, const(q.value))
                        for a in self.guarded(c, self.assume(z, cond, True), fr):
                            outs += self.exec_block(c.body, [a], fr)
                        if c.guard is None:
                            r = self.assume(rest, cond, False)
                            if r is None:
                                live = False
                                break
                            rest = r
                    if not live:
                        rest = None
                        break
                else:
                    for a in self.guarded(c, y, fr):
                        outs += self.exec_block(c.body, [a], fr)
                    if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                        rest = None
                        break
            if rest is not None:
                outs.append((rest, None, None))
        return self.merge(outs, self.site(s, fr))

    def guarded(self, c, st, fr):
        if st is None:
            return []
        if c.guard is None:
            return [st]
        out = []
        for z, g in self.ev(c.guard, st, fr):
            a = self.assume(z, g, True)
            if a is not None:
                out.append(a)
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if self.cls_of(v) is None and t.id in self.c.types and v.k not in ("const", "ite", "phi"):
                self.types.setdefault(v, self.c.types[t.id])
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.simp(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                xs = [st]
                for i, e in enumerate(t.elts):
                    val = mk("havoc", self.site(t, fr), "star%d" % i)
                    tgt = e.value if isinstance(e, ast.Starred) else e
                    if i < star[0]:
                        val = self.read_idx(st, v, const(i))
                    nx = []
                    for x in xs:
                        nx += self.assign(tgt, val, x, fr)
                    xs = nx
                return xs
            if self.c.track_store(None, "unpack"):
                self.emit(st, "unpack", (v, n), t, fr)
            if v.k == "ite" and self._lit(v.a[1]) and self._lit(v.a[2]) and len(v.a[1].a) == n and len(v.a[2].a) == n:
                vals = [mk("ite", v.a[0], a, b) if a is not b else a for a, b in zip(v.a[1].a, v.a[2].a)]
            elif v.k in ("tup", "lst") and len(v.a) == n and not any(x.k == "star" for x in v.a):
                vals = list(v.a)
            elif v.k in ("phi",) and all(x.k in ("tup", "lst") and len(x.a) == n for x in self.phi_alts.get(v, [NONE])):
                alts = [x for x in v.a[2]]
                vals = [self.phi(v.a[0], (v.a[1], i), [x.a[i] for x in alts]) if len({x.a[i] for x in alts}) > 1 else alts[0].a[i]
                        for i in range(n)]
            else:
                vals = [self.read_idx(st, v, const(i)) for i in range(n)]
            xs = [st]
            for e, val in zip(t.elts, vals):
                nx = []
                for x in xs:
                    nx += self.assign(e, val, x, fr)
                xs = nx
            return xs
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                self.write_attr(x, b, t.attr, v, t, fr)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, fr):
                for y, k in self.ev_slice(t.slice, x, fr):
                    self.write_idx(y, b, k, v, t, fr)
                    out.append(y)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise AnalysisBroken(f"unsupported assignment target at {fr.mod.rel}:{t.lineno}")

    # ------------------------------------------------------------ expressions
    def ev1(self, e, st, fr):
        r = self.ev(e, st, fr)
        return r[0]

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, mk("havoc", self.site(e, fr), type(e).__name__))]
        return m(e, st, fr)

    def ev_seq(self, es, st, fr):
        acc = [(st, ())]
        for e in es:
            nx = []
            for s, vs in acc:
                for s2, v in self.ev(e, s, fr):
                    nx.append((s2, vs + (v,)))
            acc = nx
        return acc

    def e_Constant(self, e, st, fr):
        try:
            return [(st, const(e.value))]
        except TypeError:
            return [(st, const(repr(e.value)))]

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            v = st.env[e.id]
            if v is not UNBOUND:
                v = self.simp(v, st)
                if v.k in ("ite", "phi") and _may_unbound(v, self, st):
                    self.unbound.append((e.id, fr, e, v, unbound_gates(v, self, st)))
                return [(st, v)]
            self.unbound.append((e.id, fr, e, v, [((), dict(st.facts))]))
        elif self.c.path_sensitive and e.id in own_locals(fr.func.node):
            self.unbound.append((e.id, fr, e, UNBOUND, [((), dict(st.facts))]))
        r = self.p.resolve_global(fr.mod, e.id)
        if r is not None:
            return [(st, self._resolved(r, fr, e.id))]
        if e.id in BUILTINS:
            return [(st, mk("mod", e.id))]
        return [(st, sym("global:" + e.id))]

    def _resolved(self, r, fr, name=None):
        if r is None:
            return sym("global:" + str(name))
        if r[0] == "func":
            return mk("fnref", r[1].qual)
        if r[0] == "class":
            return mk("cls", r[1].name)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "const":
            m, node = r[1], r[2]
            v = self._const_expr(m, node)
            return v if v is not None else sym(f"const:{m.short}.{name}")
        return sym("global:?")

    def _const_expr(self, m, node):
        """module-level literal constants"""
        try:
            v = ast.literal_eval(node)
        except Exception:
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                r = self.p.resolve_global(m, node.func.id)
                if r and r[0] == "class":
                    t = call(r[1].name, (), (), ("module", m.short, node.lineno))
                    return t
                if r and r[0] == "mod":
                    return call(_canon(r[1]), tuple(), (), ("module", m.short, node.lineno))
            return None
        return lit(v)

    def e_Attribute(self, e, st, fr):
        return [(s, self.read_attr(s, b, e.attr, fr, e)) for s, b in self.ev(e.value, st, fr)]

    def e_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            for s2, k in self.ev_slice(e.slice, s, fr):
                if self.c.track_read and self.c.track_read(b, k):
                    self.emit(s2, "getidx", (b, k), e, fr)
                out.append((s2, self.read_idx(s2, b, k)))
        return out

    def ev_slice(self, e, st, fr):
        if isinstance(e, ast.Slice):
            out = []
            for s, vs in self.ev_seq([x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)], st, fr):
                out.append((s, mk("slice", *vs)))
            return out
        if isinstance(e, ast.Tuple):
            acc = [(st, ())]
            for x in e.elts:
                nx = []
                for s, vs in acc:
                    for s2, v in self.ev_slice(x, s, fr):
                        nx.append((s2, vs + (v,)))
                acc = nx
            return [(s, mk("tup", *vs)) for s, vs in acc]
        return self.ev(e, st, fr)

    e_Slice = ev_slice

    def e_Tuple(self, e, st, fr):
        return [(s, mk("tup", *vs)) for s, vs in self.ev_seq(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        return [(s, mk("lst", *vs)) for s, vs in self.ev_seq(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(s, mk("set", *vs)) for s, vs in self.ev_seq(e.elts, st, fr)]

    def e_Starred(self, e, st, fr):
        return [(s, mk("star", v)) for s, v in self.ev(e.value, st, fr)]

    def e_Dict(self, e, st, fr):
        if not e.keys:
            return [(st, call("dict", (), (), self.site(e, fr)))]
        if any(k is None for k in e.keys):
            return [(s, mk("havoc", self.site(e, fr), "dict")) for s, _ in self.ev_seq(e.values, st, fr)]
        out = []
        for s, ks in self.ev_seq(e.keys, st, fr):
            for s2, vs in self.ev_seq(e.values, s, fr):
                out.append((s2, mk("dct", *tuple(zip(ks, vs)))))
        return out

    def e_JoinedStr(self, e, st, fr):
        parts = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, vs in self.ev_seq(parts, st, fr):
            txt = "".join(v.value if isinstance(v, ast.Constant) else "{}" for v in e.values)
            if all(is_const(v) for v in vs):
                try:
                    out.append((s, const(txt.format(*[cval(v) for v in vs]))))
                    continue
                except Exception:
                    pass
            out.append((s, mk("fstr", txt, vs)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            for s2 in self.assign(e.target, v, s.copy(), fr):
                out.append((s2, v))
        return out

    def e_Lambda(self, e, st, fr):
        from .program import Func
        f = Func(fr.mod, e, None, fr.func)
        t = mk("fn", self.site(e, fr))
        self.closures[t] = (f, dict(st.env), fr)
        return [(st, t)]

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                out.append((s, self.neg_bool(v)))
            elif isinstance(e.op, ast.USub):
                if is_const(v) and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
                    out.append((s, const(-cval(v))))
                else:
                    out.append((s, v.a[0] if v.k == "neg" else mk("neg", v)))
            elif isinstance(e.op, ast.Invert):
                out.append((s, v.a[0] if v.k == "inv" else mk("inv", v)))
            else:
                out.append((s, v))
        return out

    def neg_bool(self, v):
        if v.k == "not":
            return v.a[0]
        if v.k == "const":
            return const(not cval(v))
        if v.k == "inv":
            return v.a[0]
        return mk("not", v)

    def e_BinOp(self, e, st, fr):
        out = []
        op = OPS[type(e.op)]
        for s, (a, b) in self.ev_seq([e.left, e.right], st, fr):
            if self.c.track_op:
                self.emit(s, "op", (op, a, b), e, fr)
            out.append((s, self.binop(op, a, b)))
        return out

    def binop(self, op, a, b):
        if is_const(a) and is_const(b) and op in FOLD:
            try:
                x, y = cval(a), cval(b)
                if isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)) and (op != "**" or abs(y) < 20):
                    return const(FOLD[op](x, y))
            except Exception:
                pass
        if op == "+" and a.k in ("tup", "lst") and a.k == b.k:
            return mk(a.k, *(a.a + b.a))
        if op in ("+", "*"):
            k = "add" if op == "+" else "mul"
            xs = (a.a if a.k == k else (a,)) + (b.a if b.k == k else (b,))
            return mk(k, *xs)
        return mk("bin", op, a, b)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        k = "and" if is_and else "or"
        acc = [(st, st.facts, ())]
        outs = []
        for i, x in enumerate(e.values):
            nx = []
            for s, f0, vs in acc:
                if i > 0:
                    y = self.assume(s, vs[-1], is_and)
                    if y is None:       # short-circuits for certain
                        outs.append((s, f0, vs))
                        continue
                else:
                    y = s.copy()
                n0 = len(y.events)
                rs = self.ev(x, y, fr)
                if any(len(r.events) != n0 for r, _ in rs):
                    z = self.assume(s, vs[-1], not is_and) if i > 0 else None
                    if z is not None:
                        outs.append((z, z.facts, vs))
                    for r, v in rs:
                        nx.append((r, r.facts, vs + (v,)))
                else:
                    for r, v in rs:
                        nx.append((r, f0, vs + (v,)))
            acc = nx
        res = []
        for s, f0, vs in acc + outs:
            s = s.copy()
            s.facts = dict(f0)
            res.append((s, self.mkbool(k, vs)))
        return res

    def mkbool(self, k, vs):
        xs = []
        for v in vs:
            if v.k == k:
                xs += list(v.a)
            else:
                xs.append(v)
        ys = []
        for v in xs:
            if v.k == "const" and isinstance(cval(v), bool):
                if cval(v) == (k == "or"):
                    return v
                continue
            if v not in ys:
                ys.append(v)
        if not ys:
            return TRUE if k == "and" else FALSE
        if len(ys) == 1:
            return ys[0]
        return mk(k, *ys)

    def e_IfExp(self, e, st, fr):
        out = []
        for s, c in self.ev(e.test, st, fr):
            a = self.assume(s, c, True)
            b = self.assume(s, c, False)
            ra = self.ev(e.body, a.copy(), fr) if a is not None else []
            rb = self.ev(e.orelse, b.copy(), fr) if b is not None else []
            if not self.c.fork_ite and len(ra) == 1 and len(rb) == 1 and len(ra[0][0].events) == len(s.events) == len(rb[0][0].events):
                s2 = s.copy()
                va, vb = ra[0][1], rb[0][1]
                out.append((s2, va if va is vb else mk("ite", c, va, vb)))
            else:
                out += ra + rb
        return out

    def e_Compare(self, e, st, fr):
        out = []
        for s, vs in self.ev_seq([e.left] + e.comparators, st, fr):
            parts = [self.cmpop(type(o).__name__, vs[i], vs[i + 1]) for i, o in enumerate(e.ops)]
            if self.c.track_op:
                for i, o in enumerate(e.ops):
                    self.emit(s, "op", (type(o).__name__, vs[i], vs[i + 1]), e, fr)
            out.append((s, self.mkbool("and", parts)))
        return out

    def cmpop(self, op, a, b):
        op = op.lower()
        if op == "gt":
            return mk("cmp", "lt", b, a)
        if op in ("gte", "ge"):
            return mk("cmp", "le", b, a)
        if op in ("lte", "le"):
            return mk("cmp", "le", a, b)
        if op == "lt":
            return mk("cmp", "lt", a, b)
        if op == "noteq":
            return mk("inv", self.cmpop("eq", a, b))
        if op == "isnot":
            return mk("not", self.cmpop("is", a, b))
        if op == "notin":
            return mk("not", mk("cmp", "in", a, b))
        if op in ("eq", "is"):
            if a.k == "const" and b.k != "const":
                a, b = b, a
            elif a.k != "const" and b.k != "const" and repr(b) < repr(a):
                a, b = b, a
            if op == "eq" and b in (TRUE, FALSE) and a.k == "cmp":
                return a if b is TRUE else mk("inv", a)
            return mk("cmp", op, a, b)
        return mk("cmp", op, a, b)

    # ---- comprehensions
    def _comp(self, e, st, fr, elts, kind):
        saved = dict(st.env)
        s = st
        iters, conds = [], []
        gens = e.generators
        if len(gens) == 1 and not gens[0].ifs:
            s, it = self.ev1(gens[0].iter, s, fr)
            items = self._literal_items(it, s)
            if items is not None and len(items) <= 16:
                vals = []
                for i, x in enumerate(items):
                    s = self.assign(gens[0].target, x, s, fr)[0]
                    fr2 = Frame(fr.func, fr.depth, fr.path + (("c", e.lineno, e.col_offset, i),), fr.selfcls)
                    s, vs = self.ev_seq(elts, s, fr2)[0]
                    vals.append(vs)
                s = s.copy()
                s.env = dict(saved)
                if kind == "dict":
                    return [(s, mk("dct", *tuple((a, b) for a, b in vals)))]
                return [(s, mk("lst" if kind != "set" else "set", *[v[0] for v in vals]))]
        for g in gens:
            s, it = self.ev1(g.iter, s, fr)
            s = self.assign(g.target, mk("elem", it, self.site(g.iter, fr)), s.copy(), fr)[0]
            iters.append(it)
            for c in g.ifs:
                s, cv = self.ev1(c, s, fr)
                conds.append(cv)
        s, vs = self.ev_seq(elts, s, fr)[0]
        s = s.copy()
        s.env = dict(saved)
        return [(s, mk("comp", kind, vs, tuple(iters), tuple(conds)))]

    def e_ListComp(self, e, st, fr):
        return self._comp(e, st.copy(), fr, [e.elt], "list")

    def e_SetComp(self, e, st, fr):
        return self._comp(e, st.copy(), fr, [e.elt], "set")

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, st.copy(), fr, [e.elt], "gen")

    def e_DictComp(self, e, st, fr):
        return self._comp(e, st.copy(), fr, [e.key, e.value], "dict")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        self.stats["calls"] += 1
        out = []
        # super()
        for s, f in self.ev(e.func, st, fr):
            star = [a for a in e.args if isinstance(a, ast.Starred)]
            for s2, vs in self.ev_seq(list(e.args) + [k.value for k in e.keywords], s, fr):
                args = list(vs[: len(e.args)])
                flat = []
                for a in args:
                    if a.k == "star" and a.a[0].k in ("tup", "lst"):
                        flat += list(a.a[0].a)
                    else:
                        flat.append(a)
                args = flat
                kws = []
                for kw, v in zip(e.keywords, vs[len(e.args):]):
                    if kw.arg is None:
                        if v.k == "dct" and all(is_const(k) for k, _ in v.a):
                            kws += [(cval(k), x) for k, x in v.a]
                        else:
                            kws.append(("**", v))
                    else:
                        kws.append((kw.arg, v))
                out += self.do_call(f, args, kws, s2, e, fr)
        return out

    def do_call(self, f, args, kws, st, e, fr):
        f = self.simp(f, st)
        if f.k == "mod":
            return self.call_external(_canon(f.a[0]), args, kws, st, e, fr)
        if f.k == "fnref":
            fn = self.p.functions.get(f.a[0])
            if fn is not None:
                return self.call_repo(fn, args, kws, st, e, fr)
        if f.k == "cls":
            return self.construct(f.a[0], args, kws, st, e, fr)
        if f.k == "bound":
            b, n, c = f.a
            # virtual dispatch: ambiguous when overridden below the static class
            fn = self.p.method(c, n)
            if fn.is_static:
                return self.call_repo(fn, args, kws, st, e, fr, selfcls=c)
            subs = [s for s in self.p.subclasses(c) if n in s.methods]
            amb = bool(subs) and b.k != "sym" and not (b.k == "call" and b.a[0] == c)
            if subs and b.k == "sym" and b.a[0] != "self":
                amb = True
            return self.call_repo(fn, [b] + args, kws, st, e, fr, selfcls=c, ambiguous=amb)
        if f.k == "fn":
            func, env, dfr = self.closures[f]
            cenv = dict(env)
            if dfr.func is fr.func and dfr.path == fr.path:
                cenv.update(st.env)
            return self.inline(func, args, kws, st, e, fr, closure_env=cenv, selfcls=dfr.selfcls)
        if f.k == "attr":
            # method on an object of unknown / external class
            b, n = f.a
            return self.call_method(b, n, args, kws, st, e, fr)
        if f.k == "havoc" and isinstance(e.func, ast.Attribute) and len(f.a) > 2:
            return self.call_method(f.a[2], f.a[1], args, kws, st, e, fr)
        c = self.cls_of(f)
        if c and c in self.p.classes and self.p.method(c, "__call__") is not None:
            fn = self.p.method(c, "__call__")
            return self.call_repo(fn, [f] + args, kws, st, e, fr, selfcls=c)
        if f.k == "call" and f.a[0] == "super" or (isinstance(e.func, ast.Attribute) and False):
            pass
        # call of an opaque value (e.g. the user's function)
        t = call("?call", [f] + args, kws, self.site(e, fr))
        if self.c.track_call("?call"):
            self.emit(st, "call", ("?call", (f,) + tuple(args), tuple(kws), t), e, fr)
        return [(st, t)]

    def call_method(self, b, n, args, kws, st, e, fr):
        if b.k == "call" and b.a[0] == "super":
            cls = fr.cls.name if fr.cls else fr.selfcls
            for c in self.p.mro(cls)[1:]:
                if n in c.methods:
                    selft = st.env.get(fr.func.posonly[0]) if fr.func.posonly else sym("self")
                    return self.call_repo(c.methods[n], [selft] + args, kws, st, e, fr, selfcls=fr.selfcls)
            t = call("super." + n, args, kws, self.site(e, fr))
            return [(st, t)]
        c = self.cls_of(b)
        if c and c in self.p.classes:
            # attribute holding a callable (e.g. self.fun)
            if attr(b, n) not in st.store and self.p.method(c, n) is None:
                cc = self.c.types.get(n)
                if cc and cc in self.p.classes and self.p.method(cc, "__call__"):
                    return self.call_repo(self.p.method(cc, "__call__"), [attr(b, n)] + args, kws, st, e, fr, selfcls=cc)
                if n in DICT_METHODS and any("dict" in (x or "") for k in self.p.mro(c) for x in k.bases):
                    return self.dict_method(b, n, args, kws, st, e, fr)
                t = call("?call", [attr(b, n)] + args, kws, self.site(e, fr))
                if self.c.track_call("?call"):
                    self.emit(st, "call", ("?call", (attr(b, n),) + tuple(args), tuple(kws), t), e, fr)
                return [(st, t)]
        cc = self.c.types.get(n)
        if cc and cc in self.p.classes and self.p.method(cc, "__call__") and n not in NP_METHODS:
            return self.call_repo(self.p.method(cc, "__call__"), [self._sym_read(st, attr(b, n))] + args, kws, st, e, fr, selfcls=cc)
        if n in DICT_METHODS and (c in ("dict", "Options", "IterationHistory") or b.k in ("dct",) or n in ("get", "items", "keys", "values")):
            return self.dict_method(b, n, args, kws, st, e, fr)
        if c and c.startswith("type:") :
            m = self.p.method(c[5:], n)
            if m is not None:
                return self.call_repo(m, ([] if m.is_static else []) + args, kws, st, e, fr, selfcls=c[5:])
        if n in NP_METHODS and c != "GP":
            if n == "copy" and c == "dict":
                return self.call_external("copy.copy", [b] + args, kws, st, e, fr)
            return self.call_external("np." + n, [b] + args, kws, st, e, fr, method=True)
        name = (c + "." if c else "?.") + n
        site = self.site(e, fr)
        t = call(name, [b] + args, kws, site)
        if self.c.track_call(name) or self.c.track_call("?." + n):
            self.emit(st, "call", (name, (b,) + tuple(args), tuple(kws), t), e, fr)
        if n in MUTATORS:
            if self.c.track_store(None, "mutate"):
                self.emit(st, "mutate", (b, n, tuple(args)), e, fr)
            if n == "append" and b.k == "lst" and len(args) == 1:
                self._append(st, b, mk("lst", *(b.a + (args[0],))), e)
            elif n == "extend" and b.k == "lst" and len(args) == 1 and args[0].k in ("lst", "tup"):
                self._append(st, b, mk("lst", *(b.a + args[0].a)), e)
            elif n == "insert" and b.k == "lst" and len(args) == 2 and is_const(args[0]) and isinstance(cval(args[0]), int) and not any(x.k == "star" for x in b.a):
                l = list(b.a)
                l.insert(cval(args[0]), args[1])
                self._append(st, b, mk("lst", *l), e)
            else:
                self._replace(st, b, mk("upd", b, const("." + n), mk("tup", *args)))
        return [(st, t)]

    def dict_method(self, b, n, args, kws, st, e, fr):
        if n == "get" and args:
            if self.c.track_read and self.c.track_read(b, args[0]):
                self.emit(st, "getidx", (b, args[0]), e, fr)
            if self.c.track_call("dict.get"):
                self.emit(st, "call", ("dict.get", (b,) + tuple(args), tuple(kws), None), e, fr)
            v = self.read_idx(st, b, args[0])
            if len(args) > 1 and v.k == "idx" and b.k in ("dct",):
                v = args[1]
            return [(st, v)]
        name = "dict." + n
        t = call(name, [b] + args, kws, self.site(e, fr) if n in MUTATORS else None)
        if self.c.track_call(name):
            self.emit(st, "call", (name, (b,) + tuple(args), tuple(kws), t), e, fr)
        if n in MUTATORS:
            if self.c.track_store(None, "mutate"):
                self.emit(st, "mutate", (b, n, tuple(args)), e, fr)
            if n == "update" and len(args) == 1 and args[0].k == "dct":
                for k, v in args[0].a:
                    self.write_idx(st, b, k, v, e, fr)
            elif n == "update" and kws and not args:
                for k, v in kws:
                    self.write_idx(st, b, const(k), v, e, fr)
            elif n == "pop" and args:
                v = self.read_idx(st, b, args[0])
                st.store[idx(b, args[0])] = UNBOUND
                return [(st, v)]
        return [(st, t)]

    def call_external(self, name, args, kws, st, e, fr, method=False):
        site = self.site(e, fr)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.write_attr(st, args[0], cval(args[1]), args[2], e, fr)
            return [(st, NONE)]
        if name in ("tuple", "list") and len(args) == 1 and not kws and args[0].k in ("lst", "tup"):
            return [(st, mk("tup" if name == "tuple" else "lst", *args[0].a))]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return [(st, self.read_attr(st, args[0], cval(args[1]), fr, e))]
        if name == "dict" and not args and kws and all(k != "**" for k, _ in kws):
            return [(st, mk("dct", *tuple((const(k), v) for k, v in kws)))]
        t = None
        if name in ("any", "all") and len(args) == 1 and not kws and args[0].k in ("lst", "tup", "set") \
                and not any(x.k == "star" for x in args[0].a):
            t = self.mkbool("or" if name == "any" else "and", list(args[0].a)) if args[0].a else const(name == "all")
        elif name in ("np.any", "np.all") and len(args) == 1 and not kws and args[0].k in ("lst", "tup") and args[0].a and all(is_const(x) for x in args[0].a):
            t = const((any if name == "np.any" else all)(bool(cval(x)) for x in args[0].a))
        elif name == "np.isscalar" and len(args) == 1 and (args[0].k in ("lst", "tup", "dct") or is_const(args[0])):
            t = const(is_const(args[0]) and cval(args[0]) is not None)
        elif name in ("np.any", "np.all") and len(args) == 1 and not kws:
            t = self.np_quant(name[3:], args[0])
        elif name in ("np.invert", "np.logical_not", "np.bitwise_not") and len(args) == 1:
            t = args[0].a[0] if args[0].k == "inv" else mk("inv", args[0])
        elif name in ("np.logical_and", "np.bitwise_and") and len(args) == 2:
            t = mk("bin", "&", *args)
        elif name in ("np.logical_or", "np.bitwise_or") and len(args) == 2:
            t = mk("bin", "|", *args)
        elif name in ("np.add", "np.subtract", "np.multiply", "np.divide", "np.power") and len(args) == 2 and not kws:
            t = self.binop({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "power": "**"}[name[3:]], *args)
        elif name == "np.negative" and len(args) == 1:
            t = mk("neg", args[0])
        elif name in ("np.greater", "np.less", "np.greater_equal", "np.less_equal", "np.equal", "np.not_equal") and len(args) == 2:
            t = self.cmpop({"greater": "gt", "less": "lt", "greater_equal": "gte", "less_equal": "lte", "equal": "eq",
                            "not_equal": "noteq"}[name[3:]], *args)
        elif name == "np.matmul" and len(args) == 2:
            t = mk("bin", "@", *args)
        elif name == "np.square" and len(args) == 1:
            t = mk("bin", "**", args[0], const(2))
        elif name in ("len",) and len(args) == 1 and args[0].k in ("tup", "lst") and not any(x.k == "star" for x in args[0].a):
            t = const(len(args[0].a))
        elif name in ("bool",) and len(args) == 1:
            t = args[0]
        elif name == "super":
            t = call("super", args)
        if t is None:
            sited = name in ALLOC or not name.startswith("np.") and name not in BUILTINS or name.startswith("np.random") or name == "open"
            t = call(name, args, kws, site if sited else None)
            if name in ("copy.deepcopy", "copy.copy") and args:
                src = args[0]
                for p, v in list(st.store.items()):
                    if p.a[0] is src:
                        np_ = attr(t, p.a[1]) if p.k == "attr" else idx(t, p.a[1])
                        st.store[np_] = v if v.k == "const" else (call("copy.deepcopy", (v,), (), ("c",) + site)
                                                                  if name == "copy.deepcopy" else v)
        if self.c.track_call(name):
            self.emit(st, "call", (name, tuple(args), tuple(kws), t), e, fr)
        if self.c.track_store(None, "mutate"):
            for k, v in kws:
                if k == "out":
                    self.emit(st, "mutate", (v, "out", ()), e, fr)
            if name in NP_INPLACE and args:
                self.emit(st, "mutate", (args[0], name, tuple(args[1:])), e, fr)
        if name in ("sys.exit", "exit", "os._exit"):
            self.pending.append((st, "raise", mk("exc", "SystemExit")))
            return []
        # callbacks handed to external code are analysed once for their effects
        if method and name in ("np.fill", "np.sort"):
            self._replace(st, args[0], mk("upd", args[0], const("." + name[3:]), mk("tup", *args[1:])))
        return [(st, t)]

    def np_quant(self, q, x):
        other = "all" if q == "any" else "any"
        if x.k == "inv":
            return self.neg_bool(self.np_quant(other, x.a[0]))
        if x.k == "not":
            return self.neg_bool(self.np_quant(other, x.a[0]))
        if x.k == "bin" and x.a[0] == "|" and q == "any":
            return self.mkbool("or", [self.np_quant(q, x.a[1]), self.np_quant(q, x.a[2])])
        if x.k == "bin" and x.a[0] == "&" and q == "all":
            return self.mkbool("and", [self.np_quant(q, x.a[1]), self.np_quant(q, x.a[2])])
        if x.k in ("and", "or", "not") or (x.k == "call" and x.a[0] in ("np.any", "np.all") and not x.a[2] and len(x.a[1]) == 1):
            return x
        return call("np." + q, (x,))

    def construct(self, cname, args, kws, st, e, fr):
        init = self.p.method(cname, "__init__")
        site = self.site(e, fr)
        a2, k2 = args, kws
        if init is not None:
            a2, k2 = self.normargs(init, [NONE] + list(args), kws)
            a2 = a2[1:]
        t = call(cname, a2, k2, site)
        self.types[t] = cname
        if self.c.track_call(cname):
            self.emit(st, "call", (cname, tuple(a2), tuple(k2), t), e, fr)
        if init is not None and (init.qual in self.c.inline) and fr.depth < self.c.maxdepth:
            r = self.inline(init, [t] + list(args), kws, st, e, fr, selfcls=cname)
            return [(s, t) for s, _ in r]
        return [(st, t)]

    def normargs(self, fn, args, kws):
        """bind keywords to positions using the callee signature"""
        if any(a.k == "star" for a in args) or any(k == "**" for k, _ in kws):
            return tuple(args), tuple(kws)
        names = fn.posonly
        res = list(args)
        kd = dict(kws)
        while len(res) < len(names) and names[len(res)] in kd:
            res.append(kd.pop(names[len(res)]))
        return tuple(res), tuple(sorted(kd.items()))

    def is_opaque(self, fn):
        q = fn.qual
        if q in self.c.inline:
            return False
        if q in self.c.opaque_extra:
            return True
        if self.c.inline_all:
            return False
        return q in self.baseline

    def call_repo(self, fn, args, kws, st, e, fr, selfcls=None, ambiguous=False):
        if fn.is_class and selfcls is None and fn.cls:
            args = [mk("cls", fn.cls.name)] + list(args)
        if self.is_opaque(fn) or ambiguous or fr.depth >= self.c.maxdepth or self._recursive(fn, fr):
            a2, k2 = self.normargs(fn, args, kws)
            site = self.site(e, fr)
            t = call(fn.qual, a2, k2, site)
            if self.c.track_call(fn.qual):
                self.emit(st, "call", (fn.qual, a2, k2, t), e, fr)
            self.havoc_call(st, fn.qual, list(a2) + [v for _, v in k2], site)
            return [(st, t)]
        return self.inline(fn, args, kws, st, e, fr, selfcls=selfcls)

    def _recursive(self, fn, fr):
        return any(p[0] == fn.qual for p in fr.path if len(p) == 3) or fr.func.qual == fn.qual

    def inline(self, fn, args, kws, st, e, fr, closure_env=None, selfcls=None):
        if fr.depth >= self.c.maxdepth:
            t = call("?deep", args, kws, self.site(e, fr))
            return [(st, t)]
        self.stats["functions"].add(fn.qual)
        names = fn.posonly
        env = dict(closure_env or {})
        a2, k2 = self.normargs(fn, args, kws)
        k2 = dict(k2)
        fr2 = Frame(fn, fr.depth + 1, self.site(e, fr), selfcls)
        if fn.cls is None and fn.parent is not None:
            fr2.cls = fr.cls
        d = fn.node.args
        defaults = dict(zip(names[len(names) - len(d.defaults):], d.defaults))
        for n, dv in zip(fn.kwonly, d.kw_defaults):
            if dv is not None:
                defaults[n] = dv
        for i, n in enumerate(names + fn.kwonly):
            if i < len(names) and i < len(a2):
                if a2[i].k == "star":
                    for m in names[i:]:
                        env[m] = mk("havoc", self.site(e, fr), m)
                    break
                env[n] = a2[i]
            elif n in k2:
                env[n] = k2.pop(n)
            elif n in defaults:
                s0, v = self.ev1(defaults[n], st, Frame(fn, fr.depth, fr.path))
                env[n] = v
            else:
                env[n] = mk("havoc", self.site(e, fr), n)
            if n in self.c.types and self.cls_of(env[n]) is None and env[n].k in ("sym", "call", "idx", "attr", "loop", "phi", "havoc", "elem"):
                self.types[env[n]] = self.c.types[n]
        if fn.vararg:
            env[fn.vararg] = mk("tup", *a2[len(names):])
        if fn.kwarg:
            env[fn.kwarg] = mk("dct", *tuple((const(k), v) for k, v in k2.items()))
        caller_env, caller_loops = st.env, st.loops
        s = st.copy()
        s.env = env
        outs = self.exec_body(fn, s, fr2)
        res = []
        for x, ctl, v in outs:
            x = x.copy()
            ce = dict(caller_env)
            # in-place updates of containers bound in the caller
            x_env, x.env = x.env, ce
            if ctl == "raise":
                self.pending.append((x, "raise", v))
            else:
                res.append((x, v))
            # propagate upd on identity: caller variables holding an updated container
            for n, old in list(ce.items()):
                for pn, pv in env.items():
                    if pv is old and pn in x_env and x_env[pn] is not old and self._is_update_of(x_env[pn], old):
                        ce[n] = x_env[pn]
            for i, an in enumerate(getattr(e, "args", ())):
                # a literal list passed by name and appended to by the callee
                off = len(a2) - len(e.args)
                if isinstance(an, ast.Name) and 0 <= i + off < len(names):
                    pn = names[i + off]
                    old, nw = ce.get(an.id), x_env.get(pn)
                    if old is not None and nw is not None and env.get(pn) is old and old.k == "lst" and nw.k == "lst" \
                            and nw is not old and nw.a[:len(old.a)] == old.a:
                        ce[an.id] = nw
        res2 = self._merge_vals(res, ("ret",) + self.site(e, fr))
        return res2

    def _is_update_of(self, new, old):
        d = 0
        while new.k == "upd" and d < 50:
            new = new.a[0]
            if new is old:
                return True
            d += 1
        return False

    def _merge_vals(self, res, site):
        if len(res) < 2 or self.c.path_sensitive:
            return res
        groups, order = {}, []
        for s, v in res:
            key = tuple(e.key for e in s.events)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, v))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            vals = [v for _, v in g]
            if all(v is vals[0] for v in vals):
                out.append((self.join([s for s, _ in g], site), vals[0]))
            else:
                # gate on a distinguishing fact if two alternatives
                c = None
                if len(g) == 2:
                    f1, f2 = g[0][0].facts, g[1][0].facts
                    for t, b in f1.items():
                        if t in f2 and f2[t] is not b:
                            c = t if b else None
                            if c is not None:
                                break
                            c = ("neg", t)
                            break
                if isinstance(c, tuple):
                    out.append((self.join([g[1][0], g[0][0]], site, c[1]), mk("ite", c[1], vals[1], vals[0])))
                elif c is not None:
                    out.append((self.join([s for s, _ in g], site, c), mk("ite", c, vals[0], vals[1])))
                else:
                    out.append((self.join([s for s, _ in g], site), self.phi(site, "ret", vals)))
        return out


def lit(v):
    if isinstance(v, (list, tuple)):
        return mk("lst" if isinstance(v, list) else "tup", *[lit(x) for x in v])
    if isinstance(v, dict):
        return mk("dct", *tuple((lit(k), lit(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return mk("set", *[lit(x) for x in sorted(v, key=repr)])
    return const(v)


def _catches(h, n):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    for t in ts:
        d = (dotted(t) or "?").split(".")[-1]
        if d in ("Exception", "BaseException", n.split(".")[-1]):
            return True
    return False


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


_CANON = {"numpy": "np", "deepcopy": "copy.deepcopy"}


def _canon(d):
    if d == "numpy" or d.startswith("numpy."):
        return "np" + d[5:]
    return d


UNBOUND = mk("unbound")


def _may_unbound(v, I, st, d=0):
    if v is UNBOUND:
        return True
    if d > 40 or v.k not in ("ite", "phi"):
        return False
    v = I.simp(v, st)
    if v.k == "ite":
        return any(_may_unbound(x, I, y, d + 1) for x, y in ((v.a[1], I.assume(st, v.a[0], True)), (v.a[2], I.assume(st, v.a[0], False))) if y is not None)
    if v.k == "phi":
        loop = isinstance(v.a[0], tuple) and v.a[0] and v.a[0][0] in ("loopexit", "loopout")
        return any(_may_unbound(x, I, st, d + 1) for x in v.a[2] if not (loop and x is UNBOUND))
    return v is UNBOUND


_LOCALS = {}


def own_locals(node):
    """names bound by statements of the function itself (not of nested functions)"""
    if id(node) not in _LOCALS:
        out, todo, glob = set(), list(node.body) if isinstance(node.body, list) else [], set()
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            todo += list(ast.iter_child_nodes(x))
        _LOCALS[id(node)] = (out - glob, node)
    return _LOCALS[id(node)][0]


def unbound_gates(v, I, st, spine=(), d=0):
    """[(conditions on the value, facts)] under which the value is unset, one entry per unset alternative"""
    if v is UNBOUND:
        return [(spine, dict(st.facts))]
    if d > 40 or v.k not in ("ite", "phi"):
        return []
    v = I.simp(v, st)
    if v.k == "ite":
        alts = [(v.a[1], True), (v.a[2], False)]
        out = []
        for x, b in alts:
            y = I.assume(st, v.a[0], b)
            if y is not None:
                out += unbound_gates(x, I, y, spine + ((v.a[0], b),), d + 1)
        return out
    if v.k == "phi":
        loop = isinstance(v.a[0], tuple) and v.a[0] and v.a[0][0] in ("loopexit", "loopout")
        return [g for x in v.a[2] if not (loop and x is UNBOUND) for g in unbound_gates(x, I, st, spine, d + 1)]
    return [(spine, dict(st.facts))] if v is UNBOUND else []


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard",
            "sort", "reverse", "fill", "resize", "itemset", "put", "partition", "setflags"}
NP_INPLACE = {"np.fill_diagonal", "np.copyto", "np.put", "np.place", "np.putmask", "np.random.shuffle", "np.fill", "np.sort.method",
              "np.put_along_axis", "np.add.at"}
DICT_METHODS = {"get", "items", "keys", "values", "update", "pop", "setdefault", "clear", "popitem", "copy"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
FOLD = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
        "**": lambda x, y: x ** y, "//": lambda x, y: x // y, "%": lambda x, y: x % y}
RETURN_TYPES = {"whitening.warp_input": None, "convert_to_prior.convert_to_prior": "Prior"}
TUPLE_TYPES = {
    "whitening.warp_input": ["ParameterTransformer", "dict", "FunctionLogger", None],
    "whitening.warp_gp_and_vp": ["VariationalPosterior", "dict"],
    "gaussian_process_train.train_gp": ["GP", None, None, "dict"],
    "variational_optimization.optimize_vp": ["VariationalPosterior", None, None],
    "active_sample.active_sample": ["FunctionLogger", "dict", "VariationalPosterior", "GP"],
    "VBMC.determine_best_vp": ["VariationalPosterior", None, None, None],
    "VBMC.final_boost": ["VariationalPosterior", None, None, None],
}
