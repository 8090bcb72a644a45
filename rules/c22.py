"""C22: every timed phase that starts is stopped; no phase stops unstarted; durations are read after the stop."""
import ast
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm
from engine.program import dotted
from engine.terms import *

EXPLANATION = (
    "Typestate analysis over the syntax tree: the set of running and stopped timers (per timer object and name) is propagated through every path of the functions "
    "that operate timers, interprocedurally by inlining, loops to a fixpoint, branches correlated on the conditions that guard timer operations. Stopping a "
    "timer that is not running on some path, recording, resetting or leaving with a running one, and reading a duration not yet stopped are violations. The timer "
    "class itself and the span of the recorded evaluation time are compared as value terms.")

OPS = {"start_timer", "stop_timer", "get_duration", "reset"}
CAP = 800


class Typestate:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.by = {}
        for f in p.all_func_nodes():
            if not isinstance(f.node, ast.Lambda):
                self.by.setdefault(f.name, []).append(f)
        self.timed = {f.qual for f in p.all_func_nodes() if not isinstance(f.node, ast.Lambda) and self.home(f) and self.direct(f)}
        self.direct_set = set(self.timed)
        ch = True
        names = lambda: {q.split(".")[-1] for q in self.timed}
        while ch:
            ch = False
            nm = names()
            for f in p.all_func_nodes():
                if isinstance(f.node, ast.Lambda) or f.qual in self.timed or not self.home(f):
                    continue
                if any(isinstance(x, ast.Call) and self.last(x.func) in nm and self.callee(x, f) is not None for x in self.own(f.node.body)):
                    self.timed.add(f.qual)
                    ch = True
        self.read_names = {self.const(c.args[0], {}) if c.args else None for f in p.all_func_nodes() if not isinstance(f.node, ast.Lambda) and self.home(f)
                           for c in self.own(f.node.body) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get_duration"}
        self.nops = 0
        self.sites = set()
        self.overflow = False
        self.ynext = []
        self.called = set()
        self.records = set()

    @staticmethod
    def last(e):
        return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None

    @staticmethod
    def own(body):
        st = list(body)
        while st:
            n = st.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                st += list(ast.iter_child_nodes(n))

    def home(self, f):
        return not (f.cls is not None and f.cls.name == "Timer")

    def is_op(self, c, f):
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in OPS):
            return False
        if c.func.attr == "reset":
            return self.timerish(c.func.value, f)
        return True

    def timerish(self, e, f):
        d = dotted(e) or ""
        t = d.split(".")[-1]
        if "timer" in t.lower():
            return True
        g = f.mod.imports.get(d.split(".")[0], "")
        return "timer" in g

    def direct(self, f):
        return any(self.is_op(c, f) for c in self.own(f.node.body))

    def callee(self, c, f):
        n = self.last(c.func)
        c2 = [g for g in self.by.get(n, ()) if self.home(g)]
        if isinstance(c.func, ast.Name):
            loc = [g for g in c2 if g.parent is not None and f.qual.startswith(g.parent.qual)]
            c2 = loc or [g for g in c2 if g.cls is None and g.parent is None]
        elif isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls"):
            c2 = [g for g in c2 if g.cls is not None]
        return c2[0] if len(c2) == 1 else None

    # state: (running, stopped, conditions)
    def inst(self, e, env, f):
        d = dotted(e)
        if d is None:
            return None
        if d in env:
            return env[d]
        h = d.split(".")[0]
        if h in f.mod.imports and "timer" in f.mod.imports[h]:
            return ("main",)
        if "." not in d and h in f.mod.consts:
            return ("module", f.mod.short, h)
        return ("text", d)

    def const(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.Name):
            v = env.get("=" + e.id)
            return v
        return None

    def run(self, f):
        self.stack = [f.qual]
        env = {}
        outs = self.block(f.node.body, {(frozenset(), frozenset(), frozenset())}, env, f)
        for k in ("next", "return"):
            for s in outs.get(k, ()):
                for t in s[0]:
                    self.rep.bad("started is stopped", f"timer '{t[1]}' running at the end", f.where, f"a path leaves with timer '{t[1]}' still running")
        self.called.add(f.qual)

    def merge(self, a, b):
        for k, v in b.items():
            a.setdefault(k, set()).update(v)
        return a

    def block(self, stmts, S, env, f):
        out = {}
        cur = set(S)
        for s in stmts:
            if not cur:
                break
            if len(cur) > CAP:
                self.overflow = True
                cur = {(a, b, frozenset()) for a, b, c in cur}
            r = self.stmt(s, cur, env, f)
            cur = r.pop("next", set())
            self.merge(out, r)
        out["next"] = cur
        return out

    def relevant(self, node, f):
        for c in self.own([node]):
            if isinstance(c, ast.Call) and (self.is_op(c, f) or (self.callee(c, f) is not None and self.callee(c, f).qual in self.timed)):
                return True
        return False

    def exprs(self, e, S, env, f):
        """calls of an expression in evaluation order; returns states"""
        if e is None:
            return S
        for c in self.order(e):
            if isinstance(c, ast.Name):
                S = self.mention(c, S, env, f)
                continue
            if self.is_op(c, f):
                S = self.op(c, S, env, f)
                continue
            g = self.callee(c, f)
            if g is not None and g.qual in self.timed and g.qual not in self.stack and len(self.stack) < 8:
                S = self.inline(g, c, S, env, f)
        return S

    def order(self, e):
        """calls in evaluation order (and mentions of a timer as a value)"""
        out = []

        def go(x, recv=False):
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                return
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute):
                    if not isinstance(x.func.value, ast.Name):
                        go(x.func.value)
                elif not isinstance(x.func, ast.Name):
                    go(x.func)
                for a in x.args:
                    go(a)
                for k in x.keywords:
                    go(k.value)
                out.append(x)
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.append(x)
                return
            if isinstance(x, ast.Attribute):
                if not isinstance(x.value, ast.Name):
                    go(x.value)
                return
            for y in ast.iter_child_nodes(x):
                go(y)
        go(e)
        return out

    def mention(self, n, S, env, f):
        """the timer used as a value: its timings are recorded"""
        i = env.get(n.id)
        if i is None:
            if n.id in f.mod.imports and f.mod.imports[n.id].split(".")[-1] == "main_timer":
                i = ("main",)
            else:
                return S
        if id(n) in getattr(self, "passed", set()):
            return S
        self.records.add((f.mod.rel, n.lineno))
        for s in S:
            for t in s[0]:
                if t[0] == i:
                    self.rep.bad("recorded after the stop", f"timer '{t[1]}'", f"{f.mod.rel}:{n.lineno}", f"the timings are recorded while timer '{t[1]}' is still running on some path")
        return S

    def op(self, c, S, env, f):
        k = c.func.attr
        i = self.inst(c.func.value, env, f)
        w = f"{f.mod.rel}:{c.lineno}"
        rep = self.rep
        if k == "reset":
            out = set()
            for r, d, q in S:
                lost = [t for t in r if t[0] == i]
                for t in lost:
                    rep.bad("started is stopped", f"timer '{t[1]}' reset while running", w, f"the timers are reset while '{t[1]}' is still running on some path")
                out.add((frozenset(t for t in r if t[0] != i), frozenset(t for t in d if t[0] != i), q))
            self.sites.add((f.mod.rel, c.lineno))
            return out
        a = c.args[0] if c.args else next((x.value for x in c.keywords if x.arg == "name"), None)
        nm = self.const(a, env)
        if nm is None or i is None:
            rep.notes.append(f"timer operation with a computed name or object at {w}")
            return S
        self.nops += 1
        self.sites.add((f.mod.rel, c.lineno))
        t = (i, nm)
        out = set()
        okk = True
        for r, d, q in S:
            if k == "start_timer":
                if t in r:
                    okk = False
                    rep.bad("started is stopped", f"timer '{nm}' started twice", w, f"timer '{nm}' is started while it is already running on some path")
                out.add((r | {t}, d - {t}, q))
            elif k == "stop_timer":
                if t not in r:
                    okk = False
                    rep.bad("no stop unstarted", f"timer '{nm}'", w, f"timer '{nm}' is stopped on a path on which it is not running")
                out.add((r - {t}, d | {t} if nm in self.read_names or None in self.read_names else d, q))
            else:
                if t in r:
                    okk = False
                    rep.bad("read after the stop", f"timer '{nm}'", w, f"the duration of timer '{nm}' is read while it is running on some path")
                elif t not in d:
                    okk = False
                    rep.bad("read after the stop", f"timer '{nm}'", w, f"the duration of timer '{nm}' is read on a path on which it was never stopped")
                out.add((r, d, q))
        if okk:
            rep.ok({"start_timer": "started is stopped", "stop_timer": "no stop unstarted", "get_duration": "read after the stop"}[k], f"'{nm}' {k} ({len(S)} abstract states)", w)
        return out

    def inline(self, g, c, S, env, f, with_body=None):
        self.called.add(g.qual)
        env2 = {}
        if g.parent is not None:
            env2.update(env)
        pos = list(g.posonly)
        args = list(c.args)
        if g.cls is not None and not g.is_static and pos:
            pos = pos[1:]
        pairs = list(zip(pos, args)) + [(k.arg, k.value) for k in c.keywords if k.arg]
        a = g.node.args
        alln = a.posonlyargs + a.args
        for x, dv in list(zip(alln[len(alln) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(dv, ast.Constant) and isinstance(dv.value, str):
                env2["=" + x.arg] = dv.value
        for n, v in pairs:
            s = self.const(v, env)
            if s is not None:
                env2["=" + n] = s
            elif isinstance(v, ast.Name) and (v.id in env or v.id in f.mod.imports and f.mod.imports[v.id].split(".")[-1] == "main_timer"):
                env2[n] = self.inst(v, env, f)
        self.stack.append(g.qual)
        saved = {s: None for s in S}
        conds = {}
        inner = set()
        for s in S:
            inner.add((s[0], s[1], s[2]))
        if with_body is not None:
            self.ynext.append(with_body)
        outs = self.block(g.node.body, inner, env2, g)
        if with_body is not None:
            self.ynext.pop()
        self.stack.pop()
        return outs.get("next", set()) | outs.get("return", set())

    @staticmethod
    def key(test):
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.LtE: ast.Gt, ast.GtE: ast.Lt}
            for a, b in neg.items():
                if isinstance(test.ops[0], a):
                    return ast.unparse(ast.Compare(test.left, [b()], test.comparators)), not pol
        return ast.unparse(test), pol

    def forget(self, S, node):
        """conditions mentioning an assigned target no longer hold"""
        tg = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)):
                tg.add(ast.unparse(x))
        if not tg:
            return S
        out = set()
        for r, d, q in S:
            out.add((r, d, frozenset((k, v) for k, v in q if not any(mentions(k, t) for t in tg))))
        return out

    def stmt(self, s, S, env, f):
        out = {}
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return {"next": S}
        if isinstance(s, ast.If):
            S = self.exprs(s.test, S, env, f)
            k, pol = self.key(s.test)
            rel = True
            T, F = set(), set()
            cv = s.test.value if isinstance(s.test, ast.Constant) else None
            for r, d, q in S:
                if ((k, not pol) not in q) and cv is not False:
                    T.add((r, d, q | {(k, pol)} if rel else q))
                if ((k, pol) not in q) and not (cv is True or isinstance(cv, int) and cv):
                    F.add((r, d, q | {(k, not pol)} if rel else q))
            a = self.block(s.body, T, env, f)
            b = self.block(s.orelse, F, env, f)
            self.merge(a, b)
            # keep a condition only when the timers' states differ: otherwise the branches are joined
            for c in a:
                a[c] = self.reduce(a[c])
            return a
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            else:
                S = self.exprs(s.iter, S, env, f)
                forever = False
                if isinstance(s.iter, (ast.List, ast.Tuple)) and 0 < len(s.iter.elts) <= 12 and isinstance(s.target, ast.Name) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in s.iter.elts):
                    # unrolled over constant names
                    cur = S
                    for x in s.iter.elts:
                        env["=" + s.target.id] = x.value
                        r = self.block(s.body, cur, env, f)
                        cur = r.pop("next", set()) | r.pop("continue", set())
                        self.merge(out, r)
                    env.pop("=" + s.target.id, None)
                    cur |= out.pop("break", set())
                    self.merge(out, self.block(s.orelse, cur, env, f))
                    return out
            head, todo, exits = set(), set(S), set()
            n = 0
            while todo and n < 60:
                n += 1
                head |= todo
                cur = set(todo)
                if isinstance(s, ast.While):
                    cur = self.exprs(s.test, cur, env, f)
                else:
                    cur = self.forget(cur, s.target)
                # conditions on the loop test are not tracked
                r = self.block(s.body, cur, env, f)
                back = r.pop("next", set()) | r.pop("continue", set())
                back = self.reduce(self.forget_body(back, s))
                exits |= r.pop("break", set())
                self.merge(out, r)
                todo = back - head
            fall = set() if forever else (self.exprs(s.test, set(head), env, f) if isinstance(s, ast.While) else set(head))
            e = self.block(s.orelse, fall, env, f)
            self.merge(out, e)
            out.setdefault("next", set()).update(exits)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            def body(S2):
                r = self.block(s.body, S2, env, f)
                nx = r.pop("next", set())
                self.merge(out, r)
                return nx
            conts = []
            for it in s.items:
                c = it.context_expr
                g = self.callee(c, f) if isinstance(c, ast.Call) else None
                if g is not None and g.qual in self.timed and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own(g.node.body)):
                    conts.append((g, c))
                else:
                    S = self.exprs(c, S, env, f)
            if not conts:
                nx = body(S)
            else:
                def nest(i):
                    if i == len(conts):
                        return body
                    g, c = conts[i]
                    return lambda S2: self.inline(g, c, S2, env, f, with_body=nest(i + 1))
                nx = nest(0)(S)
            self.merge(out, {"next": nx})
            return out
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            seen = set(S)
            cur = set(S)
            r0 = {}
            for x in s.body:
                r = self.stmt(x, cur, env, f)
                cur = r.pop("next", set())
                self.merge(r0, r)
                seen |= cur | r.get("raise", set())
                if self.relevant(x, f):
                    seen |= self.inner(x, env, f, S)
                if not cur:
                    break
            r1 = self.block(s.orelse, cur, env, f)
            self.merge(r0, r1)
            r0.pop("raise", None) if s.handlers else None
            for h in s.handlers:
                self.merge(r0, self.block(h.body, self.reduce(seen), env, f))
            if s.finalbody:
                res = {}
                for k, v in r0.items():
                    z = self.block(s.finalbody, v, env, f)
                    nx = z.pop("next", set())
                    self.merge(res, {k: nx})
                    self.merge(res, z)
                return res
            return r0
        if isinstance(s, ast.Match):
            S = self.exprs(s.subject, S, env, f)
            for c in s.cases:
                self.merge(out, self.block(c.body, S, env, f))
            out.setdefault("next", set()).update(S)
            return out
        if isinstance(s, ast.Return):
            return {"return": self.exprs(s.value, S, env, f)}
        if isinstance(s, ast.Raise):
            return {"raise": S}
        if isinstance(s, ast.Break):
            return {"break": S}
        if isinstance(s, ast.Continue):
            return {"continue": S}
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            if self.ynext:
                k = self.ynext.pop()
                st, self.stack = self.stack, self.stack[:]
                S2 = k(S)
                self.stack = st
                self.ynext.append(k)
                return {"next": S2}
            return {"next": S}
        # simple statements
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            v, d = s.value, dotted(s.targets[0])
            if isinstance(v, ast.Call) and self.last(v.func) == "Timer" and d:
                S = self.exprs(v, S, env, f)
                i = ("new", f.qual, d)
                env[d] = i
                for r, _, _ in S:
                    for t in r:
                        if t[0] == i:
                            self.rep.bad("started is stopped", f"timer '{t[1]}' replaced while running", f"{f.mod.rel}:{s.lineno}", f"the timer object is replaced while '{t[1]}' is running")
                return {"next": {(frozenset(t for t in r if t[0] != i), frozenset(t for t in dn if t[0] != i), q) for r, dn, q in S}}
            if isinstance(s.targets[0], ast.Name):
                c = self.const(v, env)
                if c is not None:
                    env["=" + s.targets[0].id] = c
                else:
                    env.pop("=" + s.targets[0].id, None)
                if isinstance(v, ast.Name) and self.is_timer_name(v, env, f):
                    env[d] = self.inst(v, env, f)
                    return {"next": S}
        for fld in ("value", "test", "msg", "exc"):
            e = getattr(s, fld, None)
            if isinstance(e, ast.AST):
                S = self.exprs(e, S, env, f)
        return {"next": self.forget(S, s)}

    def is_timer_name(self, v, env, f):
        return v.id in env or v.id in f.mod.imports and f.mod.imports[v.id].split(".")[-1] == "main_timer"

    def inner(self, x, env, f, S):
        """states at points inside a compound statement of a try body"""
        out = set()
        if isinstance(x, (ast.If, ast.For, ast.While, ast.With)):
            cur = set(S)
            for y in list(getattr(x, "body", [])):
                r = self.stmt(y, cur, dict(env), f)
                cur = r.get("next", set())
                out |= cur
        return out

    def forget_body(self, S, s):
        return self.forget(S, ast.Module(body=s.body, type_ignores=[]))

    def reduce(self, S):
        """drop conditions that do not distinguish timer states"""
        keys = {k for _, _, q in S for k, v in q}
        for k in keys:
            t = {(r, d) for r, d, q in S if (k, True) in q}
            e = {(r, d) for r, d, q in S if (k, False) in q}
            o = {(r, d) for r, d, q in S if (k, True) not in q and (k, False) not in q}
            if t == e or (t | o) == (e | o) and not (t ^ e):
                S = {(r, d, q - {(k, True), (k, False)}) for r, d, q in S}
        return S


def mentions(text, target):
    import re
    return re.search(r"(?<![\w.])" + re.escape(target) + r"(?!\w)", text) is not None or target.split("[")[0] in text and "[" in target


N = Norm()


def timer_class(p, rep):
    c = p.classes.get("Timer")
    if c is None:
        rep.notes.append("no Timer class")
        return
    rep.rule("timer", "a stop adds exactly the time since the start and forgets the start; reset forgets everything; get_duration returns the recorded duration")
    S_, D_ = attr(sym("self"), "_start_times"), attr(sym("self"), "_durations")
    nm = sym("name")
    f = p.func("Timer.stop_timer")
    I = Interp(p, Config(path_sensitive=True, track_call=lambda n: True))
    w = f"{f.mod.rel}:{f.node.lineno}"
    for s, ct, v in I.run(f):
        started = [b for t, b in s.facts.items() if t.k == "cmp" and t.a[0] == "in" and t.a[1] is nm and contains(t.a[2], lambda x: x is S_)]
        d = s.store.get(idx(D_, nm))
        if d is None:
            d0 = s.store.get(D_)
            d = None if d0 is None else I.read_idx(s, d0, nm)
        if started == [False] or started == [] and d is None:
            continue
        if d is None:
            rep.bad("timer", "duration recorded", w, "stopping a started timer does not record its duration")
            continue
        pl = {m: k for m, k in N.poly(d).items()}
        clk = [(m, k) for m, k in pl.items() if any(a.k == "call" and a.a[0].split(".")[-1] in ("time", "perf_counter", "monotonic", "process_time", "time_ns") for a, e in m)]
        st = [(m, k) for m, k in pl.items() if any(contains(a, lambda x: x is S_) for a, e in m)]
        rest = [(m, k) for m, k in pl.items() if (m, k) not in clk and (m, k) not in st]
        if not clk and not st:
            rep.notes.append(f"duration not recognised: {show(d, 5)}")
            continue
        good = len(clk) == 1 and clk[0][1] == 1 and len(st) == 1 and st[0][1] == -1 and len(clk[0][0]) == 1 and len(st[0][0]) == 1 and len(rest) <= 1 and all(k == 1 and any(contains(a, lambda x: x is D_) for a, e in m) for m, k in rest)
        rep.check(good, "timer", "duration", w, f"the duration recorded is {show(d, 5)}")
        has = [b for t, b in s.facts.items() if t.k == "cmp" and t.a[0] == "is" and contains(t.a[1], lambda x: x is D_)]
        if has == [False]:
            rep.check(len(rest) == 1, "timer", "accumulated", w, "a second stop overwrites the duration recorded before")
        gone = any(e.kind == "call" and e.sig[0].split(".")[-1] in ("pop", "popitem") and contains(e.sig[1][0] if e.sig[1] else nm, lambda x: x is S_) for e in s.events) or any(e.kind == "del" for e in s.events)
        src = ast.unparse(f.node)
        if not gone and not ("pop(" in src or "del " in src or s.store.get(S_) is not None):
            rep.bad("timer", "start forgotten", w, "stopping a timer does not forget its start")
        else:
            rep.ok("timer", "start forgotten", w)
    rep.used(I)
    f = p.func("Timer.reset")
    I = Interp(p, Config(path_sensitive=True, track_call=lambda n: True))
    for s, ct, v in I.run(f):
        for x, lab in ((S_, "start times"), (D_, "durations")):
            y = s.store.get(x)
            cl = y is not None and (y.k == "dct" and not y.a or y.k == "call" and not y.a[1])
            clr = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and dotted(n.func.value) == "self." + x.a[1] for n in ast.walk(f.node))
            rep.check(cl or clr, "timer", f"reset {lab}", f"{f.mod.rel}:{f.node.lineno}", f"reset keeps the {lab}")
    f = p.func("Timer.start_timer")
    I = Interp(p, Config(path_sensitive=True))
    n = 0
    for s, ct, v in I.run(f):
        x = s.store.get(idx(S_, nm))
        if x is None:
            y = s.store.get(S_)
            if y is None:
                continue
            x = I.read_idx(s, y, nm)
        n += 1
        rep.check(x.k == "call" and x.a[0].split(".")[-1] in ("time", "perf_counter", "monotonic", "process_time", "time_ns"), "timer", "start time", f"{f.mod.rel}:{f.node.lineno}", f"the start time is {show(x, 3)}")
    if n == 0:
        rep.notes.append("start of a timer not recognised")
    clocks = {(x.attr if isinstance(x, ast.Attribute) else x.id) for q in ("Timer.start_timer", "Timer.stop_timer") for x in ast.walk(p.func(q).node)
              if isinstance(x, ast.Attribute) and dotted(x.value) == "time"}
    rep.check(len(clocks) <= 1, "timer", "one clock", f"{f.mod.rel}:{f.node.lineno}", f"start and stop read different clocks ({sorted(clocks)})")
    f = p.func("Timer.get_duration")
    I = Interp(p, Config(path_sensitive=True))
    for s, ct, v in I.run(f):
        if ct == "return" and v is not None and not is_const(v):
            rep.check(contains(v, lambda x: x is D_) and not contains(v, lambda x: x is S_) and v.k in ("idx", "call", "ite"), "timer", "duration returned", f"{f.mod.rel}:{f.node.lineno}", f"get_duration returns {show(v, 4)}")


def evaluation(p, rep):
    f = p.func("FunctionLogger.__call__")
    rep.rule("evaluation time", "between the start and the stop of the evaluation timer lies the target call and no other work; the recorded time is that duration, of a timer of this call alone")
    fun = attr(sym("self"), "fun")
    w = f"{f.mod.rel}:{f.node.lineno}"
    n = 0
    for lv, nf in ((0, False), (2, True)):
        I = Interp(p, Config(path_sensitive=True, track_call=lambda x: True, opaque={"Timer.start_timer", "Timer.stop_timer", "Timer.get_duration", "Timer.reset"}))
        from engine.absint import State
        st = State()
        st.store[attr(sym("self"), "noise_flag")] = const(nf)
        st.store[attr(sym("self"), "uncertainty_handling_level")] = const(lv)
        for s, ct, v in I.run(f, state=st):
            if ct != "return":
                continue
            ev = [e for e in s.events if e.kind == "call"]
            name = lambda e: e.sig[0].split(".")[-1]
            starts = [i for i, e in enumerate(ev) if name(e) == "start_timer"]
            stops = [i for i, e in enumerate(ev) if name(e) == "stop_timer"]
            tc = [i for i, e in enumerate(ev) if e.sig[0] == "?call" and e.sig[1] and e.sig[1][0] is fun]
            rec = [e for e in ev if name(e) == "_record"]
            if not tc or not rec:
                continue
            n += 1
            b = bind(p, "FunctionLogger._record", rec[0].sig[1], rec[0].sig[2])
            ft = b.get("fun_eval_time")
            if ft is None:
                rep.bad("evaluation time", "recorded time", rec[0].where, "no evaluation time is recorded")
                continue
            if starts and stops:
                okk = starts[0] < tc[0] < stops[0] and not any(starts[0] < i < tc[0] or tc[0] < i < stops[0] for i in tc[1:])
                rep.check(okk, "evaluation time", "span", ev[starts[0]].where, "the evaluation timer does not enclose the target call exactly")
                heavy = [e for e in ev[starts[0] + 1:stops[0]] if e.sig[0] != "?call" and (e.sig[0].split(".")[0] in p.classes or e.sig[0] in p.functions or name(e) in ("info", "debug", "warning", "sleep", "print", "inverse"))]
                for e in heavy:
                    rep.bad("evaluation time", f"{name(e)} inside", e.where, f"{e.sig[0]} runs while the evaluation time is measured")
                if ft.k == "call" and ft.a[0].split(".")[-1] == "get_duration":
                    t = ft.a[1][0] if ft.a[1] else None
                    own = ev[starts[0]].sig[1][0] if ev[starts[0]].sig[1] else None
                    rep.check(t is own, "evaluation time", "recorded time", rec[0].where, "the recorded time is that of another timer")
                    fresh_ = t is not None and (any(e.sig[0].startswith("Timer") and e.sig[3] is t for e in ev[:starts[0]]) or any(name(e) == "reset" and e.sig[1] and e.sig[1][0] is t for e in ev[:starts[0]]))
                    if t is not None:
                        rep.check(fresh_, "evaluation time", "timer of this call", rec[0].where, "the evaluation timer accumulates over calls")
                    nm = lambda e: e.sig[1][1] if len(e.sig[1]) > 1 else dict(e.sig[2]).get("name")
                    q = ft.a[1][1] if len(ft.a[1]) > 1 else dict(ft.a[2]).get("name")
                    rep.check(q is nm(ev[starts[0]]) and q is nm(ev[stops[0]]), "evaluation time", "one name", rec[0].where, "start, stop and duration use different timers")
                elif is_const(ft):
                    rep.bad("evaluation time", "recorded time", rec[0].where, f"the evaluation time recorded is {show(ft)}")
                elif contains(ft, lambda x: x.k == "call" and x.a[0].split(".")[-1] == "get_duration"):
                    pl = N.poly(ft)
                    if any(len(m) == 0 for m in pl) or len(pl) > 1 or any(k != 1 for k in pl.values()):
                        rep.bad("evaluation time", "recorded time", rec[0].where, f"the evaluation time recorded is {show(ft, 4)}")
                else:
                    rep.notes.append(f"recorded evaluation time not recognised: {show(ft, 4)}")
            else:
                clk = [i for i, e in enumerate(ev) if name(e) in ("time", "perf_counter", "monotonic") and e.sig[0].startswith("time.")]
                if len(clk) == 2:
                    rep.check(clk[0] < tc[0] < clk[1], "evaluation time", "span", w, "the clock readings do not enclose the target call")
                else:
                    rep.notes.append("measurement of the evaluation time not recognised")
        rep.used(I)
    rep.count("evaluation paths", n)


def run(p, rep):
    rep.rule("started is stopped", "a started timer is stopped before the iteration's timings are recorded, before a reset and before leaving")
    rep.rule("no stop unstarted", "a timer is running wherever it is stopped")
    rep.rule("read after the stop", "a duration is read only after its timer was stopped")
    rep.rule("recorded after the stop", "no timer is running when the iteration's timings are recorded")
    T = Typestate(p, rep)
    order = sorted(T.direct_set | T.timed, key=lambda q: (0 if q.endswith(".optimize") else 1, q))
    fs = {f.qual: f for f in p.all_func_nodes()}
    for q in order:
        f = fs[q]
        if q in T.called or f.parent is not None or q not in T.direct_set and not q.endswith("optimize"):
            continue
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in T.own(f.node.body)):
            continue
        callers = [c for c in callers_of(p, f)] if q not in ("VBMC.optimize",) else []
        if callers and q in BASELINE and q not in ("FunctionLogger.__call__", "VBMC.optimize"):
            continue
        if q not in BASELINE:
            continue            # a helper: analysed where it is called
        T.run(f)
    rep.count("timer operations (abstract)", T.nops)
    rep.count("timer sites", len(T.sites))
    rep.count("recordings", len(T.records))
    if T.overflow:
        rep.notes.append("state cap reached: correlations between branches were dropped")
    rep.at_least("timer sites", len(T.sites), 4)
    rep.functions |= set(T.called) if isinstance(rep.functions, set) else set()
    timer_class(p, rep)
    evaluation(p, rep)
