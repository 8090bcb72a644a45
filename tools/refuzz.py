#!/usr/bin/env python3
"""refuzz.py [-s SEED] [-t TRANSFORM,..] [-c CHECK,..] [-f FILE-SUBSTR] [-k DIR]: apply behaviour-preserving syntax transformations to a scratch
copy of /repo/pyvbmc and run the checks, which must stay quiet.  Only used to test the checkers; no registered check uses it."""
import argparse, ast, builtins, copy, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
PARSE = lambda s: ast.parse(s).body


def docsplit(body):
    k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
    return body[:k], body[k:]


def blocks(node):
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


class Base(ast.NodeTransformer):
    pass


def t_unparse(tree, rng):
    return tree


def t_noop(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, FN):
            d, b = docsplit(n.body)
            n.body = d + PARSE("_unused = None") + b
    return tree


def t_noop_in_blocks(tree, rng):
    for n, f, b in list(blocks(tree)):
        if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            if f == "orelse" and isinstance(n, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
                continue
            b.insert(0, PARSE("pass")[0])
    return tree


def t_logdebug(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, FN):
            d, b = docsplit(n.body)
            n.body = d + PARSE("0") + b
    return tree


def stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def t_rename(tree, rng):
    def do(fn):
        inner = [x for x in ast.walk(fn) if x is not fn and isinstance(x, FN + (ast.Lambda,))]
        skip = params(fn)
        for i in inner:
            skip |= params(i)
            skip |= {i.name} if isinstance(i, FN) else set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                skip |= set(x.names)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                skip |= {(a.asname or a.name).split(".")[0] for a in x.names}
            if isinstance(x, ast.ExceptHandler) and x.name:
                skip.add(x.name)
        loc = stored(fn) - skip
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_rn"
    for n in tree.body:
        if isinstance(n, FN):
            do(n)
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, FN):
                    do(m)
    return tree


def mapblocks(tree, f):
    """f(stmt) -> list of stmts, applied to every statement of every function, innermost first"""
    class T(ast.NodeTransformer):
        infn = 0

        def visit_FunctionDef(self, n):
            self.infn += 1
            self.generic_visit(n)
            self.infn -= 1
            return n

        def generic_visit(self, n):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    out = []
                    for s in b:
                        s = self.visit(s)
                        out += f(s) if self.infn else [s]
                    setattr(n, fld, out)
            for h in getattr(n, "handlers", []):
                self.generic_visit(h)
            return n
    return T().visit(tree)


CNT = [0]


def fresh(p="tmp"):
    CNT[0] += 1
    return f"{p}_{CNT[0]}"


def trivial(e):
    return isinstance(e, (ast.Name, ast.Constant))


def t_tmp_return(tree, rng):
    def f(s):
        if isinstance(s, ast.Return) and s.value is not None and not trivial(s.value):
            v = fresh("result")
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return [s]
    return mapblocks(tree, f)


def t_tmp_store(tree, rng):
    def f(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) and not trivial(s.value):
            v = fresh("val")
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Assign(s.targets, ast.Name(v, ast.Load()))]
        return [s]
    return mapblocks(tree, f)


def t_tmp_cond(tree, rng):
    def f(s):
        if isinstance(s, ast.If) and not trivial(s.test):
            v = fresh("cond")
            t = s.test
            s.test = ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], t), s]
        return [s]
    return mapblocks(tree, f)


def t_tmp_arg(tree, rng):
    """first non-trivial argument of a call that is the whole value of a statement, evaluated just before"""
    def f(s):
        c = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
        if isinstance(c, ast.Call) and c.args and isinstance(c.func, (ast.Name, ast.Attribute)) and not isinstance(c.args[0], ast.Starred) and not trivial(c.args[0]) and not isinstance(c.args[0], (ast.GeneratorExp, ast.Lambda)):
            root = c.func
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name):
                return [s]
            v = fresh("arg")
            a = c.args[0]
            c.args[0] = ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], a), s]
        return [s]
    return mapblocks(tree, f)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(e.ops[0]))
        if m:
            return ast.Compare(e.left, [m()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def t_swap_if(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
    return tree


def t_flip_cmp(tree, rng):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
    return tree


def t_nest_and(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            n.test, n.body = vs[0], [ast.If(rest, n.body, [])]
    return tree


def t_demorgan(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.test.op, ast.And) else ast.And(), [neg(v) for v in n.test.values]))
    return tree


def exits(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def t_early_to_else(tree, rng):
    for n, f, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and exits(s.body) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break
    return tree


def t_else_to_early(tree, rng):
    for n, f, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and exits(s.body):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
    return tree


def t_ternary_to_if(tree, rng):
    def f(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])]
        return [s]
    return mapblocks(tree, f)


def t_if_to_ternary(tree, rng):
    def f(s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in s.body + s.orelse):
            a, b = s.body[0], s.orelse[0]
            if ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], (ast.Name, ast.Attribute, ast.Subscript)):
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
        return [s]
    return mapblocks(tree, f)


def t_comp_to_loop(tree, rng):
    def f(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
            g = s.value.generators[0]
            v = fresh("items")
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(s.targets, ast.Name(v, ast.Load()))]
        return [s]
    return mapblocks(tree, f)


def t_enum_to_range(tree, rng):
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(s.target.elts[0], ast.Name):
            i, x = s.target.elts
            seq = s.iter.args[0]
            if isinstance(seq, ast.Name) and seq.id in ("keys",):
                return [s]
            s.target = i
            s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [seq], [])], [])
            s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load())))
        return [s]
    return mapblocks(tree, f)


def t_range_to_while(tree, rng):
    def f(s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
            hi = s.iter.args[-1]
            c, h = fresh("i"), fresh("stop")
            N = lambda x, c=ast.Load: ast.Name(x, c())
            return [ast.Assign([N(c, ast.Store)], lo), ast.Assign([N(h, ast.Store)], hi),
                    ast.While(ast.Compare(N(c), [ast.Lt()], [N(h)]), [ast.Assign([s.target], N(c)), ast.AugAssign(N(c, ast.Store), ast.Add(), ast.Constant(1))] + s.body, [])]
        return [s]
    return mapblocks(tree, f)


def t_range_to_while_end(tree, rng):
    """for i in range(n): S  ->  i = 0; while i < n: S; i += 1"""
    def f(s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            if any(isinstance(x, ast.Call) for x in ast.walk(s.iter.args[-1])) or any(isinstance(x, ast.Name) and x.id == s.target.id and not isinstance(x.ctx, ast.Load) for y in s.body for x in ast.walk(y)):
                return [s]
            if {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & {x.id for x in ast.walk(s.iter.args[-1]) if isinstance(x, ast.Name)}:
                return [s]
            lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
            N = lambda c=ast.Load: ast.Name(s.target.id, c())
            return [ast.Assign([N(ast.Store)], lo), ast.While(ast.Compare(N(), [ast.Lt()], [s.iter.args[-1]]), s.body + [ast.AugAssign(N(ast.Store), ast.Add(), ast.Constant(1))], [])]
        return [s]
    return mapblocks(tree, f)


def t_split_tuple(tree, rng):
    def f(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call):
            v = fresh("out")
            if any(isinstance(t, ast.Starred) for t in s.targets[0].elts):
                return [s]
            return [ast.Assign([ast.Name(v, ast.Store())], s.value)] + [ast.Assign([t], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(i), ast.Load())) for i, t in enumerate(s.targets[0].elts)]
        return [s]
    return mapblocks(tree, f)


def t_np_methods(tree, rng):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
                pass
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "reshape" and not n.keywords:
                a = n.args[0] if len(n.args) == 1 else ast.Tuple(n.args, ast.Load())
                return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "reshape", ast.Load()), [n.func.value, a], [])
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("ravel",) and not n.args and not n.keywords:
                return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), n.func.attr, ast.Load()), [n.func.value], [])
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == "T" and isinstance(n.ctx, ast.Load):
                return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "transpose", ast.Load()), [n.value], [])
            return n
    return T().visit(tree)


def t_np_to_methods(tree, rng):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and n.func.attr in ("sum", "any", "all", "max", "min", "mean", "prod") and n.args and isinstance(n.args[0], (ast.Compare, ast.BinOp)):
                return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), n.args[1:], n.keywords) if not isinstance(n.args[0], ast.Compare) or True else n
            return n
    return T().visit(tree)


def t_sq(tree, rng):
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "square", ast.Load()), [n.left], [])
            return n
    return T().visit(tree)


def t_comm(tree, rng):
    """swap the operands of + and * of scalars-like terms (numeric literals or names on both sides only)"""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, (ast.Mult,)) and not any(isinstance(x, (ast.Constant, ast.JoinedStr, ast.List, ast.Tuple)) and not isinstance(getattr(x, "value", 0), (int, float)) for x in ast.walk(n)):
                n.left, n.right = n.right, n.left
            return n
    return T().visit(tree)


def t_kwargs(tree, rng, sigs=None):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            ps = SIGS.get(nm)
            if ps and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(ps[0]) and isinstance(n.func, ast.Attribute) == ps[1] and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "sps", "scipy", "copy", "gpr", "os", "math", "plt", "logging")):
                k = [ast.keyword(p, a) for p, a in list(zip(ps[0], n.args))[1:]]
                n.args = n.args[:1]
                n.keywords = k + n.keywords
            return n
    return T().visit(tree)


SIGS = {}


def gather_sigs(root):
    seen = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".py"):
                t = ast.parse(open(d + "/" + f).read())
                for n in t.body:
                    if isinstance(n, FN):
                        seen.setdefault(n.name, []).append(([a.arg for a in n.args.args], False))
                    if isinstance(n, ast.ClassDef):
                        for m in n.body:
                            if isinstance(m, FN) and not m.decorator_list:
                                seen.setdefault(m.name, []).append(([a.arg for a in m.args.args][1:], True))
    for k, v in seen.items():
        if len(v) == 1 and not k.startswith("__") and k not in ("pdf", "log_pdf", "sample", "moments", "mode", "load", "save", "plot", "get", "copy", "train", "predict", "update"):
            SIGS[k] = v[0]


def extractable(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Delete, ast.Await)):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals", "vars"):
                return False
    return True


def uncond(stmts):
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            out |= stored(s)
    return out


def extract(tree, rng, method):
    new = []
    for cls in [None] + [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        owner = tree if cls is None else cls
        for fn in [n for n in owner.body if isinstance(n, FN)]:
            static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") or isinstance(d, ast.Attribute) for d in fn.decorator_list)
            if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
                continue
            nested = [x for x in ast.walk(fn) if x is not fn and isinstance(x, FN + (ast.Lambda,))]
            if nested:
                continue
            loc = params(fn) | stored(fn) | {x.name for x in nested if isinstance(x, FN)}
            cands = []
            for n, f, b in blocks(fn):
                d, body = docsplit(b) if n is fn and f == "body" else ([], b)
                for i in range(len(body)):
                    for j in range(i + 1, min(len(body), i + 8) + 1):
                        seg = body[i:j]
                        if not extractable(seg):
                            continue
                        w = set().union(*[stored(s) for s in seg])
                        if w != uncond(seg):
                            continue
                        # order of definition: names read before written inside are inputs
                        ins, done = [], set()
                        for s in seg:
                            own = stored(s)
                            for x in ast.walk(s):
                                if isinstance(x, ast.Name) and x.id in loc and (isinstance(x.ctx, ast.Load) or isinstance(s, ast.AugAssign) and x is s.target) and x.id not in done and x.id not in ins:
                                    ins.append(x.id)
                            done |= own
                        comp = {y.id for s in seg for x in ast.walk(s) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                        if comp:
                            continue
                        size = sum(1 for s in seg for _ in ast.walk(s))
                        if size < 12 or len(ins) > 9:
                            continue
                        cands.append((n, f, b, len(d) + i, len(d) + j, ins, sorted(w)))
            if not cands:
                continue
            n, f, b, i, j, ins, outs = rng.choice(cands)
            seg = b[i:j]
            name = fresh("_part_of_" + fn.name.strip("_"))
            ret = [ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load()))] if outs else []
            ismeth = method and cls is not None and not static and fn.args.args and fn.args.args[0].arg == "self"
            args = [x for x in ins if not (ismeth and x == "self")]
            h = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in (["self"] if ismeth else []) + args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=list(seg) + ret, decorator_list=[], type_params=[])
            func = ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()) if ismeth else ast.Name(name, ast.Load())
            call = ast.Call(func, [ast.Name(a, ast.Load()) for a in args], [])
            tgt = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store()) if outs else None
            b[i:j] = [ast.Assign([tgt], call) if outs else ast.Expr(call)]
            if ismeth:
                cls.body.append(h)
            else:
                new.append(h)
    tree.body += new
    return tree


def t_extract(tree, rng):
    return extract(tree, rng, False)


def t_extract_method(tree, rng):
    return extract(tree, rng, True)


def t_inline_tmp(tree, rng):
    """x = e; S(x)  ->  S(e) when x is used exactly once in the function and S directly follows"""
    for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        uses = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                uses.setdefault(x.id, []).append(x)
        for n, f, b in list(blocks(fn)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Expr, ast.Return)) and not isinstance(s.value, (ast.Lambda,)):
                    nm = s.targets[0].id
                    u = uses.get(nm, [])
                    inner = [x for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                    if len(u) == 2 and len(inner) == 1 and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(t)):
                        class R(ast.NodeTransformer):
                            def visit_Name(self, x):
                                return s.value if x is inner[0] else x
                        b[i + 1] = R().visit(t)
                        del b[i]
                        continue
                i += 1
    return tree


def t_hoist_option(tree, rng):
    """local alias for self.optim_state / self.options style chains: st = self.optim_state at function start when never rebound"""
    for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        if not fn.args.args or fn.args.args[0].arg != "self" or fn.name == "__init__":
            continue
        for at in ("optim_state", "options", "iteration_history", "function_logger"):
            hits = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and x.attr == at and isinstance(x.value, ast.Name) and x.value.id == "self"]
            if not hits or any(isinstance(x.ctx, ast.Store) for x in hits) or any(isinstance(x, FN) and x is not fn for x in ast.walk(fn)):
                continue
            if rng.random() < .5:
                continue
            nm = at + "_"

            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    if x.attr == at and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                        return ast.Name(nm, ast.Load())
                    self.generic_visit(x)
                    return x
            d, b = docsplit(fn.body)
            fn.body = d + PARSE(f"{nm} = self.{at}") + [R().visit(s) for s in b]
    return tree


def t_swap_stmts(tree, rng):
    """swap adjacent independent local assignments (names only; calls only to np functions)"""
    def pure(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return False
        for x in ast.walk(s.value):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "np") and not (isinstance(x.func, ast.Attribute) and x.func.attr in ("copy", "reshape", "get")):
                return False
            if isinstance(x, ast.Attribute) and x.attr == "random":
                return False
        return True
    for n, f, b in list(blocks(tree)):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if pure(s) and pure(t):
                ns = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
                nt = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if s.targets[0].id not in nt and t.targets[0].id not in ns:
                    b[i], b[i + 1] = t, s
                    i += 2
                    continue
            i += 1
    return tree


def t_strip_doc(tree, rng):
    for n in ast.walk(tree):
        if isinstance(n, FN + (ast.ClassDef,)):
            d, b = docsplit(n.body)
            n.body = b or [ast.Pass()]
    return tree


def t_annotate(tree, rng):
    def f(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.AnnAssign(s.targets[0], ast.Name("object", ast.Load()), s.value, 1)]
        return [s]
    return mapblocks(tree, f)


def t_aug_expand(tree, rng):
    def f(s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Attribute,)) and isinstance(s.value, ast.Constant):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(l, s.op, s.value))]
        return [s]
    return mapblocks(tree, f)


def t_np_import(tree, rng):
    """import numpy under its own name"""
    hit = False
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == "numpy" and a.asname == "np":
                    a.asname = None
                    hit = True
    if hit:
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == "np":
                n.id = "numpy"
    return tree


TR = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def make(dst, names, seed, flt):
    shutil.copytree("/repo/pyvbmc", dst + "/pyvbmc", ignore=shutil.ignore_patterns("testing", "__pycache__"))
    gather_sigs(dst + "/pyvbmc")
    rng = random.Random(seed)
    for d, ds, fs in os.walk(dst + "/pyvbmc"):
        ds.sort()
        for f in sorted(fs):
            p = d + "/" + f
            if not f.endswith(".py") or (flt and flt not in p):
                continue
            src = open(p).read()
            tree = ast.parse(src)
            for n in names:
                tree = ast.parse(ast.unparse(ast.fix_missing_locations(TR[n](tree, rng))))
            out = ast.unparse(tree)
            compile(out, p, "exec")
            open(p, "w").write(out + "\n")


def run(pid, d):
    try:
        r = subprocess.run([sys.executable, V + "/check.py", pid], capture_output=True, text=True, timeout=1500, cwd=V,
                           env=dict(os.environ, PYVBMC_REPO=d, VERIF_EVIDENCE=d + "/ev"))
    except subprocess.TimeoutExpired:
        return pid, 99, ["TIMEOUT"]
    return pid, r.returncode, [l[:220] for l in (r.stdout + r.stderr).splitlines() if not l.startswith("KNOWN-F")]


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-t", default="all")
    ap.add_argument("-c", default="all")
    ap.add_argument("-f", default="")
    ap.add_argument("-k", default="")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    trs = sorted(TR) if a.t == "all" else a.t.split(",")
    checks = [f"C{i:02}" for i in range(1, 30)] if a.c == "all" else a.c.split(",")
    with cf.ThreadPoolExecutor(a.j) as ex:
        jobs = []
        dirs = []
        for t in trs:
            d = a.k or tempfile.mkdtemp(prefix="refuzz_")
            if a.k:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            dirs.append(d)
            try:
                make(d, t.split("+"), a.s, a.f)
            except Exception as e:
                print(t, "TRANSFORM FAILED", repr(e)[:200]); continue
            jobs += [(t, ex.submit(run, c, d)) for c in checks]
            if a.k:
                break
        n = bad = 0
        for t, j in jobs:
            pid, rc, out = j.result()
            n += 1
            if rc:
                bad += 1
                print(t, pid, "rc", rc, flush=True)
                for l in out[:6]:
                    print("     ", l)
        print(n, "runs,", bad, "not quiet")
        if not a.k:
            for d in dirs:
                shutil.rmtree(d, ignore_errors=True)
