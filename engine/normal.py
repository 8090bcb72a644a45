"""Syntax-tree normalisation applied once, when a module is loaded: every rule then sees the same tree for the spellings below.
  x: T = e  (inside a function)                          ->  x = e
  i = a; ... while i < b: x = i; i += 1; BODY            ->  for x in range(a, b): BODY
  i = a; ...; while i < b: BODY; i += 1                  ->  for i in range(a, b): BODY      (no other store to i, no continue, b not changed by BODY)
"""
import ast
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def blocks(node):
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def own_continue(body):
    """a continue statement that belongs to the loop whose body this is"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if own_continue(s.orelse):
                return True
            continue
        if isinstance(s, FN + (ast.ClassDef,)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if own_continue(getattr(s, f, None) or []):
                return True
        for h in getattr(s, "handlers", None) or []:
            if own_continue(h.body):
                return True
        for c in getattr(s, "cases", None) or []:
            if own_continue(c.body):
                return True
    return False


def is_step(s, name):
    if isinstance(s, ast.AugAssign):
        return isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r = s.value.left, s.value.right
        for a, b in ((l, r), (r, l)):
            if isinstance(a, ast.Name) and a.id == name and isinstance(b, ast.Constant) and b.value == 1:
                return True
    return False


def uses(node, name):
    return [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == name]


def counter(test):
    """(name, bound) of  name < bound  /  bound > name"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        if isinstance(test.ops[0], ast.Lt) and isinstance(l, ast.Name):
            return l.id, r
        if isinstance(test.ops[0], ast.Gt) and isinstance(r, ast.Name):
            return r.id, l
    return None


def stable(bound, body):
    stored, dotted = set(), set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stored.add(x.id)
            elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                dotted.add(x.attr)
    grown = {x.func.value.id for s in body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear")}
    for x in ast.walk(bound):
        if isinstance(x, ast.Name) and (x.id in stored or x.id in grown):
            return False
        if isinstance(x, ast.Attribute) and x.attr in dotted:
            return False
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int", "min", "max")):
            return False
    return True


def counted_loops(fn):
    for b in list(blocks(fn)):
        j = 0
        while j < len(b):
            w = b[j]
            j += 1
            if not isinstance(w, ast.While) or w.orelse or len(w.body) < 2:
                continue
            c = counter(w.test)
            if c is None:
                continue
            name, bound = c
            var = name
            if is_step(w.body[-1], name) and not own_continue(w.body):
                body = w.body[:-1]
            elif len(w.body) > 2 and is_step(w.body[1], name) and isinstance(w.body[0], ast.Assign) and len(w.body[0].targets) == 1 and isinstance(w.body[0].targets[0], ast.Name) and isinstance(w.body[0].value, ast.Name) and w.body[0].value.id == name:
                body, var = w.body[2:], w.body[0].targets[0].id
                if any(uses(s, name) for s in body):
                    continue
            else:
                continue
            if any(not isinstance(x.ctx, ast.Load) for s in body for x in uses(s, name)) or not stable(bound, w.body) or uses(bound, name):
                continue
            k = j - 2
            while k >= 0 and not uses(b[k], name):
                k -= 1
            if k < 0:
                continue
            s0 = b[k]
            if not (isinstance(s0, ast.Assign) and len(s0.targets) == 1 and isinstance(s0.targets[0], ast.Name) and s0.targets[0].id == name and not uses(s0.value, name)):
                continue
            if any(isinstance(x, (ast.Name,)) and x.id in {y.id for y in ast.walk(s0.value) if isinstance(y, ast.Name)} and not isinstance(x.ctx, ast.Load) for s in b[k + 1:j - 1] for x in ast.walk(s)):
                continue
            # the counter must not be read after the loop (its last value differs)
            end = getattr(w, "end_lineno", 0) or 0
            inside = {id(x) for x in ast.walk(w)}
            later = sorted((x for x in uses(fn, name) if id(x) not in inside and x.lineno > end), key=lambda x: (x.lineno, x.col_offset))
            if later and isinstance(later[0].ctx, ast.Load):
                continue
            if any(isinstance(o, (ast.For, ast.While)) and o is not w and id(w) in {id(z) for z in ast.walk(o)} and any(isinstance(x.ctx, ast.Load) and id(x) not in inside and x.lineno < s0.lineno for x in uses(o, name)) for o in ast.walk(fn)):
                continue
            args = [bound] if isinstance(s0.value, ast.Constant) and s0.value.value == 0 else [s0.value, bound]
            it = ast.Call(ast.Name("range", ast.Load()), args, [])
            new = ast.For(target=ast.Name(var, ast.Store()), iter=it, body=body, orelse=[], type_comment=None)
            for x in (it, it.func, new.target):
                ast.copy_location(x, w.test)
            ast.copy_location(new, w)
            b[j - 1] = new
            if not any(isinstance(x.ctx, ast.Load) for x in uses(fn, name) if id(x) not in inside):
                del b[k]
                j -= 1


class Ann(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        return n

    def visit_AnnAssign(self, n):
        if self.depth and n.value is not None:
            return ast.copy_location(ast.Assign([n.target], n.value, None), n)
        return n


def normalise(tree):
    if any(isinstance(n, ast.AnnAssign) for n in ast.walk(tree)):
        tree = Ann().visit(tree)
    for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
        if any(isinstance(n, ast.While) for n in ast.walk(fn)):
            counted_loops(fn)
    return tree
