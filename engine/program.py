"""Whole-program index of /repo/pyvbmc (non-test sources), re-read on every run."""
import ast
import os
from engine.normal import normalise

REPO = os.environ.get("PYVBMC_REPO", "/repo")
PKG = "pyvbmc"


class AnalysisBroken(Exception):
    """The anchor of a rule vanished or the analysis lost its footing (error exit)."""


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        if parent is not None:
            self.qual = parent.qual + ".<locals>." + self.name
        elif cls is not None:
            self.qual = cls.name + "." + self.name
        else:
            self.qual = mod.short + "." + self.name
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        decs = [] if isinstance(node, ast.Lambda) else node.decorator_list
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in decs]
        self.is_static = "staticmethod" in self.decorators
        self.is_class = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators
        self.is_abstract = any((d or "").endswith("abstractmethod") for d in self.decorators)

    @property
    def params(self):
        return self.posonly + self.kwonly

    @property
    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = [dotted(b) for b in node.bases]
        self.methods = {}
        self.attrs = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(mod, n, self)
                if f.name in self.methods:      # property setter etc.: keep first
                    continue
                self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value


class Module:
    def __init__(self, path, rel, name, src):
        self.path, self.rel, self.name, self.src = path, rel, name, src
        self.short = name.split(".")[-1]
        self.tree = normalise(ast.parse(src, filename=path))
        self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
        self.star_imports = []
        pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (
                        a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    p = pkg.split(".")
                    p = p[: len(p) - (n.level - 1)]
                    base = ".".join(p + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        self.star_imports.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(self, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + "." + node.attr
    return None


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG)
        self.modules, self.functions, self.classes = {}, {}, {}
        if not os.path.isdir(self.root):
            raise AnalysisBroken("no package at " + self.root)
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d not in ("testing", "__pycache__"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = Module(path, rel, name, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel}: does not parse: {e}")
        for m in self.modules.values():
            for f in m.funcs.values():
                self.functions[f.qual] = f
            for c in m.classes.values():
                self.classes[c.name] = c
                for f in c.methods.values():
                    self.functions[f.qual] = f
        self.nfuncs = len(self.functions)
        self._mro = {}

    # ---- lookup
    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"anchor class {name} not found")
        return c

    def mro(self, name):
        if name in self._mro:
            return self._mro[name]
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            c = self.classes.get(n)
            if c is None or c in out:
                continue
            out.append(c)
            todo += [(b or "").split(".")[-1] for b in c.bases]
        self._mro[name] = out
        return out

    def method(self, clsname, meth):
        for c in self.mro(clsname):
            if meth in c.methods:
                return c.methods[meth]
        return None

    def subclasses(self, name):
        return [c for c in self.classes.values()
                if c.name != name and any(b.name == name for b in self.mro(c.name))]

    def resolve_global(self, mod, name, _d=0):
        """-> ('func',Func) | ('class',Cls) | ('mod',dotted) | ('const',Module,ast) | None"""
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.consts:
            return ("const", mod, mod.consts[name])
        if name in mod.imports:
            return self.resolve_dotted(mod.imports[name], _d)
        for s in mod.star_imports:
            m2 = self.modules.get(s)
            if m2 is not None and _d < 6:
                r = self.resolve_global(m2, name, _d + 1)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, d, _d=0):
        if d in self.modules:
            if "." in d and _d < 6:
                # a package attribute bound in __init__ shadows the submodule of the same name
                head, tail = d.rsplit(".", 1)
                m = self.modules.get(head)
                if m is not None and m.imports.get(tail, d) != d:
                    return self.resolve_dotted(m.imports[tail], _d + 1)
            return ("mod", d)
        if "." in d:
            head, tail = d.rsplit(".", 1)
            m = self.modules.get(head)
            if m is not None and _d < 6:
                r = self.resolve_global(m, tail, _d + 1)
                if r is not None:
                    return r
        return ("mod", d)

    def all_func_nodes(self):
        """(module, class-or-None, Func) for every top-level function and method."""
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
