"""C18: errors reach the caller and process-wide settings are always restored."""
import ast
from engine.lib import *
from engine.program import dotted
from rules.c13 import units

EXPLANATION = (
    "Every exception handler, suppressing context manager and finally block of the library is enumerated: all paths of a handler must raise, unless it "
    "catches a specific type around code that (transitively, by the call graph) can reach neither user code nor an explicit raise of the caught type, "
    "and recovers. Every call that changes a process-wide setting must lie inside the scope that restores it (context manager or try/finally).")

BROAD = {"Exception", "BaseException", "object"}
NUMERIC = {"LinAlgError", "FloatingPointError", "ZeroDivisionError", "OverflowError", "ArithmeticError", "ValueError", "RuntimeError", "RuntimeWarning"}
PARENTS = {"KeyError": {"LookupError"}, "IndexError": {"LookupError"}, "NotImplementedError": {"RuntimeError"}, "RecursionError": {"RuntimeError"}, "LinAlgError": {"ValueError"},
           "FloatingPointError": {"ArithmeticError"}, "ZeroDivisionError": {"ArithmeticError"}, "OverflowError": {"ArithmeticError"}, "FileNotFoundError": {"OSError", "IOError"},
           "UnicodeDecodeError": {"ValueError"}, "ModuleNotFoundError": {"ImportError"}, "AxisError": {"ValueError", "IndexError"}}
# names under which user-supplied code is called
USER = {"fun", "log_joint", "log_density", "log_likelihood", "log_prior", "sample_prior", "function_logger", "func", "fun_handle"}
LOG = {"debug", "info", "warning", "warn", "error", "exception", "log", "critical", "print"}
PURE = {"float", "int", "str", "bool", "complex", "len", "getattr", "dict", "list", "tuple", "set", "sorted", "next", "iter", "isinstance", "type", "repr", "hasattr", "abs", "index", "pop",
        "remove", "split", "strip", "join", "version", "getmodule", "open", "eval", "asarray", "array", "issubclass"}

SETTERS = {"numpy.seterr": "numpy.errstate", "numpy.seterrcall": "numpy.errstate", "numpy.setbufsize": None, "numpy.set_printoptions": "numpy.printoptions", "numpy.set_string_function": None,
           "warnings.filterwarnings": "warnings.catch_warnings", "warnings.simplefilter": "warnings.catch_warnings", "warnings.resetwarnings": "warnings.catch_warnings",
           "logging.disable": None, "logging.captureWarnings": None, "os.chdir": "contextlib.chdir", "os.putenv": None, "os.unsetenv": None, "os.umask": None, "sys.setrecursionlimit": None,
           "locale.setlocale": None, "signal.signal": None, "gc.disable": None, "gc.enable": None, "socket.setdefaulttimeout": None, "sys.settrace": None, "sys.setprofile": None,
           "faulthandler.enable": None, "matplotlib.use": None, "matplotlib.rc": "matplotlib.pyplot.rc_context", "matplotlib.pyplot.rc": "matplotlib.pyplot.rc_context",
           "matplotlib.pyplot.style.use": "matplotlib.pyplot.style.context", "matplotlib.rcParams.update": "matplotlib.pyplot.rc_context", "matplotlib.pyplot.rcParams.update": "matplotlib.pyplot.rc_context",
           "matplotlib.pyplot.ion": None, "matplotlib.pyplot.ioff": None, "matplotlib.pyplot.switch_backend": None, "os.environ.update": None, "os.environ.pop": None, "os.environ.setdefault": None,
           "scipy.special.seterr": "scipy.special.errstate", "decimal.setcontext": "decimal.localcontext", "multiprocessing.set_start_method": None, "numpy.random.seed": None}
SETTERS.pop("numpy.random.seed")
PAIRS = {"gc.disable": {"gc.enable"}, "matplotlib.pyplot.ion": {"matplotlib.pyplot.ioff"}, "matplotlib.pyplot.ioff": {"matplotlib.pyplot.ion"}}
STORES = {"sys.stdout", "sys.stderr", "warnings.filters", "warnings.showwarning", "os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "sys.excepthook", "builtins"}


def last(e):
    d = dotted(e)
    return d.split(".")[-1] if d else e.attr if isinstance(e, ast.Attribute) else None


def own(node):
    """nodes of a body without those of nested functions (lambdas included: they are usually called in place)"""
    st = list(node) if isinstance(node, list) else [node]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))


def calls(body):
    return [n for n in own(body) if isinstance(n, ast.Call)]


class Reach:
    """names of functions from which user code, or an explicit raise, can be reached"""

    def __init__(self, p):
        self.p = p
        self.by = {}
        for f in p.all_func_nodes():
            if not isinstance(f.node, ast.Lambda):
                self.by.setdefault(f.name, []).append(f)
        for c in p.classes.values():
            if "__init__" in c.methods:
                self.by.setdefault(c.name, []).append(c.methods["__init__"])
        self.user = set(USER)
        ch = True
        while ch:
            ch = False
            for n, fs in self.by.items():
                if n not in self.user and not n.startswith("__") and any(last(c.func) in self.user for f in fs for c in calls(f.node.body)):
                    self.user.add(n)
                    ch = True

    def reaches_user(self, body):
        return [last(c.func) for c in calls(body) if last(c.func) in self.user]

    def raises(self, body):
        """{type name: function} of explicit raises reachable by calls"""
        out, seen, st = {}, set(), [last(c.func) for c in calls(body)]
        for n in own(body):
            if isinstance(n, ast.Raise) and n.exc is not None:
                out.setdefault(last(n.exc.func if isinstance(n.exc, ast.Call) else n.exc), "the guarded code")
        while st:
            n = st.pop()
            if n in seen or n is None:
                continue
            seen.add(n)
            for f in self.by.get(n, ()):
                for x in own(f.node.body):
                    if isinstance(x, ast.Raise) and x.exc is not None:
                        out.setdefault(last(x.exc.func if isinstance(x.exc, ast.Call) else x.exc), f.qual)
                    elif isinstance(x, ast.Call):
                        st.append(last(x.func))
        return out


def always_raises(R, stmts, d=0):
    """every path through the statements ends in an exception"""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return isinstance(s, ast.Return) and s.value is not None and isinstance(s.value, ast.Call) and never_returns(R, s.value, d)
        if isinstance(s, ast.If) and (always_raises(R, s.body, d) and s.orelse and always_raises(R, s.orelse, d)):
            return True
        if escapes(s):
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)) and always_raises(R, s.body, d) and not any(last(i.context_expr.func) == "suppress" for i in s.items if isinstance(i.context_expr, ast.Call)):
            return True
        if isinstance(s, ast.Try) and (always_raises(R, s.finalbody, d) or always_raises(R, s.body + s.orelse, d) and all(always_raises(R, h.body, d) for h in s.handlers)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and never_returns(R, s.value, d):
            return True
    return False


def never_returns(R, c, d):
    fs = R.by.get(last(c.func), [])
    return d < 4 and bool(fs) and all(always_raises(R, f.node.body, d + 1) for f in fs)


def escapes(s):
    """a return / continue / break may leave the statement"""
    return any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for n in own(s)) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))


def inert(body):
    """the statements do nothing but report"""
    for s in body:
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
            continue
        if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and last(s.value.func) in LOG):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            continue
        return False
    return True


def run(p, rep, only=None):
    rep.rule("handler", "an exception is raised on every path of a handler, or a specific internal failure is recovered from")
    rep.rule("finally", "no finally block or context manager discards an exception")
    rep.rule("setting", "process-wide settings change only inside the scope that restores them")
    R = Reach(p)
    nh = ns = 0
    for label, rel, nodes, N, f in units(p):
        parent = {}
        N.body = f.node.body if f is not None and not isinstance(f.node, ast.Lambda) else []
        for x in nodes:
            for c in ast.iter_child_nodes(x):
                parent[id(c)] = x
        for x in nodes:
            w = f"{rel}:{getattr(x, 'lineno', 0)} {label}"
            if isinstance(x, ast.Try) or type(x).__name__ == "TryStar":
                for h in x.handlers:
                    nh += 1
                    handler(rep, R, label, rel, x.body, h.type, h.body, f"{rel}:{h.lineno} {label}", bool(always_raises(R, h.body)))
                for y in own(x.finalbody):
                    bad = isinstance(y, ast.Return) or isinstance(y, (ast.Break, ast.Continue)) and not in_loop(y, x.finalbody)
                    if bad:
                        rep.bad("finally", "exit from finally", f"{rel}:{y.lineno} {label}", f"{label} leaves a finally block by {type(y).__name__.lower()}: a pending exception is discarded")
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and last(c.func) == "suppress" and (N.canon(c.func) or "").endswith("contextlib.suppress"):
                        nh += 1
                        t = ast.Tuple(elts=list(c.args), ctx=ast.Load())
                        handler(rep, R, label, rel, x.body, t, [ast.Pass()], w, False)
            elif isinstance(x, (ast.FunctionDef,)) and x.name == "__exit__":
                exit_method(rep, x, w, label)
            if isinstance(x, (ast.Call, ast.Assign, ast.AugAssign, ast.Delete)):
                ns += setting(p, rep, label, rel, x, parent, N, f)
        if f is not None and f.name == "__exit__":
            exit_method(rep, f.node, f.where, label)
    rep.at_least("exception handlers", nh, 3)
    rep.count("setting statements", ns)


def exit_method(rep, node, w, label):
    for y in own(node.body):
        if isinstance(y, ast.Return) and y.value is not None and not (isinstance(y.value, ast.Constant) and not y.value.value):
            rep.bad("finally", "context manager", w, f"{label}: a context manager's exit can return a true value and discard the exception")


def in_loop(n, body):
    """n lies in a loop of its own inside body"""
    for s in own(body):
        if isinstance(s, (ast.For, ast.While)) and any(y is n for y in own(s)):
            return True
    return False


def handler(rep, R, label, rel, body, typ, hbody, w, raises):
    ts = [None] if typ is None else [last(t) for t in (typ.elts if isinstance(typ, ast.Tuple) else [typ])]
    names = ", ".join(str(t) for t in ts)
    if raises:
        rep.ok("handler", w)
        return
    if None in ts or set(ts) & BROAD:
        rep.bad("handler", f"catches {names if None not in ts else 'everything'}", w, f"{label} catches {names if None not in ts else 'every exception'} without raising again on every path")
        return
    u = R.reaches_user(body)
    if u:
        rep.bad("handler", f"catches {names} from {u[0]}", w, f"{label} discards {names} raised by user code reached through {u[0]}")
        return
    r = R.raises(body)
    for t, g in r.items():
        hit = [c for c in ts if c == t or c in PARENTS.get(t, ()) or c == "LookupError" and t in ("KeyError", "IndexError")]
        if hit and g != "the guarded code":
            rep.bad("handler", f"catches {t} of {g.split('.')[0]}", w, f"{label} discards the {t} that {g} raises")
            return
    if set(ts) & NUMERIC and inert(hbody) and any(last(c.func) not in PURE for c in calls(body)):
        rep.bad("handler", f"ignores {names}", w, f"{label} ignores {names} without a fallback")
        return
    rep.ok("handler", w)


def setting(p, rep, label, rel, x, parent, N, f):
    what = scope = None
    if isinstance(x, ast.Call):
        d = N.canon(x.func)
        if d in SETTERS:
            what, scope = d, SETTERS[d]
        elif d == "numpy.errstate" or d == "warnings.catch_warnings" or d == "numpy.printoptions":
            q = parent.get(id(x))
            if isinstance(q, ast.withitem) or isinstance(q, ast.FunctionDef):
                rep.ok("setting", f"{rel}:{x.lineno}")
                return 1
            if isinstance(q, ast.Call) and last(q.func) == "enter_context":
                rep.ok("setting", f"{rel}:{x.lineno}")
                return 1
            if isinstance(q, ast.Attribute) and q.attr == "__enter__":
                what, scope = d + ".__enter__", None
        elif d == "logging.basicConfig":
            force = any(k.arg == "force" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in x.keywords)
            rep.check(not force, "setting", "root logger", f"{rel}:{x.lineno} {label}", f"{label} replaces the handlers of the process's root logger")
            return 1
        elif isinstance(x.func, ast.Attribute) and x.func.attr in ("setLevel", "addFilter", "removeHandler", "addHandler") and isinstance(x.func.value, ast.Call) and \
                N.canon(x.func.value.func) == "logging.getLogger" and not x.func.value.args:
            what = "logging root " + x.func.attr
    else:
        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
        for t in ts:
            y = t
            while isinstance(y, ast.Subscript):
                y = y.value
            d = N.canon(y)
            if d in STORES and (isinstance(t, ast.Subscript) or isinstance(y, ast.Attribute)):
                what = d
                scope = "matplotlib.pyplot.rc_context" if "rcParams" in d else "contextlib.redirect_stdout" if d.startswith("sys.std") else "warnings.catch_warnings" if d.startswith("warn") else None
    if what is None:
        return 0
    w = f"{rel}:{x.lineno} {label}"
    ok = scoped(x, what, scope, parent, N) or (f is not None and f.qual not in BASELINE and callers_scoped(p, f, what, scope))
    rep.check(ok, "setting", what, w, f"{label} changes a process-wide setting ({what}) that is not restored on every way out")
    return 1


def stmt_of(x, parent):
    while not isinstance(x, ast.stmt):
        x = parent.get(id(x))
        if x is None:
            return None
    return x


def scoped(x, what, scope, parent, N):
    y, child = parent.get(id(x)), x
    s = stmt_of(x, parent)
    while y is not None:
        if isinstance(y, (ast.With, ast.AsyncWith)) and not any(child is i for i in y.items):
            if scope and any(isinstance(i.context_expr, ast.Call) and (N.canon(i.context_expr.func) or "").split(".")[-1] == scope.split(".")[-1] for i in y.items):
                return True
        if isinstance(y, ast.Try):
            if any(child is q for q in y.finalbody):
                return True                 # the restoring statement
            if any(child is q for q in y.body + y.orelse) and restores(y.finalbody, what, N):
                return True
        if isinstance(y, (ast.FunctionDef, ast.Lambda)):
            break
        y, child = parent.get(id(y)), y
    # followed at once by a try whose finally restores
    par = parent.get(id(s)) if s is not None else None
    for blk in ("body", "orelse", "finalbody"):
        b = getattr(par, blk, None)
        if isinstance(b, list) and s in b:
            return followed(b, b.index(s), what, N)
    b = N.body
    return s in b and followed(b, b.index(s), what, N)


def followed(b, i, what, N):
    for q in b[i + 1:]:
        if isinstance(q, ast.Try):
            return restores(q.finalbody, what, N)
        if any(isinstance(z, (ast.Call, ast.Raise, ast.Return, ast.Yield)) for z in own(q)):
            c = [z for z in own(q) if isinstance(z, ast.Call)]
            if not (c and all((N.canon(z.func) or "") in SETTERS for z in c)):
                return False
    return False


def restores(fin, what, N):
    for z in own(fin):
        if isinstance(z, ast.Call):
            d = N.canon(z.func)
            if d == what or d in PAIRS.get(what, ()):
                return True
            if what.endswith(".__enter__") and isinstance(z.func, ast.Attribute) and z.func.attr == "__exit__":
                return True
            if what.startswith("logging root") and isinstance(z.func, ast.Attribute) and z.func.attr in (what.split()[-1], "removeFilter", "addHandler", "removeHandler"):
                return True
        if isinstance(z, (ast.Assign, ast.Delete)):
            for t in z.targets:
                y = t
                while isinstance(y, ast.Subscript):
                    y = y.value
                if N.canon(y) == what:
                    return True
    return False


def callers_scoped(p, f, what, scope):
    """every call of the helper lies in a restoring scope"""
    n = 0
    for label, rel, nodes, N, g in units(p):
        parent = {}
        for x in nodes:
            for c in ast.iter_child_nodes(x):
                parent[id(c)] = x
        N.body = g.node.body if g is not None and not isinstance(g.node, ast.Lambda) else []
        for x in nodes:
            if isinstance(x, ast.Call) and last(x.func) == f.name:
                n += 1
                if not scoped(x, what, scope, parent, N):
                    return False
    return n > 0
