"""C23: every accepted choice of method or type is implemented, others are refused."""
import ast
import re
from engine.absint import Config, Interp, State
from engine.lib import *
from engine.terms import *

EXPLANATION = (
    "Dispatch analysis: every comparison of a user-selectable name with string constants is collected with its path condition; a choice must have a reachable "
    "refusal whose path condition says only that no name matched; the names accepted by the refusals of one choice (validator, dispatch, receiving library) "
    "must agree; factories and per-name arms are interpreted for each accepted name; defaults and documented names must be accepted.")

# display levels: the existing tests require an unknown level to act as the default
LENIENT = {"display"}
# names handed to a library that implements these only
RECEIVER = {"gp_hyp_sampler": {"slicesample"}, "gp_train_init_method": {"rand", "sobol"}, "log_file_mode": {"w", "w+", "a"}}
MEANS = {"zero": "ZeroMean", "const": "ConstantMean", "negquad": "NegativeQuadratic"}
CODES = {"logit": 3, "norminv": 12, "probit": 12, "student4": 13}
# what the arm of a name must call (last part of the call name, constant argument)
ARMS = {"search_optimizer": {"cmaes": ("fmin", None), "Nelder-Mead": ("minimize", "Nelder-Mead")}, "stochastic_optimizer": {"adam": ("minimize_adam", None)}}


def short(x):
    return x.split(".")[-1]


def string_compares(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Compare):
            for y in ast.walk(x):
                if isinstance(y, ast.Constant) and isinstance(y.value, str):
                    return True
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Constant):
            return True
        if isinstance(x, ast.Call) and short(ast.unparse(x.func)) in ("get", "isinstance"):
            return True
    return False


def option(t):
    """name of the option (or of the state entry) the term reads, or None"""
    if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        b = t.a[0]
        while b.k in ("loop", "havoc") and isinstance(b.a[-1], T):
            b = b.a[-1]
        n = b.a[0] if b.k == "sym" else b.a[1] if b.k == "attr" else b.a[1] if b.k in ("loop", "havoc") and isinstance(b.a[1], str) else None
        if n in ("options", "optim_state"):
            return cval(t.a[1])
    return None


def choices_of(t):
    """choice terms inside an operand: options, state entries and parameters"""
    if t.k == "ite":
        return [y for x in t.a[1:] for y in choices_of(x)]
    if t.k == "sym" or option(t) is not None:
        return [t]
    if t.k == "call" and t.a[0].split(".")[-1] in ("lower", "strip", "casefold", "str") and t.a[1]:
        return choices_of(t.a[1][0])
    return []


def names_in(t):
    if is_const(t):
        v = cval(t)
        if isinstance(v, str):
            return {v}
        if isinstance(v, (tuple, frozenset)):
            return {x for x in v if isinstance(x, str)}
        return set()
    if t.k in ("lst", "tup", "set"):
        return {y for x in t.a for y in names_in(x)}
    if t.k == "dct":
        return set(dict_keys(t))
    return set()


def dict_keys(t):
    out = []
    for x in t.a:
        k = x[0] if isinstance(x, tuple) else x
        if isinstance(k, T) and is_const(k) and isinstance(cval(k), str):
            out.append(cval(k))
    return out


def atom(t, ch):
    """names a fact compares the choice with, or None when the fact is no such comparison"""
    if t.k in ("not", "inv"):
        return atom(t.a[0], ch)
    if t.k == "cmp" and t.a[0] in ("eq", "in", "ne", "notin", "is"):
        if any(c is ch for c in choices_of(t.a[1])):
            return names_in(t.a[2])
        if t.a[0] not in ("in", "notin") and any(c is ch for c in choices_of(t.a[2])):
            return names_in(t.a[1])
    return None


def negated(t, v, ch):
    """names the fact (t is v) excludes for the choice; None if it is consistent only with a matching name; () if unrelated"""
    inv = False
    while t.k in ("not", "inv"):
        t, inv = t.a[0], not inv
    v = v != inv
    if t.k == "and" and v or t.k == "or" and not v:
        out, rel = set(), False
        for x in t.a:
            r = negated(x, v, ch)
            if r is None:
                return None
            if r != ():
                rel = True
                out |= r
        return out if rel else ()
    if t.k in ("and", "or"):
        rs = [negated(x, v, ch) for x in t.a]
        if all(r == () for r in rs):
            return ()
        return set() if any(r is not None for r in rs) else None
    n = atom(t, ch)
    if n is None:
        return () if ch not in set(subterms(t)) else set()
    if t.a[0] in ("ne", "notin"):
        v = not v
    if v:
        return None if n else set()
    return n


def used(p):
    out = []
    for f in p.all_func_nodes():
        if not string_compares(f.node):
            continue
        I = Interp(p, Config(collect=True, track_op=True, track_raise=True, track_call=lambda n: True, track_read=lambda b, k: True, track_store=lambda b, n: True))
        I.run(f)
        out.append((f, I, I.log))
    return out


class Site:
    def __init__(s, f, ch):
        s.f, s.ch, s.names, s.refusals, s.compares, s.where = f, ch, set(), [], [], None

    @property
    def key(s):
        return option(s.ch) or f"parameter {s.ch.a[0]}"


def sites(runs):
    out = []
    for f, I, log in runs:
        d = {}
        for e in log:
            if e.kind == "op" and e.sig[0] in ("Eq", "NotEq", "In", "NotIn") and len(e.sig) == 3:
                for a, b in ((e.sig[1], e.sig[2]), (e.sig[2], e.sig[1]))[:2 if e.sig[0] in ("Eq", "NotEq") else 1]:
                    n = names_in(b)
                    if not n:
                        continue
                    for c in choices_of(a):
                        if c.k == "sym" and c.a[0] in ("self",):
                            continue
                        s = d.setdefault(c, Site(f, c))
                        s.names |= n
                        s.compares.append(e)
                        s.where = s.where or e.where
            elif e.kind == "getidx" and e.sig[0].k == "dct":
                for c in choices_of(e.sig[1]):
                    ks = set(dict_keys(e.sig[0]))
                    if ks:
                        s = d.setdefault(c, Site(f, c))
                        s.names |= ks
                        s.refusals.append((ks, e))       # a missing key is refused by the lookup itself
                        s.where = s.where or e.where
        for s in d.values():
            for e in log:
                if e.kind != "raise":
                    continue
                neg, rel, ok = set(), False, True
                other = {}
                for t, v in e.facts.items():
                    r = negated(t, v, s.ch)
                    if r is None:
                        ok = False
                    elif r == ():
                        other[t] = v
                    else:
                        rel = True
                        neg |= r
                if ok and rel and neg:
                    for c in s.compares:
                        oc = {t: v for t, v in c.facts.items()}
                        if all(oc.get(t) == v or any(t is x for x in oc) and oc[t] == v or trivial(t, v, oc, I) for t, v in other.items()):
                            s.refusals.append((neg, e))
                            break
            out.append(s)
    return out


def trivial(t, v, facts, I):
    st = State()
    st.facts = dict(facts)
    return I.truth(t, st) == v


# ------------------------------------------------------------------ refusals
def refused(p, rep, ss):
    rep.rule("refused", "a name none of the alternatives matches is refused with an error")
    rep.rule("implemented", "every name accepted by the validation of a choice is implemented by its dispatch and by the library that receives it")
    opts = {}
    for s in ss:
        if s.ch.k != "sym":
            opts.setdefault(option(s.ch), []).append(s)
    acc = {}
    n = 0
    for k, group in sorted(opts.items()):
        if not any(is_option(p, k) for _ in (0,)):
            continue
        ref = [s for s in group if s.refusals]
        w = group[0].where
        if k in LENIENT:
            names = set().union(*[s.names for s in group])
            acc[k] = names
            continue
        n += 1
        rep.check(bool(ref), "refused", f"option {k}", w, f"an unrecognised value of the option {k} is accepted: no alternative of {sorted(set().union(*[s.names for s in group]))} matches and no error is raised")
        for s in ref:
            a = set().union(*[r[0] for r in s.refusals]) if len(s.refusals) == 1 else set.intersection(*[set(r[0]) for r in s.refusals]) or set().union(*[r[0] for r in s.refusals])
            acc[k] = acc[k] & a if k in acc else set(a)
        if not ref:
            acc[k] = set().union(*[s.names for s in group])
    # selections made by a parameter
    for s in ss:
        if s.ch.k == "sym" and (len(s.names) > 1):
            mixed = any(e.kind == "op" for e in s.compares)
            if not mixed and not s.refusals:
                continue
            if selector(s):
                n += 1
                rep.check(bool(s.refusals), "refused", f"{s.key}", s.where, f"{s.f.qual}: an unrecognised value of {s.key} is accepted: no alternative of {sorted(s.names)} matches and no error is raised")
    rep.count("choices", n)
    rep.at_least("choices", n, 4)
    return acc


def selector(s):
    """a parameter that is compared with several names one after the other"""
    eq = [e for e in s.compares if e.sig[0] in ("Eq", "NotEq", "In", "NotIn") and any(x is s.ch for x in e.sig[1:])]
    return bool(eq) and s.ch.a[0] in (s.f.posonly + s.f.kwonly)


def is_option(p, k):
    return k in declared(p)


_ini = {}


def declared(p):
    """{option: (default expression, comment, file)} of the option files"""
    if id(p) in _ini:
        return _ini[id(p)][1]
    import os
    d = {}
    root = os.path.join(p.root, "vbmc", "option_configs")
    for fn in ("basic_vbmc_options.ini", "advanced_vbmc_options.ini"):
        path = os.path.join(root, fn)
        if not os.path.exists(path):
            continue
        c = ""
        for i, l in enumerate(open(path, encoding="utf-8")):
            l = l.strip()
            if l.startswith("#"):
                c = l[1:]
            elif "=" in l:
                k, v = l.split("=", 1)
                d[k.strip()] = (v.strip(), c, f"pyvbmc/vbmc/option_configs/{fn}:{i + 1}")
                c = ""
    _ini[id(p)] = (p, d)
    return d


def implemented(p, rep, ss, acc, runs):
    byf = {}
    for s in ss:
        byf.setdefault((s.f.qual, s.ch), s)
    # names passed on to a function that dispatches on a parameter
    disp = {}
    for s in ss:
        if s.ch.k == "sym" and s.refusals and s.ch.a[0] in (s.f.posonly + s.f.kwonly):
            disp.setdefault(s.f.qual, []).append(s)
    for f, I, log in sweep(p):
        for e in log:
            if e.kind == "call":
                q = e.sig[0]
                for s in disp.get(q, []) + (disp.get(q + ".__init__", [])):
                    a = bind(p, s.f.qual, (sym("self"),) + tuple(e.sig[1]) if s.f.name == "__init__" and q != s.f.qual else e.sig[1], e.sig[2])
                    v = a.get(s.ch.a[0])
                    if v is None:
                        continue
                    ok = names_ok(s)
                    if is_const(v) and isinstance(cval(v), str):
                        rep.check(cval(v) in ok, "implemented", f"{s.key} {cval(v)!r}", e.where, f"{e.sig[0]} is asked for {cval(v)!r} but accepts {sorted(ok)} only")
                    k = option(v)
                    if k is not None:
                        if k in acc:
                            for nme in sorted(acc[k]):
                                rep.check(nme in ok, "implemented", f"option {k} {nme!r}", e.where, f"the option {k} may be {nme!r}, which {s.f.qual} does not implement")
                            acc[k] = acc[k] & ok
                        else:
                            acc[k] = set(ok)
            elif e.kind in ("setidx",) and len(e.sig) == 3 and is_const(e.sig[1]) and cval(e.sig[1]) in acc and is_const(e.sig[2]) and isinstance(cval(e.sig[2]), str):
                k, v = cval(e.sig[1]), cval(e.sig[2])
                rep.check(v in acc[k], "implemented", f"option {k} {v!r}", e.where, f"{k} is set to {v!r}, which is not among the implemented {sorted(acc[k])}")
    init = p.func("VBMC.__init__")
    early = {f for f in p.all_func_nodes() if f is init or f.cls is not None and f.cls.name == "VBMC" and f.name.startswith("_init")}
    for k, group in by_option(ss).items():
        if k in LENIENT:
            continue
        ref = [s for s in group if s.refusals]
        for s in ref:
            ok = names_ok(s)
            for o in ref:
                if o is s:
                    continue
                for nme in sorted(names_ok(o) - ok):
                    # the name is accepted by o: is it refused before it reaches s?
                    if nme in (acc.get(k) or ()) or o.f in early:
                        rep.bad("implemented", f"option {k} {nme!r}", s.where, f"{o.f.qual} accepts {nme!r} for the option {k}, {s.f.qual} does not implement it")
            rep.ok("implemented", f"option {k} in {s.f.qual}: {sorted(ok)}", s.where)
    for k, rec in RECEIVER.items():
        if k in acc:
            for nme in sorted(acc[k]):
                rep.check(nme in rec, "implemented", f"option {k} {nme!r}", next((s.where for s in ss if s.key == k), "?"), f"the option {k} may be {nme!r}, which the receiving library does not implement")


def by_option(ss):
    d = {}
    for s in ss:
        if s.ch.k != "sym":
            d.setdefault(option(s.ch), []).append(s)
    return d


def names_ok(s):
    rs = [set(r[0]) for r in s.refusals]
    return set().union(*rs)


def defaults(p, rep, acc):
    rep.rule("default", "the default and every documented value of a choice is accepted")
    n = 0
    for k, (v, c, where) in sorted(declared(p).items()):
        ok = set(acc.get(k, set())) or set(RECEIVER.get(k, set()))
        if not ok:
            continue
        try:
            x = ast.literal_eval(v)
        except Exception:
            x = None
        n += 1
        if isinstance(x, str):
            rep.check(x in ok, "default", f"default of {k}", where, f"the default {x!r} of {k} is not among the accepted {sorted(ok)}")
        for q in re.findall(r'"([^"]*)"', c):
            rep.check(q in ok, "default", f"documented value of {k}: {q!r}", where, f"the value {q!r} documented for {k} is not among the accepted {sorted(ok)}")
    rep.count("defaults", n)
    rep.at_least("defaults", n, 4)


# ------------------------------------------------------------------ what each name selects
def arms(p, rep, runs, ss):
    rep.rule("arm", "each accepted name selects its own implementation")
    for k, want in ARMS.items():
        for f, I, log in runs:
            chs = {s.ch for s in ss if s.f is f and s.key == k}
            if not chs:
                continue
            for nme, (callee, arg) in want.items():
                hit = []
                for e in log:
                    if e.kind == "call" and (short(e.sig[0]).startswith(callee)):
                        if arg is not None and not any(is_const(x) and cval(x) == arg for x in list(e.sig[1]) + [v for _, v in e.sig[2]]):
                            continue
                        hit.append(e)
                if not hit:
                    rep.bad("arm", f"{k} {nme!r}", f"{f.mod.rel}:{f.node.lineno}", f"no {callee} is called for {k}={nme!r}")
                    continue
                good = any(consistent(e.facts, chs, nme) for e in hit)
                rep.check(good, "arm", f"{k} {nme!r}", hit[0].where, f"{callee} is not called for {k}={nme!r}")
                for o in want:
                    if o != nme:
                        for e in hit:
                            rep.check(not consistent(e.facts, chs, o), "arm", f"{k} {o!r}", e.where, f"{callee} is called for {k}={o!r}")
    # factories
    f = p.func("gaussian_process_train._meanfun_name_to_mean_function")
    made = set()
    a0 = f.posonly[0]
    for nme, cls in MEANS.items():
        I = Interp(p, Config(path_sensitive=True))
        for s, c, v in I.run(f, args={a0: const(nme)}):
            if not possible(s.facts):
                continue
            if c == "return" and v.k == "call":
                rep.check(short(v.a[0]) == cls, "arm", f"mean function {nme!r}", f"{f.mod.rel}:{f.node.lineno}", f"the mean function {nme!r} becomes {v.a[0]}")
                made.add(short(v.a[0]))
            elif c == "raise":
                rep.bad("arm", f"mean function {nme!r}", f"{f.mod.rel}:{f.node.lineno}", f"the mean function {nme!r} is refused")
        rep.used(I)
    for s in ss:
        if s.f is f and s.ch.k == "sym" and s.refusals:
            for nme in sorted(names_ok(s) - set(MEANS)):
                rep.bad("arm", f"mean function {nme!r}", s.where, f"the mean function {nme!r} has no support in the log-joint, hyperparameter bounds and warping")
    f = p.func("gaussian_process_train._cov_identifier_to_covariance_function")
    a0 = f.posonly[0]
    for code, cls in ((1, "SquaredExponential"), (3, "Matern")):
        I = Interp(p, Config(path_sensitive=True))
        for s, c, v in I.run(f, args={a0: const(code)}):
            if c == "return" and v.k == "call":
                rep.check(short(v.a[0]) == cls, "arm", f"covariance function {code}", f"{f.mod.rel}:{f.node.lineno}", f"the covariance function {code} becomes {v.a[0]}")
            elif c == "raise":
                rep.bad("arm", f"covariance function {code}", f"{f.mod.rel}:{f.node.lineno}", f"the covariance function {code} is refused")
    I = Interp(p, Config(path_sensitive=True))
    for s, c, v in I.run(f, args={a0: const(-77)}):
        if not possible(s.facts):
            continue
        rep.check(c == "raise", "refused", "covariance identifier", f"{f.mod.rel}:{f.node.lineno}", "an unknown covariance identifier is accepted")
    rep.used(I)


def consistent(facts, chs, nme):
    for t, v in facts.items():
        for ch in chs:
            if ch in set(subterms(t)):
                r = holds_name(t, ch, nme)
                if r is not None and r != v:
                    return False
    return True


def holds_name(t, ch, nme):
    """truth of a fact when the choice has the name; None if unknown"""
    if t.k in ("not", "inv"):
        r = holds_name(t.a[0], ch, nme)
        return None if r is None else not r
    if t.k in ("and", "or"):
        rs = [holds_name(x, ch, nme) for x in t.a]
        if t.k == "and":
            return False if False in rs else True if all(rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    if t.k == "cmp" and t.a[0] in ("eq", "in", "ne", "notin"):
        x, o = (t.a[1], t.a[2]) if ch in choices_of(t.a[1]) else (t.a[2], t.a[1])
        if ch in choices_of(x):
            n = names_in(o)
            if n:
                r = nme in n
                return r if t.a[0] in ("eq", "in") else not r
    return None


def possible(facts):
    """False when a fact about a given constant cannot hold"""
    for t, v in facts.items():
        r = known(t)
        if r is not None and r != v:
            return False
    return True


TYPES = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "bool": bool}


def known(t):
    if t.k in ("not", "inv"):
        r = known(t.a[0])
        return None if r is None else not r
    if t.k in ("and", "or"):
        rs = [known(x) for x in t.a]
        if t.k == "and":
            return False if False in rs else True if all(rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    if t.k == "call" and t.a[0] == "isinstance" and len(t.a[1]) == 2 and is_const(t.a[1][0]):
        cs = [str(x.a[-1]) if x.a else "" for x in (t.a[1][1].a if t.a[1][1].k == "tup" else (t.a[1][1],))]
        if all(short(c) in TYPES for c in cs):
            return any(isinstance(cval(t.a[1][0]), TYPES[short(c)]) for c in cs)
    if t.k == "cmp" and t.a[0] in ("eq", "is"):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if a.k == "call" and a.a[0] == "type" and len(a.a[1]) == 1 and is_const(a.a[1][0]) and b.a and short(str(b.a[-1])) in TYPES:
                return type(cval(a.a[1][0])) is TYPES[short(str(b.a[-1]))]
    if t.k == "cmp" and t.a[0] == "in" and is_const(t.a[1]):
        vs = values_of(t.a[2])
        if vs is not None:
            return any(cval(t.a[1]) == q and type(cval(t.a[1])) is type(q) for q in vs)
    return None


def values_of(t):
    if t.k == "call" and short(t.a[0]) in ("values", "keys") and t.a[1] and t.a[1][0].k == "dct":
        i = 1 if short(t.a[0]) == "values" else 0
        out = []
        for x in t.a[1][0].a:
            if not (isinstance(x, tuple) and len(x) == 2) or not is_const(x[i]):
                return None
            out.append(cval(x[i]))
        return out
    if t.k == "dct":
        return dict_keys(t)
    if t.k in ("lst", "tup", "set") and all(is_const(x) for x in t.a):
        return [cval(x) for x in t.a]
    if t.k == "call" and t.a[0] in ("list", "set", "tuple", "frozenset") and len(t.a[1]) == 1:
        return values_of(t.a[1][0])
    return None


def isinstance_chains(p, rep, runs):
    rep.rule("classes", "a chain over the classes of mean functions that refuses others handles every class that can be selected")
    n = 0
    for f, I, log in runs:
        for e in log:
            if e.kind != "raise":
                continue
            neg = set()
            pos = False
            for t, v in e.facts.items():
                inv = False
                while t.k in ("not", "inv"):
                    t, inv = t.a[0], not inv
                if t.k == "call" and t.a[0] == "isinstance" and len(t.a[1]) == 2 and holds_mean(t.a[1][0]):
                    cs = classes(t.a[1][1])
                    if v != inv:
                        pos = True
                    else:
                        neg |= cs
            if neg and not pos:
                n += 1
                for c in sorted(set(MEANS.values())):
                    rep.check(c in neg, "classes", f"mean function class {c}", e.where, f"{f.qual} refuses {c}, which can be selected")
    rep.count("class chains", n)


def holds_mean(t):
    return t.k == "attr" and t.a[1] == "mean" or t.k == "havoc" and len(t.a) > 2 and t.a[1] == "mean"


def classes(t):
    out = set()
    for x in (t.a if t.k in ("tup", "lst") else (t,)):
        if x.k == "attr":
            out.add(x.a[1])
        elif x.k in ("sym", "fn", "cls", "mod", "ext", "glob"):
            out.add(short(str(x.a[0])))
    return out


def transforms(p, rep, ss):
    rep.rule("transform", "every accepted bounded-transform name selects a type with forward, inverse and Jacobian functions; others are refused")
    f = p.func("ParameterTransformer.__init__")
    where = f"{f.mod.rel}:{f.node.lineno}"
    g = p.func("ParameterTransformer._set_bounded_transforms")
    wg = f"{g.mod.rel}:{g.node.lineno}"
    n = 0
    codes = set(CODES.values())
    extra = {x for s in ss if s.f is f and s.ch.k == "sym" for x in (names_ok(s) if s.refusals else ())} - set(CODES)
    for nme, code in list(CODES.items()) + [(x, -1) for x in sorted(extra)] + [("?unknown?", None), (-77, None)]:
        I = Interp(p, Config(path_sensitive=True, opaque=("ParameterTransformer._set_bounded_transforms",)))
        st = State()
        outs = I.run(f, args={"transform_type": const(nme)}, state=st)
        for s, c, v in outs:
            if not possible(s.facts):
                continue
            if code is None:
                n += 1
                x = s.store.get(attr(sym("self"), "bounded_types"), const(None))
                miss = any(q.k == "idx" and q.a[0].k == "dct" and is_const(q.a[1]) and q.a[1] not in [z[0] for z in q.a[0].a if isinstance(z, tuple)] for q in subterms(x))
                rep.check(c == "raise" or miss, "transform", f"unknown transform type ({'name' if isinstance(nme, str) else 'number'})", where, "an unrecognised bounded transform is accepted")
                continue
            if c == "raise":
                if v.k == "exc" and not any(q.k == "cmp" for q in s.facts):
                    rep.bad("transform", f"transform {nme!r}", where, f"the bounded transform {nme!r} is refused")
                continue
            x = s.store.get(attr(sym("self"), "bounded_types"))
            if x is None:
                rep.notes.append("types of the bounded transforms not recognised")
                continue
            n += 1
            if x.k in ("lst", "tup") and all(is_const(q) for q in x.a):
                if code == -1:
                    codes |= {cval(q) for q in x.a}
                    continue
                rep.check([cval(q) for q in x.a] == [code], "transform", f"transform {nme!r}", where, f"the bounded transform {nme!r} selects type {[cval(q) for q in x.a]}, not {code}")
        rep.used(I)
    for code in sorted(codes, key=str):
        I = Interp(p, Config(path_sensitive=True))
        st = State()
        st.store[attr(sym("self"), "bounded_types")] = mk("lst", const(code))
        for s, c, v in I.run(g, state=st):
            n += 1
            if c == "raise":
                rep.bad("transform", f"type {code}", wg, f"the transform type {code} is refused")
                continue
            txt = " ".join(repr(k) + show(v2, 6) for k, v2 in s.store.items() if "bounded" in show(k, 6))
            seen = set()
            for k, v2 in s.store.items():
                for q in list(subterms(k)) + list(subterms(v2)):
                    if is_const(q) and cval(q) in ("direct", "inverse", "jacobian"):
                        seen.add(cval(q))
            for w in ("direct", "inverse", "jacobian"):
                rep.check(w in seen, "transform", f"type {code}: {w}", wg, f"the transform type {code} has no {w} function")
        rep.used(I)
    rep.count("transform scenarios", n)


def acquisitions(p, rep):
    rep.rule("acquisition", "every acquisition function of the library can be selected and provides what its flags promise")
    base = "AbstractAcqFcn"
    needed = set()
    f = p.func("active_importance_sampling.active_importance_sampling")
    a = [x for x in f.posonly if "acq" in x]
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in a and x.attr != "acq_info":
            needed.add(x.attr)
    n = 0
    exported = set()
    for m in p.modules.values():
        if m.rel.endswith("acquisition_functions/__init__.py"):
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom):
                    exported |= {(y.asname or y.name) for y in x.names}
            if any(isinstance(x, ast.ImportFrom) and any(y.name == "*" for y in x.names) for x in ast.walk(m.tree)):
                exported = None
    for c in all_classes(p):
        if c.name == base or not any(b.name == base for b in mro(p, c)):
            continue
        n += 1
        where = f"{c.mod.rel}:{c.node.lineno}"
        if exported is not None:
            rep.check(c.name in exported, "acquisition", f"{c.name} exported", where, f"{c.name} cannot be selected by name")
        ms = {}
        for b in reversed(mro(p, c)):
            ms.update(b.methods)
        q = ms.get("_compute_acquisition_function")
        rep.check(q is not None and not stub(q.node), "acquisition", f"{c.name} computes", where, f"{c.name} has no acquisition function")
        flags = set()
        for b in mro(p, c):
            for x in ast.walk(b.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is True:
                    for t in x.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                            flags.add(t.slice.value)
        if "importance_sampling" in flags:
            for w in sorted(needed):
                rep.check(w in ms and not stub(ms[w].node), "acquisition", f"{c.name} {w}", where, f"{c.name} requires importance sampling but has no {w}")
    rep.count("acquisition functions", n)
    rep.at_least("acquisition functions", n, 2)


def stub(node):
    b = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not b or all(isinstance(x, (ast.Pass, ast.Raise)) for x in b)


def all_classes(p):
    return [c for m in p.modules.values() for c in m.classes.values()]


def mro(p, c):
    out, st = [], [c]
    while st:
        x = st.pop(0)
        if x in out:
            continue
        out.append(x)
        for b in x.node.bases:
            n = short(ast.unparse(b))
            st += [y for y in all_classes(p) if y.name == n]
    return out


def run(p, rep):
    runs = used(p)
    for f, I, log in runs:
        rep.used(I)
    ss = sites(runs)
    acc = refused(p, rep, ss)
    implemented(p, rep, ss, acc, runs)
    defaults(p, rep, acc)
    arms(p, rep, runs, ss)
    isinstance_chains(p, rep, runs)
    transforms(p, rep, ss)
    acquisitions(p, rep)
