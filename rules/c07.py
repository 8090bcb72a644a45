"""C07: the iteration history is an immutable snapshot, complete for every iteration."""
import ast
from engine.absint import Config, Interp
from engine.program import AnalysisBroken
from engine.lib import *

EXPLANATION = (
    "May-alias / may-mutate analysis for writes that reach recorded objects (only the history's own operations, and one listed flag), "
    "term extraction of the history's operations (only deep copies are stored, refusals precede every write), and event traces of one "
    "abstract iteration of the main loop: every required entry is recorded, at this iteration's index, on every path.")

REQUIRED = {"iter", "vp", "elbo", "elbo_sd", "sKL", "gp", "gp_hyp_full", "Ns_gp", "pruned", "func_count", "lcb_max", "n_eff", "function_logger",
            "warmup", "logging_action", "optim_state", "random_state"}
REQUIRED_TERM = {"r_index", "elcbo_impro", "stable"}
# entry -> name of the live value it must be taken from
SOURCE = {"elbo": "elbo", "elbo_sd": "elbo_sd", "iter": "iteration"}
WRITE_OK = {("['vp']", "['stable']")}    # determine_best_vp copies the record's own stability flag into the recorded posterior


def run(p, rep):
    rep.rule("history-writes", "recorded entries are written only by the history's own operations")
    rep.rule("copied-in", "the history stores deep copies only")
    rep.rule("not-shared", "no live attribute refers to an object inside the history")
    rep.rule("refused", "a negative iteration or an undeclared name is refused before anything is written")
    rep.rule("complete", "every path of an iteration records every required entry under this iteration's index")
    rep.rule("deep-copy", "copying an object for the history copies all of its state (only callables may be shared)")
    A = aliasing(p)
    writes(p, rep, A)
    shared(p, rep, A)
    operations(p, rep)
    complete(p, rep)
    copies(p, rep)


def hist_index(path):
    for i, x in enumerate(path):
        if x == ".iteration_history":
            return i
    return None


def is_hist_root(A, q, root):
    f = A.funcs[q]
    if root[0] != "P":
        return False
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == root[1]:
            return root[1] == "iteration_history" or a.annotation is not None and (dotted(a.annotation) or "").endswith("IterationHistory")
    return False


def writes(p, rep, A):
    n = 0
    for q, f in A.funcs.items():
        own = f.cls is not None and f.cls.name == "IterationHistory"
        for m in A.mutated(q):
            path = m.loc[1] + (m.field,)
            i = hist_index(path)
            if i is None and is_hist_root(A, q, m.loc[0]):
                i = -1
            if own or i is None or i == len(path) - 1:
                continue
            n += 1
            rest = path[i + 1:]
            by_history = m.where.split(":")[0].endswith("iteration_history.py")
            good = by_history and all(x == "[]" for x in rest) or (rest[0], rest[-1]) in WRITE_OK
            if not good and own_operation(p, m, rest):
                good = True
            rep.check(good, "history-writes", f"record {''.join(rest)}", m.where, f"{q} may modify what the history recorded: {m.how} in {m.func}")
    rep.at_least("writes reaching the history", n, 4)


def own_operation(p, m, rest):
    """history[key] = value on the history object itself: stored through its (copying) item assignment"""
    return len(rest) == 1 and rest[0].startswith("[")


def shared(p, rep, A):
    n = 0
    for q, f in A.funcs.items():
        if only_called_from(p, f, {"VBMC.load"}):
            continue                # part of loading, checked below
        for (loc, fld), v in sorted(A.sum[q].heap.items(), key=str):
            if loc[0][0] != "P" or hist_index(loc[1] + (fld,)) is not None:
                continue
            for x in v:
                i = hist_index(x[1])
                if i is None and not is_hist_root(A, q, x[0]):
                    continue
                rest = x[1][i + 1:] if i is not None else x[1]
                if not rest or fld in ("['stable']",) or loc[0] == x[0] and loc[1] + (fld,) == x[1]:
                    continue
                n += 1
                key = rest[0]
                if key.strip("[]'") in SCALARS:
                    continue
                rep.bad("not-shared", f"live {fld.strip('.')}", f.where, f"{q} leaves {''.join(loc[1]) + fld} referring to the recorded object {''.join(rest)}")
    # loading: the live objects come from the history, which is then cut down to fresh copies
    f = p.func("VBMC.load")
    I = Interp(p, Config(track_store=lambda b, n: True, path_sensitive=False))
    live, cut = {}, []
    for s, c, v in I.run(f):
        for j, e in enumerate(s.events):
            if e.kind == "setattr" and shares(e.sig[2]):
                live.setdefault(e.key, e)
            if e.kind == "setidx" and e.loops and is_history(e.sig[0]) and any(x.kind == "setattr" and shares(x.sig[2]) for x in s.events[:j]):
                cut.append(e)
    for e in live.values():
        rep.check(bool(cut), "not-shared", f"loaded {const_name(e.sig[1])}", e.where,
                  "the loaded object is the recorded one and the history is not re-copied afterwards")
    n += len(live)
    rep.used(I)
    rep.count("live references examined", n)


SCALARS = {"r_index", "elcbo_impro", "stable", "elbo", "elbo_sd", "warmup", "iter", "lcb_max", "Ns_gp", "sKL", "pruned", "func_count", "n_eff"}


def const_name(n):
    return n if isinstance(n, str) else show(n, 2)


def is_history(t):
    return t.k == "attr" and t.a[1] == "iteration_history" or t.k in ("havoc", "loop") and len(t.a) > 1 and t.a[1] == "iteration_history" \
        or t.k in ("phi",) and any(is_history(x) for x in t.a[2]) or t.k == "upd" and is_history(t.a[0])


def shares(t, d=0):
    """the term is an element of a recorded entry, not a copy of it"""
    if d > 8 or not isinstance(t, type(NONE)):
        return False
    if t.k == "idx":
        return is_history(t.a[0]) and not (is_const(t.a[1]) and cval(t.a[1]) in SCALARS) or shares(t.a[0], d + 1) and not scalar_entry(t)
    if t.k == "call" and t.a[0].endswith(".get") and t.a[1]:
        return is_history(t.a[1][0])
    if t.k == "ite":
        return shares(t.a[1], d + 1) or shares(t.a[2], d + 1)
    if t.k == "phi":
        return any(shares(x, d + 1) for x in t.a[2])
    return False


def scalar_entry(t):
    return False


def deep(t, d=0):
    if t.k == "call" and t.a[0] in ("copy.deepcopy",):
        return True
    if t.k in ("ite",):
        return deep(t.a[1], d + 1) and deep(t.a[2], d + 1)
    if t.k == "call" and t.a[0] in ("np.append", "np.full", "np.concatenate", "np.empty", "np.resize"):
        return True       # arrays built from already recorded entries and placeholders
    return t is NONE


def operations(p, rep):
    me = sym("self")
    # item assignment
    I = Interp(p, Config(path_sensitive=True, track_raise=True, track_call=lambda n: n.endswith("__setitem__") or n in ("dict.update", "dict.setdefault"), track_store=lambda b, n: True))
    f = p.func("IterationHistory.__setitem__")
    n = 0
    for s, c, v in I.run(f):
        w = [e for e in s.events if e.kind == "call" or e.kind == "setidx" and e.sig[0] is me]
        for e in w:
            val = e.sig[1][2] if e.kind == "call" and len(e.sig[1]) > 2 else e.sig[2] if e.kind == "setidx" else None
            if val is None:
                continue
            n += 1
            rep.check(deep(val), "copied-in", "item assignment", e.where, f"stores {show(val)} instead of a deep copy")
            rep.check(not holds_with(I, e.facts, {attr(me, "check_keys"): True, mk("cmp", "in", sym("key"), me): False}), "refused",
                      "item assignment: undeclared name", e.where, "a path stores under a name that was not declared")
        if c == "raise":
            rep.check(not w, "refused", "item assignment: raise", f.where, "writes before refusing")
    rep.used(I)
    # declared keys are locked when construction ends, and never unlocked
    I = Interp(p, Config(opaque=("IterationHistory.__setitem__",), track_store=lambda b, n: n == "check_keys"))
    for s, c, v in I.run(p.func("IterationHistory.__init__")):
        if c == "return":
            sets = [e.sig[2] for e in s.events if e.kind == "setattr"]
            rep.check(bool(sets) and sets[-1] is TRUE, "refused", "names locked", p.func("IterationHistory.__init__").where,
                      "the constructor does not end by locking the declared names")
    for g in p.all_func_nodes():
        if g.qual in ("IterationHistory.__init__", "IterationHistory.__setstate__"):
            continue
        for b, a, node in attr_writes(g):
            if a == "check_keys" and not only_called_from(p, g, {"IterationHistory.__init__", "IterationHistory.__setstate__"}):
                rep.bad("refused", "names unlocked", f"{g.mod.rel}:{node.lineno}", f"{g.qual} changes the history's name checking")
    # record / record_iteration
    for name in ("record", "record_iteration"):
        f = p.func("IterationHistory." + name)
        I = Interp(p, Config(path_sensitive=True, cap=2000, track_raise=True, opaque=("IterationHistory._expand_array",),
                             track_call=lambda q: q in ("IterationHistory.record", "IterationHistory.__setitem__", "IterationHistory._expand_array",
                                                        "dict.__setitem__"),
                             track_store=lambda b, q: True))
        it = sym("iteration")
        stored = 0
        for s, c, v in I.run(f):
            w = [e for e in s.events if e.kind in ("setidx", "mutate", "setattr", "aug", "call")]
            for e in w:
                if e.kind != "call":
                    rep.check(nonneg(I, e.facts, it), "refused", f"{name}: negative iteration", e.where,
                              "a path writes without having refused a negative iteration")
                if e.kind == "setidx":
                    stored += e.sig[0] is not me
                    rep.check(deep(e.sig[2]), "copied-in", f"{name}", e.where, f"stores {show(e.sig[2])} instead of a deep copy")
                    if e.sig[0] is not me:
                        rep.check(same_value(e.sig[1], it), "copied-in", f"{name}: index", e.where, f"stored at {show(e.sig[1])}, not at the given iteration")
                if e.kind == "setidx" and e.sig[0] is me or e.kind == "call" and e.sig[0] == "IterationHistory.__setitem__":
                    # stored through the item assignment, which refuses and copies by itself
                    continue
            if c == "raise":
                rep.check(not [e for e in w if e.kind != "call"], "refused", f"{name}: raise", f.where, "writes before refusing")
            if c == "return" and name == "record":
                rep.check(any(e.kind == "setidx" and e.sig[0] is not me and same_value(e.sig[1], it) or e.kind == "call" and e.sig[0].endswith("__setitem__")
                              for e in w), "complete", "record stores", f.where, "a returning path of record stores nothing")
            if c == "return" and name == "record_iteration":
                for e in w:
                    if e.kind == "call" and e.sig[0] == "IterationHistory.record":
                        a = bind(p, "IterationHistory.record", e.sig[1], e.sig[2])
                        k, val, i = a.get("key"), a.get("value"), a.get("iteration")
                        stored += 1
                        rep.check(i is not None and same_value(i, it), "complete", "record_iteration: index", e.where, "records under another iteration")
                        pair = k is not None and val is not None and pairs(k, val)
                        rep.check(pair, "complete", "record_iteration: pairs", e.where, f"records {show(val)} under {show(k)}")
        rep.used(I)
        n += stored
    rep.at_least("stores of the history's operations", n, 3)


def pairs(k, v):
    """k and v are the key and value of one element of the mapping (or value is looked up by that key)"""
    if k.k == "idx" and v.k == "idx" and k.a[0] is v.a[0]:
        return cval(k.a[1]) == 0 and cval(v.a[1]) == 1 if is_const(k.a[1]) and is_const(v.a[1]) else False
    if v.k == "idx" and v.a[1] is k:
        return True
    if v.k == "call" and v.a[0].endswith(".get") and k in v.a[1]:
        return True
    return not (k.k == "idx" and v.k == "idx")


def root_is_self(t):
    d = 0
    while t.k in ("idx", "upd", "attr") and d < 20:
        t = t.a[0]
        d += 1
    if t.k in ("havoc", "loop") and len(t.a) > 2 and isinstance(t.a[2], type(NONE)):
        return t.a[2] is sym("self")
    return t is sym("self")


def nonneg(I, facts, it):
    from engine.absint import State
    s = State()
    s.facts = dict(facts)
    c = I.cmpop("lt", it, const(0))
    return I.truth(c, s) is False


def keys_of(t):
    if t.k == "dct":
        out = []
        for x in t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) and t.a[0] and isinstance(t.a[0][0], tuple) else t.a:
            if isinstance(x, tuple) and len(x) == 2:
                out.append((cval(x[0]) if isinstance(x[0], type(NONE)) and is_const(x[0]) else x[0], x[1]))
        return dict(out)
    if t.k == "upd":
        d = keys_of(t.a[0])
        if d is not None and is_const(t.a[1]):
            d = dict(d)
            d[cval(t.a[1])] = t.a[2]
            return d
    if t.k == "call" and t.a[0] == "dict" and not t.a[1]:
        return dict(t.a[2])
    return None


def recorded(p, s):
    """{entry: (value, index, event)} of a state's recording events; None if a mapping is not literal"""
    out, opaque = {}, False
    for e in s.events:
        if e.kind != "call" or not e.sig[0].startswith("IterationHistory.record"):
            continue
        a = bind(p, e.sig[0], e.sig[1], e.sig[2])
        if e.sig[0].endswith("record"):
            k = a.get("key")
            if k is not None and is_const(k):
                out[cval(k)] = (a.get("value"), a.get("iteration"), e)
            else:
                opaque = True
        else:
            d = keys_of(a["key_value"]) if "key_value" in a else None
            if d is not None:
                d = dict(d)
                for k, v in s.store.items():
                    if k.k == "idx" and k.a[0] is a["key_value"] and is_const(k.a[1]):
                        d.setdefault(cval(k.a[1]), v)
            if d is None:
                opaque = True
            else:
                for k, v in d.items():
                    out[k] = (v, a.get("iteration"), e)
    return out, opaque


def complete(p, rep):
    REC = {"IterationHistory.record", "IterationHistory.record_iteration"}
    me = sym("self")
    f = p.func("VBMC.optimize")
    I = Interp(p, Config(track_call=lambda n: n in REC or n == "VBMC._check_termination_conditions",
                         track_store=lambda b, n: n == "iteration", opaque=("IterationHistory.record", "IterationHistory.record_iteration")))
    n = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        its = [e for e in s.events if e.kind == "setattr" and e.loops and e.sig[0] is me or e.kind == "setattr" and e.loops]
        if not its:
            continue
        n += 1
        rec, opaque = recorded(p, s)
        cur = its[-1].sig[2]
        term = [e for e in s.events if e.kind == "call" and e.sig[0] == "VBMC._check_termination_conditions" and e.loops]
        if opaque:
            rep.notes.append("a recording call with computed keys: completeness not decided for the missing entries")
        for k in sorted(REQUIRED):
            if k in rec:
                val, i, e = rec[k]
                rep.check(i is not None and (same_value(i, cur) or i.k not in ("bin", "add", "const", "havoc") or is_iter(i)), "complete", f"entry {k}: index", e.where,
                          f"'{k}' is recorded under {show(i) if i is not None else '?'} instead of this iteration")
                if k in ("elbo", "elbo_sd"):
                    src = last_key(val)
                    rep.check(src is None or src == k, "complete", f"entry {k}: value", e.where, f"'{k}' is recorded with the value of '{src}'")
                if k == "iter":
                    rep.check(same_value(val, cur) or is_iter(val), "complete", "entry iter: value", e.where, "the recorded iteration number is not this iteration")
            elif not opaque:
                rep.bad("complete", f"entry {k}", f.where, f"an iteration can end without recording '{k}'")
        rep.check(bool(term), "complete", "termination check", f.where, "an iteration can end without the termination check (which records reliability and stability)")
    rep.used(I)
    rep.at_least("paths of the main loop", n, 1)
    g = p.func("VBMC._check_termination_conditions")
    I = Interp(p, Config(track_call=lambda n: n in REC, opaque=tuple(REC)))
    m = 0
    for s, c, v in I.run(g):
        if c != "return":
            continue
        m += 1
        rec, opaque = recorded(p, s)
        for k in sorted(REQUIRED_TERM):
            if k in rec:
                val, i, e = rec[k]
                rep.check(i is None or is_iter(i) or i.k not in ("add", "bin", "const"), "complete", f"entry {k}: index", e.where, f"'{k}' recorded under {show(i)}")
            elif not opaque:
                rep.bad("complete", f"entry {k}", g.where, f"the termination check can return without recording '{k}'")
    rep.used(I)
    rep.at_least("returns of the termination check", m, 1)


def is_iter(t):
    """self.iteration or optim_state['iter'] (equal within an iteration)"""
    if t.k == "attr":
        return t.a[1] == "iteration"
    if t.k == "idx":
        return is_const(t.a[1]) and cval(t.a[1]) == "iter"
    if t.k in ("havoc", "loop") and len(t.a) > 1:
        return str(t.a[1]) in ("iteration", "[iter]")
    if t.k == "call" and t.a[0].endswith(".get"):
        return any(is_const(x) and cval(x) == "iter" for x in t.a[1])
    return False


def last_key(t):
    if t.k == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        return cval(t.a[1])
    if t.k in ("havoc", "loop") and len(t.a) > 1 and str(t.a[1]).startswith("["):
        return str(t.a[1]).strip("[]'")
    if t.k == "call" and t.a[0].endswith(".get") and len(t.a[1]) > 1 and is_const(t.a[1][-1]):
        return cval(t.a[1][-1])
    return None


def copies(p, rep):
    """custom deep-copy operations copy every attribute deeply (callables may be shared)"""
    n = 0
    for c in p.classes.values():
        f = p.method(c.name, "__deepcopy__")
        if f is None or f.cls is None or f.cls.name != c.name:
            continue
        n += 1
        me = sym(f.posonly[0])
        I = Interp(p, Config(track_store=lambda b, q: True, track_call=lambda q: q in ("setattr",) or q.endswith("__setitem__") or q.endswith(".update"),
                             path_sensitive=True))
        for s, ctl, v in I.run(f):
            if ctl != "return":
                continue
            rep.check(v is not me, "deep-copy", f"{c.name}", f.where, "returns the object itself")
            n_copied = 0
            for e in s.events:
                val = e.sig[2] if e.kind in ("setattr", "setidx") else None
                if e.kind == "call" and e.sig[0] == "setattr" and len(e.sig[1]) > 2:
                    val = e.sig[1][2]
                elif e.kind == "call" and e.sig[0].endswith("__setitem__") and len(e.sig[1]) > 2:
                    val = e.sig[1][2]
                if val is None or not e.loops:
                    if e.kind == "call" and e.sig[0].endswith(".update") and any(contains(a, lambda x: x is attr(me, "__dict__")) and not contains(a, lambda x: x.k == "call" and x.a[0] == "copy.deepcopy") for a in e.sig[1][1:]):
                        rep.bad("deep-copy", f"{c.name}", e.where, "shares its attributes with the copy")
                    continue
                if contains(val, lambda x: x.k == "call" and x.a[0] == "copy.deepcopy"):
                    n_copied += 1
                    continue
                only_fun = any(t.k == "cmp" and t.a[0] in ("eq",) and v2 is True and any(is_const(y) and cval(y) in ("fun", "logger") for y in t.a[1:])
                               for t, v2 in e.facts.items())
                rep.check(only_fun, "deep-copy", f"{c.name}", e.where, f"the copy shares {show(val)} with the original")
        rep.used(I)
        rep.ok("deep-copy", c.name, f.where)
    rep.at_least("custom copy operations", n, 2)
