"""C01: each target value enters inference once: validated, counted, recorded."""
import ast
from engine.absint import Config, Interp
from engine.program import AnalysisBroken
from engine.terms import *
from engine.lib import *

EXPLANATION = (
    "Abstract interpretation (value numbering + must-facts + event traces, new helpers inlined) of the evaluation "
    "log's call and add operations over all paths, plus a whole-program who-may-call/who-may-write analysis of the "
    "target and of the log's state.")

LOG_STATE = {"X_orig", "y_orig", "X", "y", "S", "n_evals", "X_flag", "fun_eval_time", "func_count", "cache_count",
             "Xn", "total_fun_eval_time", "y_max"}
ROWS = ("X_orig", "y_orig", "X", "y", "S", "n_evals", "X_flag", "fun_eval_time", "Xn", "func_count", "cache_count",
        "total_fun_eval_time")
# sites outside the class that may touch log state, with the reason
ALLOWED_WRITES = {
    ("VBMC.optimize", "y_max"): "recomputed maximum over active rows",
    ("VBMC._setup_vbmc_after_warmup", "X_flag"): "rows are de-activated after warm-up",
    ("whitening.warp_input", "X"): "re-parameterized points", ("whitening.warp_input", "y"): "re-parameterized values",
    ("whitening.warp_input", "y_max"): "re-parameterized maximum",
}


def run(p, rep):
    rep.rule("who-may-call", "the callable holding the target is invoked only by the evaluation log's call operation "
             "(and composed with the prior in the log-joint constructor)")
    rep.rule("validated-before-record", "on every path to a write of log state, the value passed the checks scalar, finite, real "
             "and, for noisy targets, the SD passed scalar, finite, real, > 0")
    rep.rule("counted-once", "every returning path increments exactly one counter by one and records exactly once")
    rep.rule("same-point", "the recorded original-space point is the evaluated point, and the recorded transformed-space "
             "point is the one that was mapped to it")
    rep.rule("value-from-target", "the recorded value derives from the result of this call of the target")
    rep.rule("failure-leaves-log-unchanged", "no path on which the target raises, or a check fails, writes log state, and it ends by raising")
    rep.rule("who-may-write", "log state is written only by the evaluation log and by the listed maintenance sites")

    rec = p.func("FunctionLogger._record")
    for op in ("__call__", "add"):
        f = p.func("FunctionLogger." + op)
        check_op(p, rep, f, op)
    who_may_call(p, rep)
    who_may_write(p, rep)
    callers(p, rep)


def self_write(e):
    """event writes log state of self"""
    if e.kind in ("setattr", "delattr"):
        return e.sig[0] is sym("self") and e.sig[1] in LOG_STATE
    if e.kind in ("setidx", "mutate", "aug"):
        b = e.sig[0]
        r = root_attr(b)
        return r is not None and r[0] is sym("self") and r[1] in LOG_STATE
    return False


def check_op(p, rep, f, op):
    cfg = Config(path_sensitive=True, cap=4000, track_raise=True,
                 track_call=lambda n: n in ("?call", "FunctionLogger._record", "except"),
                 track_store=lambda b, n: True)
    I = Interp(p, cfg)
    outs = I.run(f)
    rep.used(I)
    rets = [(s, v) for s, c, v in outs if c == "return"]
    raises = [(s, v) for s, c, v in outs if c == "raise"]
    if not rets:
        raise AnalysisBroken(f"no returning path in {f.qual}")
    w = f.where
    counter = "func_count" if op == "__call__" else "cache_count"
    other = "cache_count" if op == "__call__" else "func_count"
    for s, v in rets:
        evs = list(s.events)
        recs = [e for e in evs if e.kind == "call" and e.sig[0] == "FunctionLogger._record"]
        tcalls = [e for e in evs if is_target_call(e)]
        exc = [e for e in evs if e.kind == "except"]
        rep.check(len(recs) == 1 and not recs[0].loops, "counted-once", f"{op}: record", w,
                  f"a returning path records {len(recs)} time(s)")
        rep.check(len(tcalls) == (1 if op == "__call__" else 0) and not any(t.loops for t in tcalls),
                  "counted-once", f"{op}: target calls", w, f"a returning path calls the target {len(tcalls)} time(s)")
        incs = [e for e in evs if e.kind == "setattr" and e.sig[0] is sym("self") and e.sig[1] == counter]
        good = len(incs) == 1 and not incs[0].loops and norm_sum(incs[0].sig[2]) == norm_sum(mk("add", attr(sym("self"), counter), const(1)))
        rep.check(good, "counted-once", f"{op}: {counter}", w,
                  f"a returning path changes the counter {counter} as {[show(e.sig[2]) for e in incs]} instead of +1 once")
        oth = [e for e in evs if e.kind == "setattr" and e.sig[0] is sym("self") and e.sig[1] == other]
        rep.check(not oth, "counted-once", f"{op}: {other}", w, f"{op} must not change {other}")
        if len(recs) != 1:
            continue
        r = recs[0]
        args = list(r.sig[1]) + [None] * 6
        xo, x, val, sd = args[1], args[2], args[3], args[4]
        first = next((e for e in evs if self_write(e)), r)
        for ev, nm in ((r, "record"), (first, "first state write")):
            facts = ev.facts
            miss = missing_value_checks(facts, val)
            rep.check(not miss, "validated-before-record", f"{op}: value before {nm}", ev.where,
                      f"value {show(val)} reaches the {nm} without having passed: {', '.join(miss)}")
            noisy = noise_known(I, s, ev)
            if noisy is not False:
                miss = missing_sd_checks(I, facts, sd)
                rep.check(not miss, "validated-before-record", f"{op}: noise SD before {nm}", ev.where,
                          f"noise SD {show(sd)} reaches the {nm} without having passed: {', '.join(miss)}")
        if op == "__call__" and tcalls:
            tc = tcalls[0]
            rep.check(contains(val, lambda t: t is tc.sig[3]), "value-from-target", f"{op}: recorded value", r.where,
                      f"recorded value {show(val)} does not come from this call of the target")
            targ = tc.sig[1][1] if len(tc.sig[1]) > 1 else None
            rep.check(targ is not None and same_value(targ, xo), "same-point", f"{op}: evaluated vs recorded point", r.where,
                      f"target evaluated at {show(targ) if targ is not None else '?'} but {show(xo)} recorded")
            rep.check(not exc, "failure-leaves-log-unchanged", f"{op}: handler falls through to record", r.where,
                      "a path through an exception handler reaches the record")
            if not value_is_target_part(val, tc.sig[3], 0):
                rep.bad("value-from-target", f"{op}: value altered", r.where, f"recorded value {show(val)} is not the target's own result")
            else:
                rep.ok("value-from-target", f"{op}: value unaltered", r.where)
            if noise_known(I, s, r) is True:
                lv2 = level2_known(s, r)
                if lv2 is True:
                    rep.check(value_is_target_part(sd, tc.sig[3], 1), "value-from-target", f"{op}: SD from target", r.where,
                              f"recorded SD {show(sd)} is not the SD reported by the target")
        else:
            rep.check(value_is_target_part(val, sym("f_val_orig"), None), "value-from-target", f"{op}: supplied value", r.where,
                      f"recorded value {show(val)} is not the supplied value")
        # x_orig is inverse(x) when a transform is used, else x itself
        ok = (contains(xo, lambda t: t.k == "call" and t.a[0] == "ParameterTransformer.inverse") and contains(xo, lambda t: t is x)) \
            or same_value(xo, x)
        rep.check(ok, "same-point", f"{op}: both coordinates of one point", r.where,
                  f"recorded original-space point {show(xo)} does not correspond to transformed point {show(x)}")
        tr = r.facts.get(attr(sym("self"), "transform_parameters"))
        if tr is True:
            rep.check(not same_value(xo, x), "same-point", f"{op}: mapped to original space", r.where,
                      "with a parameter transform the point is used without inverse mapping")
    for s, v in raises:
        bad = [e for e in s.events if self_write(e) or (e.kind == "call" and e.sig[0] == "FunctionLogger._record")]
        rep.check(not bad, "failure-leaves-log-unchanged", f"{op}: raise path", (bad[0].where if bad else w),
                  "a path that ends by raising has already written log state")
    rep.at_least(f"returning paths of {op}", len(rets), 2)
    rep.at_least(f"raising paths of {op}", len(raises), 2)


def is_target_call(e):
    if e.kind != "call" or e.sig[0] != "?call":
        return False
    return e.sig[1][0] is attr(sym("self"), "fun")


def noise_known(I, s, ev):
    return ev.facts.get(attr(sym("self"), "noise_flag"))


def level2_known(s, ev):
    for t, v in ev.facts.items():
        if t.k == "cmp" and t.a[0] == "eq" and attr(sym("self"), "uncertainty_handling_level") in (t.a[1], t.a[2]) \
                and const(2) in (t.a[1], t.a[2]):
            return v
    return None


def peel(v):
    """wrappers that keep the value of a scalar"""
    while True:
        if v.k == "call" and v.a[0] in ("float", "np.float64", "np.item", "np.asarray", "np.squeeze", "np.array", "np.real_if_close", "np.ravel", "np.atleast_1d", "np.flatten", "np.copy", "np.reshape") and v.a[1]:
            v = v.a[1][0]
        elif v.k == "idx" and (v.a[1] in (const(0), const(()), mk("tup"), mk("tup", const(0), const(0)), mk("tup", const(0)))):
            v2 = v.a[0]
            if v2.k == "attr" and v2.a[1] == "flat":
                v2 = v2.a[0]
            v = v2
        else:
            return v


def value_is_target_part(v, tcall, i):
    if v.k == "phi":
        return all(value_is_target_part(x, tcall, i) for x in v.a[2])
    if v.k == "ite":
        return value_is_target_part(v.a[1], tcall, i) and value_is_target_part(v.a[2], tcall, i)
    # do not peel idx const(0) before comparing to tuple component
    seen = 0
    while seen < 12:
        if v is tcall:
            return i in (0, None)
        if i is not None and v is idx(tcall, const(i)):
            return True
        n = peel1(v)
        if n is v:
            return False
        v = n
        seen += 1
    return False


def peel1(v):
    if v.k == "call" and v.a[0] in ("float", "np.float64", "np.item", "np.asarray", "np.squeeze", "np.array", "np.ravel",
                                    "np.atleast_1d", "np.flatten", "np.copy", "np.reshape", "np.atleast_2d") and v.a[1]:
        return v.a[1][0]
    if v.k == "idx" and is_const(v.a[1]) and cval(v.a[1]) == 0 and v.a[0].k == "attr" and v.a[0].a[1] == "flat":
        return v.a[0].a[0]
    if v.k == "idx" and is_const(v.a[1]) and cval(v.a[1]) == 0 and v.a[0].k == "call" and v.a[0].a[0] in ("np.ravel", "np.atleast_1d", "np.flatten"):
        return v.a[0].a[1][0]
    return v


SCALAR = [lambda v: (call("np.isscalar", (v,)), True)]


def _f(facts, t, val):
    return facts.get(t) is val


def missing_value_checks(facts, v):
    cands = {v}
    x = v
    for _ in range(4):      # validated before a value-preserving conversion
        if x.k == "call" and x.a[0] in ("float", "np.float64") and x.a[1]:
            x = x.a[1][0]
            cands.add(x)
    miss = None
    for c in cands:
        m = []
        if not (_f(facts, call("np.isscalar", (c,)), True) or _f(facts, mk("cmp", "eq", call("np.size", (c,)), const(1)), True)
                or _f(facts, mk("cmp", "eq", call("np.ndim", (c,)), const(0)), True)):
            m.append("is a scalar")
        if not _finite(facts, c):
            m.append("is finite")
        if not (_f(facts, call("np.isreal", (c,)), True) or _f(facts, call("np.iscomplex", (c,)), False)
                or _f(facts, call("np.iscomplexobj", (c,)), False) or _f(facts, call("np.isrealobj", (c,)), True)):
            m.append("is real")
        if miss is None or len(m) < len(miss):
            miss = m
    return miss


def _finite(facts, c):
    for n in ("np.isfinite", "math.isfinite"):
        if _f(facts, call(n, (c,)), True):
            return True
        for t, v in facts.items():
            if v is True and t.k == "call" and t.a[0] == n and t.a[1] and t.a[1][0] is c:
                return True
    nan = any(_f(facts, call(n, (c,)), False) for n in ("np.isnan", "math.isnan"))
    inf = any(_f(facts, call(n, (c,)), False) for n in ("np.isinf", "math.isinf"))
    return nan and inf


def missing_sd_checks(I, facts, sd):
    if sd is NONE:
        return []
    if is_const(sd) and isinstance(cval(sd), (int, float)):
        return [] if cval(sd) > 0 else ["is positive"]
    if sd.k in ("ite", "phi"):
        alts = sd.a[1:] if sd.k == "ite" else sd.a[2]
        out = []
        if missing_sd_one(facts, sd):
            for a in alts:
                out += missing_sd_checks(I, facts, a)
        return out
    return missing_sd_one(facts, sd)


def missing_sd_one(facts, sd):
    m = missing_value_checks(facts, sd)
    pos = False
    for z in (const(0), const(0.0)):
        if _f(facts, mk("cmp", "le", sd, z), False) or _f(facts, mk("cmp", "lt", z, sd), True):
            pos = True
    return m + ([] if pos else ["is positive"])


# ------------------------------------------------------------------ whole program
TARGET_ATTRS = {"fun", "log_joint", "log_likelihood", "log_density"}


def who_may_call(p, rep):
    n = 0
    evs, Is = program_events(p, "calls", lambda: Config(track_call=lambda n: n == "?call", cap=4000))
    rep.functions |= Is
    for f, e, I in evs:
        callee = e.sig[1][0]
        if callee.k == "attr" and callee.a[1] in TARGET_ATTRS:
            c = I.cls_of(callee.a[0])
            if callee.a[1] == "fun" and c != "FunctionLogger":
                continue
            n += 1
            q = f.qual
            ok = callee.a[1] == "fun" and (q == "FunctionLogger.__call__" or only_called_from(p, f, {"FunctionLogger.__call__"}))
            rep.check(ok, "who-may-call", f"{q}: .{callee.a[1]}(...)", e.where, "the target is invoked outside the evaluation log")
    for f in p.all_func_nodes():
        names = target_names(f)
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in TARGET_ATTRS and isinstance(node.ctx, ast.Load):
                if node.attr == "fun" and not is_logger_expr(node.value, f):
                    continue
                par = parent_map(f)[node]
                if isinstance(par, ast.Call) and par.func is node:
                    continue
                # the callable is passed on or bound: it must only go to the evaluation log
                if not allowed_pass(f, par, node):
                    rep.bad("who-may-call", f"{f.qual}: passes .{node.attr}", f"{f.mod.rel}:{node.lineno}",
                            "the target callable escapes to code other than the evaluation log")
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in names:
                n += 1
                rep.check(f.qual in ("VBMC._init_log_joint",) or only_called_from(p, f, {"VBMC._init_log_joint"}),
                          "who-may-call", f"{f.qual}: {node.func.id}(...)",
                          f"{f.mod.rel}:{node.lineno}", "the target is invoked outside the log-joint construction")
    rep.at_least("target invocation sites", n, 1)


def target_names(f):
    """names that hold the target in a function: the documented parameter names and locals bound to one of them"""
    out = {"log_likelihood", "log_density", "log_joint"}
    binds = [(t.id, x.value.id) for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) for t in x.targets if isinstance(t, ast.Name)]
    for _ in range(len(binds)):
        out |= {a for a, b in binds if b in out}
    return out


def allowed_pass(f, par, node):
    if isinstance(par, ast.keyword):
        return par.arg == "fun"
    if isinstance(par, ast.Call):
        n = par.func.id if isinstance(par.func, ast.Name) else getattr(par.func, "attr", "")
        return n in ("str", "FunctionLogger", "repr", "getattr", "setattr", "callable", "full_repr", "format")
    if isinstance(par, ast.Assign):
        # storing on an attribute of the same family (self.log_joint = ...), or a local whose every use is allowed
        for t in par.targets:
            if isinstance(t, ast.Name):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load):
                        q = parent_map(f)[x]
                        if not (isinstance(q, ast.Call) and q.func is x) and (isinstance(q, ast.Assign) and any(isinstance(y, ast.Name) for y in q.targets) or not allowed_pass(f, q, x)):
                            return False
            elif not isinstance(t, ast.Attribute):
                return False
        return True
    return True


def who_may_write(p, rep):
    n = 0
    for f in p.all_func_nodes():
        if f.cls is not None and f.cls.name == "FunctionLogger":
            continue
        for base, name, node in attr_writes(f):
            if name in LOG_STATE and is_logger_expr(base, f):
                n += 1
                ok = (f.qual, name) in ALLOWED_WRITES or any(
                    only_called_from(p, f, {q}) for (q, nm) in ALLOWED_WRITES if nm == name)
                rep.check(ok, "who-may-write", f"{f.qual}: {name}", f"{f.mod.rel}:{node.lineno}",
                          f"{f.qual} writes evaluation-log state '{name}' directly")
    rep.at_least("writes to log state outside the log", n, 2)
    # inside the class: counters are changed only by the two operations
    for f in p.cls("FunctionLogger").methods.values():
        for base, name, node in attr_writes(f):
            if name in ("func_count", "cache_count") and isinstance(base, ast.Name) and base.id == "self":
                want = {"func_count": "__call__", "cache_count": "add"}[name]
                ok = f.name in (want, "__init__") or only_called_from(p, f, {"FunctionLogger." + want, "FunctionLogger.__init__"}) \
                    or (f.qual not in BASELINE and f.name not in ("finalize", "_record", "_expand_arrays"))
                rep.check(ok, "who-may-write", f"{f.qual}: {name}", f"{f.mod.rel}:{node.lineno}",
                          f"{name} is changed outside of {want}")


def callers(p, rep):
    """_record is reached only through the two validating operations."""
    for f in p.all_func_nodes():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "_record":
                ok = f.qual in ("FunctionLogger.__call__", "FunctionLogger.add") or only_called_from(
                    p, f, {"FunctionLogger.__call__", "FunctionLogger.add"})
                rep.check(ok, "who-may-write", f"{f.qual}: _record(...)", f"{f.mod.rel}:{node.lineno}",
                          "a row is recorded without passing through the validating operations")
