"""C08: the returned posterior and the reported results describe the same solution."""
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm

EXPLANATION = (
    "Extraction of what is selected, boosted, returned, recorded and reported: every reported quantity is traced to the object or "
    "iteration record it is read from, and those origins are compared: one selected index, one posterior, its own statistics. The statistics "
    "themselves are traced from the final variational optimization back to the evaluation of the returned parameters.")

SELF = sym("self")
BEST, BOOST, RES = "VBMC.determine_best_vp", "VBMC.final_boost", "VBMC._create_result_dict"
OPT = "variational_optimization.optimize_vp"
EVAL = "variational_optimization._eval_full_elcbo"
NEG = "variational_optimization._neg_elcbo"
HIST = attr(SELF, "iteration_history")


def deref(t, memo=None):
    """a possibly modified location read as the plain access path"""
    from engine.terms import rewrite

    def f(x):
        if x.k == "havoc" and len(x.a) > 2 and isinstance(x.a[2], T) and isinstance(x.a[1], str):
            n = x.a[1]
            return idx(x.a[2], const(n[1:-1])) if n.startswith("[") else attr(x.a[2], n)
        if x.k == "loop" and len(x.a) > 2 and isinstance(x.a[2], T):
            return attr(x.a[2], x.a[1])
        return None
    return rewrite(t, f, memo)


def plain(t):
    return strip(deref(t))


def uncopy(t):
    t = plain(t)
    while t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
        t = t.a[1][0]
    return t


def alts(t):
    """alternatives of a joined value"""
    t = uncopy(t)
    if t.k == "ite":
        return alts(t.a[1]) + alts(t.a[2])
    if t.k == "phi":
        return [y for x in t.a[2] for y in alts(x)]
    return [t]


def stat(vp, n):
    return idx(attr(vp, "stats"), const(n))


def hist(n, i):
    return idx(idx(HIST, const(n)), i)


def part(t, fn):
    """(call, element) if t is an element of the tuple returned by fn"""
    if t.k == "idx" and is_const(t.a[1]) and t.a[0].k == "call" and t.a[0].a[0] == fn:
        return t.a[0], cval(t.a[1])
    return None


def scalar(t):
    while t.k == "call" and t.a[0] in ("float", "int", "bool", "np.copy", "np.asarray", "np.array", "np.bool_", "np.float64", "copy.copy", "copy.deepcopy", "np.item") and t.a[1]:
        t = t.a[1][0]
    return t


def run(p, rep):
    rep.rule("returned", "a run returns an independent copy of the selected, possibly boosted posterior")
    rep.rule("same", "selection, boosting and reporting use the one selected iteration, its posterior and its surrogate")
    rep.rule("result", "each reported quantity is read from the returned posterior, the selected iteration or the run's counters")
    rep.rule("success", "the success flag is the stability of the returned solution")
    rep.rule("boost", "boosting returns the posterior it optimized with that posterior's statistics, keeps the stability flag, and says whether it changed anything")
    rep.rule("recorded", "the ELBO and SD recorded for an iteration are those of the posterior recorded for it")
    rep.rule("stats", "a posterior's statistics are those of the evaluation of its own parameters")
    final(p, rep)
    results(p, rep)
    boost(p, rep)
    recorded(p, rep)
    optimizer(p, rep)
    evaluation(p, rep)


def final(p, rep):
    f = p.func("VBMC.optimize")
    if f is None:
        rep.bad("returned", "run", "vbmc.py", "there is no run method")
        return
    I = Interp(p, Config(collect=True, opaque=(BEST, BOOST, RES), track_call=lambda n: n in (BEST, BOOST, RES),
                         track_store=lambda b, n: n == "vp"))
    outs = [(s, v) for s, c, v in I.run(f) if c == "return"]
    rep.used(I)
    n = 0
    for s, v in outs:
        if v.k != "tup" or len(v.a) != 2:
            rep.bad("returned", "returned pair", f.where, f"a run returns {show(v)[:80]} instead of (posterior, results)")
            continue
        n += 1
        V, R = v.a
        rep.check(all(fresh(x) for x in branches(V)), "returned", "independent copy", f.where,
                  "the returned posterior is not an independent copy of the object's own")
        A = alts(V)
        origins = [(part(x, BEST), part(x, BOOST), x) for x in A]
        for b, o, x in origins:
            if b:
                rep.check(b[1] == 0, "returned", "selected posterior", f.where, f"element {b[1]} of the selection is returned")
            elif o:
                rep.check(o[1] == 0, "returned", "boosted posterior", f.where, f"element {o[1]} of the boost is returned")
            else:
                rep.bad("returned", "origin of the returned posterior", f.where, f"the returned posterior is {show(x)[:150]}, not the selected or boosted one")
        best = {b[0] for b, o, x in origins if b}
        rc = [(plain(R), R)] if R.k == "call" else []
        calls = [e for e in I.log if e.kind == "call" and e.sig[0] == RES]
        if not calls:
            rep.bad("result", "results", f.where, "no results are assembled")
            continue
        for e in calls:
            ar = {k: plain(x) for k, x in bind(p, RES, e.sig[1], e.sig[2]).items()}
            i = ar.get("idx_best")
            z = part(i, BEST) if i is not None else None
            if i is not None:
                rep.check(bool(z) and z[1] == 3, "same", "reported iteration", e.where, f"the results are assembled for iteration {show(i)[:100]}, not the selected one")
            if z and best:
                rep.check(z[0] in best, "same", "one selection", e.where, "results and posterior come from different selections")
            success(rep, e, ar.get("success_flag"), A, z, V, p)
            cur = stale(I.log, e)
            if cur is not None:
                rep.bad("same", "results before the final posterior", cur.where, "the object's posterior is replaced after the results were assembled")
        if calls and not (R.k == "call" and R.a[0] == RES) and not (R.k in ("upd", "ite", "phi", "havoc")):
            rep.bad("result", "returned results", f.where, f"the run returns {show(R)[:100]} as results")
        for e in I.log:
            if e.kind == "call" and e.sig[0] == BOOST:
                ar = bind(p, BOOST, e.sig[1], e.sig[2])
                vp, gp = (alts(ar[k]) if k in ar else [] for k in ("vp", "gp"))
                for x in vp:
                    b = part(x, BEST)
                    rep.check(bool(b) and b[1] == 0, "same", "boosted posterior is the selected one", e.where, f"the boost starts from {show(x)[:120]}")
                    if b:
                        best.add(b[0])
                for g in gp:
                    ok = g.k == "idx" and g.a[0] is idx(HIST, const("gp")) and part(g.a[1], BEST) and part(g.a[1], BEST)[1] == 3 and part(g.a[1], BEST)[0] in (best or {part(g.a[1], BEST)[0]})
                    rep.check(bool(ok), "same", "boost uses the selected iteration's surrogate", e.where, f"the boost uses the surrogate {show(g)[:120]}")
    rep.at_least("returns of a run", n, 1)


def branches(t):
    if t.k == "ite":
        return branches(t.a[1]) + branches(t.a[2])
    if t.k == "phi":
        return [y for x in t.a[2] for y in branches(x)]
    return [t]


def stale(log, e):
    """a later replacement of self.vp in the same function after the event, or None"""
    seen = False
    for x in log:
        if x is e:
            seen = True
        elif seen and x.kind == "setattr" and x.sig[1] == "vp" and x.sig[0] is SELF and not x.loops:
            return x
    return None


def success(rep, e, t, A, z, V, p):
    if t is None:
        return
    t = scalar(t)
    pos = True
    for _ in range(12):
        if t.k == "ite" and {t.a[1], t.a[2]} == {TRUE, FALSE}:
            pos ^= t.a[1] is FALSE
            t = scalar(t.a[0])
        elif t.k in ("not", "inv"):
            pos = not pos
            t = scalar(t.a[0])
        elif t.k == "cmp" and t.a[0] in ("eq", "is") and (TRUE in t.a[1:] or FALSE in t.a[1:]):
            b = TRUE if TRUE in t.a[1:] else FALSE
            pos ^= b is FALSE
            t = scalar(t.a[1] if t.a[2] is b else t.a[2])
        else:
            break
    if not pos and t not in (TRUE, FALSE):
        rep.bad("success", "success flag", e.where, "the success flag is the opposite of the solution's stability")
        return
    if t in (TRUE, FALSE):
        rep.bad("success", "success flag", e.where, "the success flag does not depend on the solution")
        return
    ok = False
    if t.k == "idx" and is_const(t.a[1]) and cval(t.a[1]) == "stable" and t.a[0].k == "attr" and t.a[0].a[1] == "stats":
        src = alts(t.a[0].a[0])
        ok = set(src) <= set(A)
        why = f"the success flag is the stability of {show(t.a[0].a[0])[:100]}, not of the returned posterior"
    elif t.k == "idx" and t.a[0] is idx(HIST, const("stable")):
        ok = z is not None and t.a[1] is idx(z[0], const(3))
        why = "the success flag is the stability of another iteration"
    elif t.k == "idx" and is_const(t.a[1]) and t.a[0].k in ("attr", "idx", "call", "ite") and contains(t, lambda x: x.k == "attr" and x.a[1] in ("stats", "iteration_history")):
        why = f"the success flag is read from {show(t)[:120]}"
    else:
        rep.notes.append("success flag of unrecognised form " + show(t)[:100])
        return
    rep.check(ok, "success", "success flag", e.where, why)


def results(p, rep):
    f = p.func(RES)
    if f is None:
        rep.bad("result", "results", "vbmc.py", "results are not assembled")
        return
    I = Interp(p, Config(path_sensitive=True, track_store=lambda b, n: True))
    vp, i, st = attr(SELF, "vp"), sym("idx_best"), attr(SELF, "optim_state")
    fl = attr(SELF, "function_logger")
    N = Norm()
    it = mk("add", idx(st, const("iter")), const(1))
    it2 = mk("add", attr(SELF, "iteration"), const(1))
    want = {
        "best_iter": [i], "train_set_size": [hist("n_eff", i)], "components": [attr(vp, "K")], "r_index": [hist("r_index", i)],
        "elbo": [stat(vp, "elbo")], "elbo_sd": [stat(vp, "elbo_sd")], "func_count": [attr(fl, "func_count")],
        "iterations": [it, it2, call("len", [idx(HIST, const("iter"))])],
        "success_flag": [sym("success_flag")], "message": [sym("termination_message")],
    }
    n = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        n += 1
        d = dict_entries(s, v)
        for k, ws in want.items():
            if k not in d:
                rep.bad("result", k, f.where, f"the results do not report {k}")
                continue
            got = scalar(plain(d[k]))
            rep.check(any(got is w or N.n(got) is N.n(strip(w)) for w in ws), "result", k, f.where,
                      f"{k} is reported as {show(got)[:120]} instead of {show(ws[0])}")
        cs = d.get("convergence_status")
        stable = [t for t in (hist("stable", i), stat(vp, "stable"))]
        if cs is None:
            rep.bad("result", "convergence_status", f.where, "the results do not report convergence_status")
        else:
            truth = None
            for t, b in s.facts.items():
                u = scalar(plain(t))
                if u in stable:
                    truth = b
                elif u.k == "cmp" and u.a[0] in ("eq", "is") and TRUE in u.a and any(x in stable for x in u.a if isinstance(x, T)):
                    truth = b
            src = None
            if cs.k == "ite":
                src = scalar(plain(cs.a[0]))
                if src in stable and is_const(cs.a[1]):
                    rep.check(cval(cs.a[1]) == "probable" and cval(cs.a[2]) == "no", "result", "convergence_status", f.where,
                              "the convergence status contradicts the stability of the selected iteration")
                    continue
            if truth is None and is_const(cs):
                rep.bad("result", "convergence_status", f.where, "the convergence status is not decided by the stability of the selected iteration")
            elif is_const(cs):
                rep.check((cval(cs) == "probable") == truth, "result", "convergence_status", f.where,
                          f"the convergence status of a{' stable' if truth else 'n unstable'} solution is {cval(cs)!r}")
        pt = d.get("problem_type")
        if pt is not None and is_const(pt):
            tr = [x for t in s.facts for x in subterms(t) if x.k == "idx" and is_const(x.a[1]) and cval(x.a[1]) in ("lb_tran", "ub_tran")]
            rep.check(not tr, "result", "problem_type", f.where, "the problem type is decided by the transformed bounds, which are always infinite")
    rep.at_least("result paths", n, 1)


def boost(p, rep):
    f = p.func(BOOST)
    if f is None:
        return
    I = Interp(p, Config(path_sensitive=True, opaque=(OPT,), track_call=lambda n: n == OPT, track_store=lambda b, n: isinstance(n, T) and n is const("stable") or n == "stats"))
    n = 0
    vp0 = sym("vp")
    for s, c, v in I.run(f):
        if c != "return" or v.k != "tup":
            continue
        if len(v.a) != 4:
            rep.bad("boost", "returned tuple", f.where, f"{len(v.a)} values are returned instead of four")
            continue
        n += 1
        R, E, D, flag = v.a
        called = [e for e in s.events if e.kind == "call" and e.sig[0] == OPT]
        fl = scalar(plain(flag))
        if is_const(fl):
            rep.check(bool(cval(fl)) == bool(called), "boost", "changed flag", f.where,
                      "the boost reports " + ("no change after optimizing" if called else "a change without optimizing"))
        r = uncopy(R)
        if called:
            ar = bind(p, OPT, called[-1].sig[1], called[-1].sig[2])
            z = part(r, OPT)
            rep.check(bool(z) and z[1] == 0, "boost", "returned posterior", f.where, f"the boost returns {show(r)[:100]}")
            if "vp" in ar:
                rep.check(uncopy(ar["vp"]) is vp0, "boost", "boosted posterior", called[-1].where, f"the boost optimizes {show(uncopy(ar['vp']))[:100]}")
            if "gp" in ar:
                rep.check(uncopy(ar["gp"]) is sym("gp"), "boost", "surrogate", called[-1].where, f"the boost uses {show(uncopy(ar['gp']))[:100]}")
            stores = [e for e in s.events if e.kind == "setidx" and e.sig[1] is const("stable")]
            ok = False
            for e in stores:
                b = plain(e.sig[0])
                if b is attr(r, "stats") or uncopy(b.a[0] if b.k == "attr" else b) is r:
                    w = scalar(plain(e.sig[2]))
                    w = w.a[0].a[0] if w.k == "idx" and w.a[0].k == "attr" else w
                    src = uncopy(w)
                    ok = src is vp0 or contains(src, lambda x: x is vp0) and not contains(src, lambda x: x.k == "call" and x.a[0] == OPT)
                    if is_const(scalar(plain(e.sig[2]))):
                        ok = False
            rep.check(ok, "boost", "stability is kept", f.where, "the boosted posterior does not keep the stability of the solution it was boosted from")
        else:
            rep.check(r is vp0, "boost", "unboosted posterior", f.where, f"without boosting, {show(r)[:100]} is returned")
        for k, t in (("elbo", E), ("elbo_sd", D)):
            got = scalar(plain(t))
            if got.k == "idx" and got.a[0].k == "attr" and got.a[0].a[1] == "stats":
                rep.check(got.a[1] is const(k) and uncopy(got.a[0].a[0]) is r, "boost", k, f.where,
                          f"the {k} returned is {show(got)[:100]}, not that of the returned posterior")
            else:
                rep.bad("boost", k, f.where, f"the {k} returned is {show(got)[:100]}, not that of the returned posterior")
    rep.at_least("boost paths", n, 2)


def recorded(p, rep):
    n = 0
    for f, I, log in sweep(p):
        if part_of_caller(p, f):
            continue
        for e in log:
            if e.kind == "call" and e.sig[0] == "IterationHistory.record_iteration":
                ar = bind(p, e.sig[0], e.sig[1], e.sig[2])
                d = next((x for x in ar.values() if x.k == "dct"), None)
                if d is None:
                    continue
                kv = {cval(k): plain(v) for k, v in d.a if is_const(k)}
                if "vp" not in kv:
                    continue
                for k in ("elbo", "elbo_sd"):
                    if k in kv:
                        n += 1
                        rep.check(scalar(kv[k]) is stat(kv["vp"], k), "recorded", k, e.where,
                                  f"the recorded {k} is {show(kv[k])[:120]}, not that of the recorded posterior")
    rep.count("recorded statistics", n)


ENTRY = {"elbo": ("nelbo", "neg"), "elbo_sd": ("varF", "sqrt"), "e_log_joint": ("G", "id"), "e_log_joint_sd": ("varG", "sqrt"),
         "entropy": ("H", "id"), "entropy_sd": ("varH", "sqrt"), "I_sk": ("I_sk", "any"), "J_sjk": ("J_sjk", "any")}


def cases(t, path=()):
    """{decisions: value}: the alternatives of a joined value with the decisions (branch conditions, loop exits) leading to each"""
    if t.k == "ite":
        out = cases(t.a[1], path + ((t.a[0], True),))
        out.update(cases(t.a[2], path + ((t.a[0], False),)))
        return out
    if t.k == "phi":
        out = {}
        for i, x in enumerate(t.a[2]):
            out.update(cases(x, path + ((t.a[0], i),)))
        return out
    if t.k == "neg":
        return {k: mk("neg", v) for k, v in cases(t.a[0], path).items()}
    if t.k == "call" and t.a[0] in ("np.sqrt", "math.sqrt") and len(t.a[1]) == 1:
        return {k: mk("call", t.a[0], (v,), t.a[2], t.a[3]) for k, v in cases(t.a[1][0], path).items()}
    return {path: t}


def kept(t):
    """value carried over unchanged from the previous loop iteration"""
    return any(x.k == "loop" for x in [t] + [t.a[0]] * (t.k in ("neg", "attr")) + (list(t.a[1]) if t.k == "call" and len(t.a[1]) == 1 else []))


def reading(t):
    """(table, entry, row, how) of a statistic read from the table of evaluations"""
    how = "id"
    t = strip(deref(t))
    if t.k == "neg":
        t, how = t.a[0], "neg"
    elif t.k == "mul" and const(-1) in t.a and len(t.a) == 2:
        t, how = (t.a[0] if t.a[1] is const(-1) else t.a[1]), "neg"
    elif t.k == "call" and t.a[0] in ("np.sqrt", "math.sqrt"):
        t, how = t.a[1][0], "sqrt"
    elif t.k == "bin" and t.a[0] == "**" and t.a[2] is const(0.5):
        t, how = t.a[1], "sqrt"
    t = scalar(t)
    if t.k == "idx":
        row = t.a[1]
        if row.k == "tup" and row.a:
            row = row.a[0]
        b = t.a[0]
        if b.k == "idx" and is_const(b.a[1]) and isinstance(cval(b.a[1]), str):
            return b.a[0], cval(b.a[1]), row, how
    return None


def optimizer(p, rep):
    f = p.func(OPT)
    if f is None:
        return
    I = Interp(p, Config(collect=True, opaque=(EVAL,), track_store=lambda b, n: n == "stats" or isinstance(n, T) and is_const(n) and cval(n) in ENTRY,
                         track_call=lambda n: n == EVAL or n.endswith(".set_parameters")))
    outs = [(s, v) for s, c, v in I.run(f) if c == "return"]
    rep.used(I)
    for s, v in outs:
        if v.k != "tup" or not v.a:
            continue
        V = v.a[0]
        got = {}
        for e in I.log:
            if e.kind == "setidx" and is_const(e.sig[1]) and cval(e.sig[1]) in ENTRY:
                got[cval(e.sig[1])] = e
            elif e.kind == "setattr" and e.sig[1] == "stats" and e.sig[2].k == "dct":
                for k, x in e.sig[2].a:
                    if is_const(k) and cval(k) in ENTRY:
                        got[cval(k)] = (e, x)
        vc = cases(V)
        for k, (entry, how) in ENTRY.items():
            if k not in got:
                if k in ("elbo", "elbo_sd"):
                    rep.bad("stats", k, f.where, f"the optimized posterior has no {k} set")
                continue
            g = got[k]
            e, t = (g, g.sig[2]) if not isinstance(g, tuple) else g
            ec = cases(t)
            for path, x in ec.items():
                if kept(x):
                    if path in vc and not (vc[path].k == "loop"):
                        rep.bad("stats", f"{k} after pruning", e.where, f"the {k} is not updated when a component is pruned")
                    continue
                if k in ("I_sk", "J_sjk"):
                    continue
                v = vc.get(path)
                if v is None and len(ec) == 1 and len(vc) > 1:
                    rep.bad("stats", f"{k} after pruning", e.where, f"the {k} is not updated when a component is pruned")
                    break
                if v is None:
                    longer = [q for q in vc if q[:len(path)] == path]
                    if longer:
                        rep.bad("stats", f"{k} replaced together with the posterior", e.where, f"the posterior is replaced under another condition than its {k}")
                    continue
                if v.k == "loop":
                    rep.bad("stats", f"{k} replaced together with the posterior", e.where, f"the {k} is replaced although the posterior is kept")
                    continue
                r = reading(x)
                if not r:
                    continue
                tb = r[0]
                ev = evaluated(tb)
                when = "pruned" if uncopy1(v).k == "loop" else "selected"
                row(rep, k, r, entry, how, e, None, when)
                if when == "selected":
                    best_row(rep, r, v, I, e, k)
                elif ev is not None:
                    ar = bind(p, EVAL, ev.a[1], ev.a[2])
                    same = "vp" in ar and uncopy(ar["vp"]) is uncopy(v)
                    rep.check(same and strip(ar["vp"]) is strip(v) and ("idx" not in ar or ar["idx"] is r[2]), "stats", f"{k} after pruning", e.where,
                              "the statistics taken over after pruning are not those of the pruned posterior")
                    th = strip(deref(ar["theta"])) if "theta" in ar else None
                    if th is not None and th.k == "call" and th.a[0].endswith(".get_parameters"):
                        rep.check(strip(deref(th.a[1][0])) is strip(deref(v)), "stats", "pruned parameters evaluated", e.where,
                                  "the statistics after pruning are evaluated at other parameters")
    rep.count("statistics of the optimized posterior", len(got))


def uncopy1(t):
    while t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
        t = t.a[1][0]
    return t


def evaluated(tb):
    while tb.k in ("havoc", "upd"):
        tb = tb.a[2] if tb.k == "havoc" and len(tb.a) > 2 else tb.a[0]
        if not isinstance(tb, T):
            return None
    return tb if tb.k == "call" and tb.a[0] == EVAL else None


def row(rep, k, r, entry, how, e, wrap, when="selected"):
    h = r[3]
    if wrap == "sqrt":
        h = "sqrt" if h == "id" else "sqrt " + h
    ok = r[1] == entry and (how == "any" or h == how)
    rep.check(ok, "stats", f"{k} ({when})", e.where, f"the {k} of the {when} posterior is {h} of entry '{r[1]}' instead of {how} of '{entry}'")


def best_row(rep, r0, V0, I, e, k):
    """the row is the argmin of the lower-confidence criterion, of the same posterior and parameters"""
    i = r0[2]
    if i.k == "call" and i.a[0] in ("np.argmin", "np.argmax", "np.nanargmin") and i.a[1]:
        b = i.a[1][0]
        nm = cval(b.a[1]) if b.k == "idx" and is_const(b.a[1]) else None
        if nm is not None:
            rep.check(nm == "nelcbo" and "argmin" in i.a[0], "stats", "selected optimization", e.where,
                      f"the selected optimization is the {i.a[0][3:]} of '{nm}', not the one with the best penalized ELBO")
    v = strip(deref(V0))
    v = v if v.k != "call" or v.a[0] not in ("copy.deepcopy", "copy.copy") else v.a[1][0]
    if v.k == "idx":
        rep.check(v.a[1] is i, "stats", f"{k} of the selected posterior", e.where, "posterior and statistics come from different optimizations")
    for x in I.log:
        if x.kind == "call" and x.sig[0].endswith(".set_parameters") and not x.loops and x.func == OPT:
            a = x.sig[1]
            if len(a) > 1:
                z = reading(a[1])
                if z and z[1] == "theta":
                    rep.check(z[2] is i, "stats", "parameters of the selected posterior", x.where, "parameters and statistics come from different optimizations")
                elif z:
                    rep.bad("stats", "parameters of the selected posterior", x.where, f"the parameters are set from entry '{z[1]}'")


OUT = {"nelbo": 0, "G": 2, "H": 3, "varF": 4, "varG": 7, "varH": 8, "var_ss": 6, "I_sk": 9, "J_sjk": 10}


def evaluation(p, rep):
    f = p.func(EVAL)
    g = p.func(NEG)
    if f is None or g is None:
        return
    I = Interp(p, Config(path_sensitive=True, opaque=(NEG,), track_store=lambda b, n: True))
    N = Norm()
    for s, c, v in I.run(f):
        if c != "return":
            continue
        for e in s.events:
            if e.kind != "setidx":
                continue
            b = strip(e.sig[0])
            if not (b.k == "idx" and is_const(b.a[1]) and b.a[0] is sym("elbo_stats")):
                continue
            name = cval(b.a[1])
            r = e.sig[1].a[0] if e.sig[1].k == "tup" and e.sig[1].a else e.sig[1]
            rep.check(strip(r) is sym("idx"), "stats", f"row of '{name}'", e.where, f"'{name}' is stored in row {show(r)[:60]}")
            t = strip(e.sig[2])
            z = part(t, NEG)
            if name in OUT and z:
                rep.check(z[1] == OUT[name], "stats", f"evaluated '{name}'", e.where, f"'{name}' is set to output {z[1]} of the evaluation instead of {OUT[name]}")
                ar = bind(p, NEG, z[0].a[1], z[0].a[2])
                for k, w in (("theta", sym("theta")), ("vp", sym("vp")), ("gp", sym("gp"))):
                    if k in ar:
                        rep.check(uncopy(ar[k]) is w, "stats", f"evaluation at the given {k}", e.where, f"the evaluation uses {show(ar[k])[:60]}")
                b0 = ar.get("beta")
                if b0 is not None:
                    rep.check(is_const(b0) and cval(b0) == 0, "stats", "the ELBO is evaluated without penalty", e.where, f"the ELBO contains a penalty {show(b0)[:40]}")
                bd = ar.get("theta_bnd") or default_of(p, NEG, "theta_bnd")
                rep.check(bd is None or bd is NONE, "stats", "the ELBO is evaluated without bound penalties", e.where, "the ELBO contains penalties for parameter bounds")
            elif name == "theta":
                rep.check(uncopy(e.sig[2]) is sym("theta"), "stats", "evaluated 'theta'", e.where, "the stored parameters are not the evaluated ones")
            elif name == "nelcbo":
                calls = [x for x in subterms(t) if x.k == "call" and x.a[0] == NEG]
                if calls:
                    w = mk("add", idx(calls[0], const(0)), mk("mul", sym("beta"), call("np.sqrt", [idx(calls[0], const(4))])))
                    rep.check(N.n(t) is N.n(w), "stats", "penalized ELBO", e.where, f"the penalized ELBO is {show(t)[:120]}")
    J = Interp(p, Config(path_sensitive=True))
    n = 0
    for s, c, v in J.run(g):
        if c != "return" or v.k != "tup" or len(v.a) < 5:
            continue
        F, G, H = (N.n(strip(v.a[i])) for i in (0, 2, 3))
        bnd = s.facts.get(mk("cmp", "is", sym("theta_bnd"), NONE))
        pure = bnd is True and s.facts.get(mk("cmp", "eq", sym("beta"), const(0))) is not False and not contains(v.a[0], lambda x: x is sym("beta"))
        if pure:
            n += 1
            w = mk("add", mk("neg", strip(v.a[2])), mk("neg", strip(v.a[3])))
            rep.check(N.n(strip(v.a[0])) is N.n(w), "stats", "ELBO is expected log-joint plus entropy", g.where,
                      f"the negative ELBO returned is {show(v.a[0])[:120]}")
            if len(v.a) == 11:
                vf = mk("add", strip(v.a[7]), strip(v.a[8]))
                a, b = N.n(strip(v.a[4])), N.n(vf)
                rep.check(a is b or is_const(v.a[4]) and cval(v.a[4]) == 0, "stats", "ELBO variance is the sum of its parts", g.where, f"the ELBO variance is {show(v.a[4])[:100]}")
    rep.count("ELBO paths", n)
