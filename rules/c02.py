"""C02: the evaluation log's columns stay aligned."""
import ast
from engine.absint import Config, Interp
from engine.program import AnalysisBroken
from engine.terms import *
from engine.lib import *

EXPLANATION = (
    "Abstract interpretation of the evaluation log's constructor, growth, trim and row-write operations over all paths: the set of "
    "columns is discovered from the constructor and each operation must treat the whole set alike; an alias analysis shows that the "
    "original-space values are never updated through a view.")
S = sym("self")
ALLOCF = {"np.full", "np.zeros", "np.ones", "np.empty"}
KNOWN = {"X_orig", "y_orig", "X", "y", "n_evals", "S", "X_flag", "fun_eval_time"}


def shape0(t):
    """row count term of an allocation call"""
    sh = t.a[1][0] if t.a[1] else dict(t.a[2]).get("shape")
    if sh is None:
        return None
    return sh.a[0] if sh.k in ("tup", "lst") and sh.a else sh


def fill_of(t):
    if t.a[0] == "np.full":
        kw = dict(t.a[2])
        return t.a[1][1] if len(t.a[1]) > 1 else kw.get("fill_value")
    return {"np.zeros": const(0), "np.ones": const(1)}.get(t.a[0])


def noise(facts):
    for t in (sym("noise_flag"), self_attr("noise_flag")):
        if t in facts:
            return facts[t]
    return None


def run(p, rep):
    rep.rule("same-columns", "constructor, growth and trim treat the same set of columns (the SD column iff the target is noisy)")
    rep.rule("same-rows", "each operation gives every column the same number of rows")
    rep.rule("inactive-default", "unused rows are inactive and have zero evaluations")
    rep.rule("row-write", "a new point fills every column at the one new row, after capacity is ensured")
    rep.rule("duplicate-write", "re-evaluating a known point writes that row only, keeps its coordinates and increments its count by one")
    rep.rule("corrected-value", "transformed value = original value + log-Jacobian at the row's transformed point; the original value has no correction")
    rep.rule("no-view-update", "no original-space column is modified in place through a local view")
    rep.rule("warp-rows", "re-parameterization rewrites transformed points and values for the same active rows, from the original ones")
    cols = ctor(p, rep)
    grow(p, rep, cols)
    trim(p, rep, cols)
    record(p, rep, cols)
    views(p, rep)
    warp(p, rep)


def ctor(p, rep):
    f = p.func("FunctionLogger.__init__")
    I = Interp(p, Config(path_sensitive=True))
    cols = {True: {}, False: {}}
    both = {}
    for s, c, v in I.run(f):
        if c != "return":
            continue
        got = {}
        for path, val in s.store.items():
            if path.k == "attr" and path.a[0] is S and val.k == "call" and val.a[0] in ALLOCF:
                r = shape0(val)
                if r is not None and contains(r, lambda t: t is sym("cache_size")):
                    got[path.a[1]] = (r, fill_of(val))
        n = noise(s.facts)
        for nn in ((n,) if n is not None else (True, False)):
            cols[nn].update(got)
            both[nn] = both.get(nn, set(got)) & set(got)
    rep.used(I)
    for nn in (True, False):
        for c, (r, fill) in cols[nn].items():
            rep.check(c in both.get(nn, ()), "same-columns", f"create {c}", f.where, f"column {c} is not created on every path")
            rep.check(strip(r) is sym("cache_size"), "same-rows", f"create {c}", f.where, f"column {c} created with {show(r)} rows, not the cache size")
            if c == "X_flag":
                rep.check(fill is not None and is_const(fill) and not cval(fill), "inactive-default", "create X_flag", f.where, "unused rows start active")
            if c == "n_evals":
                rep.check(fill is not None and is_const(fill) and cval(fill) == 0, "inactive-default", "create n_evals", f.where, "unused rows start with evaluations")
    want = {True: KNOWN, False: KNOWN - {"S"}}
    for nn in (True, False):
        for c in want[nn]:
            if not rep.check(c in cols[nn], "same-columns", f"create {c}" + ("" if nn else " (noiseless)"), f.where,
                             f"column {c} is not created with the cache size" + (" for noisy targets" if c == "S" else "")):
                cols[nn][c] = (sym("cache_size"), None)
    rep.at_least("columns", len(cols[True]), 5)
    return {nn: set(cols[nn]) for nn in (True, False)}


def appended(val, col):
    """row-count term appended to column col, or None"""
    old = self_attr(col)
    if val.k != "call":
        return None
    n, a, kw = val.a[0], val.a[1], dict(val.a[2])
    parts = None
    if n == "np.append" and len(a) >= 2:
        parts = a[:2]
        ax = a[2] if len(a) > 2 else kw.get("axis")
        if ax is None and col != "X_flag":
            return None
        if ax is not None and ax is not const(0) and ax is not NONE:
            return None
    elif n in ("np.concatenate", "np.vstack", "np.row_stack", "np.hstack") and a and a[0].k in ("tup", "lst") and len(a[0].a) == 2:
        parts = a[0].a
        ax = a[1] if len(a) > 1 else kw.get("axis", const(0))
        if n == "np.concatenate" and ax is not const(0):
            return None
        if n == "np.hstack" and col != "X_flag":
            return None
    if parts is None or root_attr(parts[0]) != (S, col):
        return None
    g = parts[1]
    if g.k == "call" and g.a[0] in ALLOCF:
        return shape0(g), fill_of(g)
    return None


def grow(p, rep, cols):
    f = p.func("FunctionLogger._expand_arrays")
    I = Interp(p, Config(path_sensitive=True, cap=2000))
    paths = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        paths += 1
        n = noise(s.facts)
        counts = {}
        for nn in ((n,) if n is not None else (True, False)):
            for col in sorted(cols[nn]):
                val = s.store.get(self_attr(col))
                if not rep.check(val is not None, "same-columns", f"grow {col}", f.where, f"column {col} is not enlarged with the others"):
                    continue
                r = appended(val, col)
                if r is None:
                    # new, larger array into which the old rows are copied
                    r = realloc(val, col)
                if not rep.check(r is not None, "same-columns", f"grow {col} keeps rows", f.where,
                                 f"column {col} becomes {show(val)}, not its old rows followed by new ones"):
                    continue
                counts[col] = r[0]
                if col == "X_flag":
                    rep.check(r[1] is not None and is_const(r[1]) and not cval(r[1]), "inactive-default", "grow X_flag", f.where, "new unused rows are active")
                if col == "n_evals":
                    rep.check(r[1] is not None and is_const(r[1]) and cval(r[1]) == 0, "inactive-default", "grow n_evals", f.where, "new unused rows have evaluations")
        if n is False:
            rep.check(s.store.get(self_attr("S")) is None, "same-columns", "grow S only if noisy", f.where, "SD column touched for noiseless target")
        same_count(rep, "grow", counts, f.where)
    rep.used(I)
    rep.at_least("growth paths", paths, 1)


def realloc(val, col):
    v = val
    seen = False
    while v.k == "upd":
        if root_attr(v.a[2]) == (S, col):
            seen = True
        v = v.a[0]
    if seen and v.k == "call" and v.a[0] in ALLOCF:
        return shape0(v), fill_of(v)
    return None


def same_count(rep, op, counts, where):
    tally = {}
    for c, t in counts.items():
        tally.setdefault(norm_sum(t), []).append(c)
    if not tally:
        return
    major = max(tally, key=lambda k: len(tally[k]))
    for c, t in counts.items():
        rep.check(norm_sum(t) == major, "same-rows", f"{op} {c}", where, f"column {c} gets {show(t)} rows, unlike the other columns")


def trim(p, rep, cols):
    f = p.func("FunctionLogger.finalize")
    I = Interp(p, Config(path_sensitive=True, cap=2000))
    want = norm_sum(mk("add", self_attr("Xn"), const(1)))
    paths = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        paths += 1
        n = noise(s.facts)
        for nn in ((n,) if n is not None else (True, False)):
            for col in sorted(cols[nn]):
                val = s.store.get(self_attr(col))
                if not rep.check(val is not None, "same-columns", f"trim {col}", f.where, f"column {col} is not trimmed with the others"):
                    continue
                val = unshape(val)
                ok = False
                if val.k == "idx" and root_attr(val.a[0]) == (S, col):
                    ks = val.a[1].a if val.a[1].k == "tup" else (val.a[1],)
                    k0 = ks[0]
                    ok = k0.k == "slice" and k0.a[0] in (NONE, const(0)) and k0.a[2] in (NONE, const(1)) and norm_sum(k0.a[1]) == want
                rep.check(ok, "same-rows", f"trim {col}", f.where, f"column {col} is trimmed to {show(val)}, not to the filled rows")
    rep.used(I)
    rep.at_least("trim paths", paths, 1)


def is_logjac(t):
    return t.k == "call" and t.a[0] == "ParameterTransformer.log_abs_det_jacobian"


def split_correction(t):
    """t = rest + logjac(x)?  -> (rest, x) or None"""
    if t.k != "add":
        return None
    js = [x for x in t.a if is_logjac(jac_peel(x))]
    rest = [x for x in t.a if not is_logjac(jac_peel(x))]
    if len(js) != 1 or not rest:
        return None
    j = jac_peel(js[0])
    return (rest[0] if len(rest) == 1 else mk("add", *rest)), j.a[1][1]


def jac_peel(t):
    while True:
        if t.k == "idx" and (t.a[1] in (const(0), mk("tup", const(0)), mk("tup"))):
            t = t.a[0]
        elif t.k == "call" and t.a[0] in ("float", "np.item", "np.squeeze", "np.float64", "np.ravel", "np.reshape") and t.a[1]:
            t = t.a[1][0]
        else:
            return t


def capacity_known(evs, i, r):
    """before event i: growth called, or a fact says r < number of rows"""
    if any(e.kind == "call" and e.sig[0] == "FunctionLogger._expand_arrays" for e in evs[:i]):
        return True
    rs, rc = norm_sum(r)
    for t, v in evs[i].facts.items():
        if t.k != "cmp" or t.a[0] not in ("lt", "le", "eq"):
            continue
        op, a, b = t.a
        rows = [x for x in subterms(t) if is_rows(x)]
        if not rows:
            continue
        N = rows[0]
        sa, ca = norm_sum(mk("bin", "-", a, b))    # a - b
        want, wc = norm_sum(mk("bin", "-", r, N))  # r - N
        neg = frozenset((x, -n) for x, n in sa)
        # known: a<b (lt,True): a-b<0 ; (lt,False): b-a<=0 ; (le,True): a-b<=0 ; (le,False): b-a<0 ; need r-N<0, i.e. r-N<=-1 (integers)
        if op == "lt" and v and sa == want and ca <= 0 + 0 and wc - ca <= 0:
            return True
        if op == "le" and v and sa == want and wc - ca <= -1:
            return True
        if op == "lt" and not v and neg == want and wc + ca <= -1:
            return True
        if op == "le" and not v and neg == want and wc + ca <= 0:
            return True
        if op == "eq" and not v and (sa == want and ca == wc or neg == want and -ca == wc):
            return True
    return False


def is_rows(x):
    if x.k == "idx" and x.a[1] is const(0) and x.a[0].k == "attr" and x.a[0].a[1] == "shape":
        r = root_attr(x.a[0].a[0])
        return r is not None and r[0] is S and r[1] in KNOWN
    if x.k == "call" and x.a[0] == "len" and x.a[1]:
        r = root_attr(x.a[1][0])
        return r is not None and r[0] is S and r[1] in KNOWN
    return False


def record(p, rep, cols):
    f = p.func("FunctionLogger._record")
    I = Interp(p, Config(path_sensitive=True, cap=4000, track_store=lambda b, n: True,
                         track_call=lambda n: n == "FunctionLogger._expand_arrays"))
    new = dup = 0
    w = f.where
    for s, c, v in I.run(f):
        if c != "return":
            evs = [e for e in s.events if e.kind in ("setidx", "setattr") and touches(e)]
            rep.check(not evs, "row-write", "raise after write", w, "a path writes a column and then raises")
            continue
        evs = list(s.events)
        xn = [e for e in evs if e.kind == "setattr" and e.sig[0] is S and e.sig[1] == "Xn"]
        writes = {}
        for i, e in enumerate(evs):
            if e.kind == "setidx":
                ra = root_attr(e.sig[0])
                if ra and ra[0] is S and ra[1] in KNOWN:
                    writes.setdefault(ra[1], []).append((i, e))
            if e.kind == "setattr" and e.sig[0] is S and e.sig[1] in KNOWN:
                rep.bad("row-write", f"replace {e.sig[1]}", e.where, f"column {e.sig[1]} is replaced as a whole while recording")
        sdnone = sd_none(s.facts)
        tr = s.facts.get(self_attr("transform_parameters"))
        if xn:
            new += 1
            r = xn[-1].sig[2]
            rep.check(len(xn) == 1 and norm_sum(r) == norm_sum(mk("add", self_attr("Xn"), const(1))), "row-write", "last row index", w,
                      f"last-row index becomes {show(r)} instead of advancing by one")
            expect = {"X_orig": sym("x_orig"), "X": sym("x"), "y_orig": sym("f_val_orig"), "X_flag": TRUE}
            for col in ("X_orig", "X", "y_orig", "y", "X_flag", "n_evals") + (("S",) if sdnone is False else ()):
                ws = writes.get(col, [])
                if not rep.check(len(ws) == 1, "row-write", f"new row {col}", w, f"column {col} is written {len(ws)} time(s) for a new point"):
                    continue
                i, e = ws[0]
                rep.check(row_is(e.sig[1], r), "row-write", f"new row index {col}", e.where, f"column {col} is written at {show(e.sig[1])}, not at the new row")
                rep.check(capacity_known(evs, i, r), "row-write", f"capacity {col}", e.where, "row written without ensuring there is room for it")
                val = e.sig[2]
                if col in expect:
                    rep.check(same_scalar(val, expect[col]), "row-write", f"new row value {col}", e.where, f"column {col} gets {show(val)}")
                elif col == "S":
                    rep.check(same_scalar(val, sym("f_sd")), "row-write", "new row value S", e.where, f"SD column gets {show(val)}")
                elif col == "n_evals":
                    ok = val is const(1) or is_plus_one(val, "n_evals")
                    rep.check(ok, "row-write", "new row value n_evals", e.where, f"evaluation count becomes {show(val)}")
                elif col == "y":
                    corrected(rep, "new row", val, sym("f_val_orig"), tr, e.where)
            for col in ("fun_eval_time",):
                for i, e in writes.get(col, []):
                    rep.check(row_is(e.sig[1], r), "row-write", f"new row index {col}", e.where, "evaluation time stored in another row")
                    rep.check(same_scalar(e.sig[2], sym("fun_eval_time")), "row-write", f"new row value {col}", e.where, f"evaluation time becomes {show(e.sig[2])}")
            if not writes.get("fun_eval_time"):
                nan = s.facts.get(call("np.isnan", (sym("fun_eval_time"),)))
                rep.check(nan is True, "row-write", "new row fun_eval_time", w, "evaluation time not recorded")
        else:
            dup += 1
            rows = set()
            for col, ws in writes.items():
                for i, e in ws:
                    rows.add(strip(row_key(e.sig[1])))
            if not rep.check(len(rows) == 1, "duplicate-write", "single row", w, f"a re-evaluation writes rows {[show(r) for r in rows]}"):
                continue
            r = next(iter(rows))
            rep.check(contains(r, is_match), "duplicate-write", "matching row", w, f"the row {show(r)} is not derived from matching the point's coordinates")
            for col in ("X_orig", "X", "X_flag"):
                rep.check(col not in writes, "duplicate-write", f"keeps {col}", w, f"re-evaluation overwrites column {col}")
            for col in ("y_orig", "y", "n_evals") + (("S",) if sdnone is False else ()):
                rep.check(len(writes.get(col, [])) >= 1, "duplicate-write", f"updates {col}", w, f"re-evaluation does not update column {col}")
            ne = writes.get("n_evals", [])
            if ne:
                rep.check(len(ne) == 1 and is_plus_one(ne[0][1].sig[2], "n_evals"), "duplicate-write", "count +1", w,
                          f"evaluation count becomes {show(ne[0][1].sig[2])}")
            if writes.get("y_orig"):
                yo = writes["y_orig"][-1][1].sig[2]
                rep.check(not contains(yo, is_logjac), "corrected-value", "duplicate y_orig", w, "the log-Jacobian enters the original-space value")
                rep.check(contains(yo, lambda t: t is sym("f_val_orig")), "duplicate-write", "new observation used", w, "the new observation does not enter the row")
                average(rep, yo, sdnone, w)
                if writes.get("y"):
                    yv = writes["y"][-1][1].sig[2]
                    corrected(rep, "duplicate", yv, yo, tr, w)
            if sdnone is False and writes.get("S"):
                sd = writes["S"][-1][1].sig[2]
                rep.check(contains(sd, lambda t: t is sym("f_sd")) and contains(sd, lambda t: root_attr(t) == (S, "S")), "duplicate-write",
                          "combined SD", w, "the combined SD does not use both the stored and the new SD")
    rep.used(I)
    rep.at_least("new-row paths", new, 2)
    rep.at_least("duplicate paths", dup, 2)


def average(rep, yo, sdnone, w):
    """the stored value is a convex combination of stored and new value with matching weights"""
    nd = as_ratio(yo)
    if nd is None:
        return
    num, den = nd
    f = sym("f_val_orig")
    ts = list(num.a) if num.k == "add" else [num]
    ws = []
    for t in ts:
        fs = list(t.a) if t.k == "mul" else [t]
        val = [x for x in fs if x is f or root_attr(x) == (S, "y_orig")]
        if len(val) != 1:
            return
        rest = [x for x in fs if x is not val[0]]
        ws.append(strip(rest[0] if len(rest) == 1 else (const(1) if not rest else mk("mul", *rest))))
    tot = norm_sum(mk("add", *ws) if len(ws) > 1 else ws[0])
    rep.check(tot == norm_sum(den), "duplicate-write", "weights", w,
              f"weights of the combined value do not sum to the divisor {show(den)}")


def as_ratio(t):
    if t.k == "bin" and t.a[0] == "/":
        return t.a[1], t.a[2]
    if t.k == "add" or t.k == "mul":
        return None
    return None


def corrected(rep, what, val, base, tr, w):
    if tr is False:
        rep.check(same_scalar(val, base) and not contains(val, is_logjac), "corrected-value", f"{what}: no transform", w,
                  f"without a transform the stored value is {show(val)} instead of the original value")
        return
    if tr is None:
        rep.bad("corrected-value", f"{what}: transform", w, "the correction does not depend on whether a transform is used")
        return
    sp = split_correction(val)
    ok = sp is not None and same_scalar(sp[0], base) and same_value(unshape(sp[1]), sym("x"))
    rep.check(ok, "corrected-value", f"{what}: with transform", w,
              f"stored transformed-space value {show(val)} is not the original value plus the log-Jacobian at the point")


def same_scalar(a, b):
    return same_value(a, b) or strip(jac_peel(a)) is strip(jac_peel(b))


def is_match(t):
    return t.k == "cmp" and t.a[0] == "eq" and any(root_attr(x) is not None and root_attr(x)[1] in ("X", "X_orig") for x in t.a[1:]) and \
        any(contains(x, lambda u: u in (sym("x"), sym("x_orig"))) for x in t.a[1:])


def is_plus_one(v, col):
    if v.k == "add" and len(v.a) == 2 and any(x in (const(1), const(1.0)) for x in v.a):
        return any(root_attr(x) == (S, col) for x in v.a)
    return False


def row_key(k):
    ks = k.a if k.k == "tup" else (k,)
    return ks[0] if ks else k


def row_is(k, r):
    return norm_sum(row_key(k)) == norm_sum(r)


def touches(e):
    ra = root_attr(e.sig[0]) if e.kind == "setidx" else (e.sig[0], e.sig[1])
    return ra is not None and ra[0] is S and ra[1] in KNOWN


def sd_none(facts):
    v = facts.get(mk("cmp", "is", sym("f_sd"), NONE))
    if v is None and sym("f_sd") in facts:
        return not facts[sym("f_sd")]
    if v is None:
        return facts.get(self_attr("noise_flag")) is False
    return v


def views(p, rep):
    A = aliasing(p)
    n = 0
    for f in p.cls("FunctionLogger").methods.values():
        n += 1
        for m in A.mutated(f.qual):
            path = m.loc[1]
            if m.loc[0] == ("P", "self") and path and path[0] in (".y_orig", ".X_orig", ".X") and "= ..." in m.how and not m.how.startswith("["):
                if m.how.split()[0].startswith("."):
                    continue
                rep.bad("no-view-update", f"{m.func}: {m.how.split()[0]} aliases {path[0][1:]}", m.where,
                        f"'{m.how}' modifies column {path[0][1:]} in place through a view")
        rep.ok("no-view-update", f.qual)
    rep.at_least("log methods (alias analysis)", n, 5)


def warp(p, rep):
    f = p.func("whitening.warp_input")
    I = Interp(p, Config(track_store=lambda b, n: True))
    n = 0
    for s, c, v in I.run(f):
        if c != "return":
            continue
        wx, wy = [], []
        for e in s.events:
            if e.kind != "setidx":
                continue
            ra = root_attr(e.sig[0])
            if ra is None or "FunctionLogger" != I.cls_of(ra[0]):
                continue
            (wx if ra[1] == "X" else wy if ra[1] == "y" else []).append(e)
            rep.check(ra[1] in ("X", "y"), "warp-rows", f"warp writes {ra[1]}", e.where, f"re-parameterization overwrites column {ra[1]}")
        n += 1
        if not rep.check(len(wx) == 1 and len(wy) == 1, "warp-rows", "both rewritten", f.where,
                         "transformed points and values are not both rewritten"):
            continue
        kx, ky = strip(row_key(wx[0].sig[1])), strip(row_key(wy[0].sig[1]))
        rep.check(kx is ky, "warp-rows", "same rows", wx[0].where, f"points rewritten at {show(kx)} but values at {show(ky)}")
        X, y = wx[0].sig[2], wy[0].sig[2]
        T = lambda t: t.k == "call" and t.a[0] == "ParameterTransformer.__call__"
        rows = [t for t in subterms(X) if t.k == "idx" and root_attr(t.a[0]) is not None and root_attr(t.a[0])[1] == "X_orig"]
        rep.check(T(unshape(X)) and rows and all(strip(row_key(t.a[1])) is kx for t in rows), "warp-rows", "points from original points", wx[0].where,
                  f"new transformed points {show(X)} are not the transform of the same rows' original points")
        yr = [t for t in subterms(y) if t.k == "idx" and root_attr(t.a[0]) is not None and root_attr(t.a[0])[1] == "y_orig"]
        js = [t for t in subterms(y) if is_logjac(t)]
        okj = len(js) == 1 and strip(unshape(js[0].a[1][1])) is strip(unshape(X)) and strip(js[0].a[1][0]) is strip(unshape(X).a[1][0])
        rep.check(bool(yr) and all(strip(row_key(t.a[1])) is kx for t in yr), "warp-rows", "values from original values", wy[0].where,
                  "new transformed values do not come from the same rows' original values")
        rep.check(okj and positive_term(y, js), "warp-rows", "correction at new points", wy[0].where,
                  f"new values {show(y)} do not add the new transform's log-Jacobian at the new points")
    rep.used(I)
    rep.at_least("warp paths", n, 1)


def positive_term(y, js):
    t = y
    while t.k == "call" and t.a[0] in ("np.transpose", "np.reshape", "np.ravel") and t.a[1]:
        t = t.a[1][0]
    return t.k == "add" and any(contains(x, is_logjac) and x.k != "neg" for x in t.a)
