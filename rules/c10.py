"""C10: a rejected re-parameterization is undone completely."""
from engine.absint import Config, Interp
from engine.lib import *
from engine.poly import Norm
from rules.c08 import BEST, BOOST, RES, SELF, alts, branches, deref, plain, uncopy
from rules.c12 import conj, has, walk_atoms

EXPLANATION = (
    "Event-trace and value analysis of the trial in the main loop: every part of the object that the trial writes (directly or, by may-mutate "
    "summaries, through what it calls) must be restored on the rejected path from an independent copy taken before the trial's first write; after "
    "the restoration only the failed attempt's bookkeeping is written. The functions applying a re-parameterization are shown to work on copies.")

WARP, WARPVP = "whitening.warp_input", "whitening.warp_gp_and_vp"
SAMPLE = "active_sample.active_sample"
BOOK = {"warping_count", "last_warping"}
FREE = {"logging_action", "random_state"}


def self_root(t):
    """name of the object's part in which a location lies"""
    d = 0
    t = plain(t)
    while d < 40:
        d += 1
        if t.k == "attr":
            if t.a[0] is SELF:
                return t.a[1]
            t = t.a[0]
        elif t.k in ("idx", "upd"):
            t = t.a[0]
        elif t.k == "call" and t.a[0] in VIEWS and t.a[1]:
            t = t.a[1][0]
        else:
            return None
    return None


def run(p, rep):
    rep.rule("snapshot", "each restored value is a deep copy taken before the trial first touches it, in the same iteration")
    rep.rule("restored", "everything the trial writes is restored when it is rejected")
    rep.rule("bookkeeping", "after the restoration only the failed attempt is recorded, on the restored state")
    rep.rule("condition", "the trial is rejected if the ELBO does not improve enough or its uncertainty grows too much, against the values before the trial")
    rep.rule("transform", "after the trial, object and log use the transform of the posterior that is kept")
    rep.rule("copies", "applying a re-parameterization works on copies of posterior, state and log")
    copies(p, rep)
    f = p.func("VBMC.optimize")
    if f is None or p.func(WARP) is None:
        rep.notes.append("no re-parameterization")
        return
    A = aliasing(p)
    names = (WARP, WARPVP, "copy.deepcopy", "copy.copy", "setattr", SAMPLE)
    I = Interp(p, Config(collect=True, opaque=(BEST, BOOST, RES), cap=400,
                         track_call=lambda n: n in names or n in p.functions, track_store=lambda b, n: True))
    I.run(f)
    rep.used(I)
    L = I.log
    start = [i for i, e in enumerate(L) if e.kind == "call" and e.sig[0] in (WARP, WARPVP)]
    rep.at_least("trial re-parameterizations", len(start), 1)
    i0 = min(start)
    loops = L[i0].loops
    ends = [i for i, e in enumerate(L) if e.kind == "call" and e.sig[0] == SAMPLE and i > i0]
    end = min(ends) if ends else len(L)
    seg = L[i0:end]
    # ---- restorations
    pre = {}
    for i, e in enumerate(L[:i0]):
        if e.kind == "call" and e.sig[0] in ("copy.deepcopy", "copy.copy") and len(e.sig) > 3:
            pre.setdefault(e.sig[3], []).append(i)
    base = dict(L[i0].facts)
    U = []
    for i in range(i0, end):
        e = L[i]
        if e.kind == "setattr" and plain(e.sig[0]) is SELF:
            vs = [strip_copy(x) for x in branches(e.sig[2])]
            new = newfacts(e, base)
            if new and rejected(new):
                for v in vs:
                    if self_attr(v) is not None:
                        U.append((i, e, e.sig[1], self_attr(v)))
    if any(e.kind == "call" and e.sig[0] == "setattr" and not is_const(e.sig[1][1]) for e in seg):
        rep.notes.append("restoration by computed attribute names: not decided")
        return
    if not U:
        rep.bad("restored", "no rollback", L[i0].where, "a rejected re-parameterization is never undone")
        return
    u0 = min(i for i, *_ in U)
    # ---- what the trial writes
    W = {}
    for i in range(i0, u0):
        e = L[i]
        for n in written(p, A, e):
            W.setdefault(n, (i, e))
    R = {}
    for i, e, n, src in U:
        R.setdefault(n, []).append((i, e, src))
        rep.check(src == n, "restored", f"{n} from {src}", e.where, f"{n} is restored from the saved value of {src}")
    facts0 = None
    for n, (i, e) in sorted(W.items()):
        if n in FREE or n == "timer":
            continue
        if n == "parameter_transformer" and n not in R:
            continue
        rep.check(n in R, "restored", f"{n} not restored", e.where, f"the trial changes {n}, which is not restored when it is rejected")
    common = None
    for n, l in R.items():
        for i, e, src in l:
            nf = {t: v for t, v in newfacts(e, base)}
            common = nf if common is None else {t: v for t, v in common.items() if nf.get(t) is v}
    for n, l in R.items():
        for i, e, src in l:
            extra = [t for t, v in newfacts(e, base) if t not in common]
            rep.check(not extra, "restored", f"{n} restored conditionally", e.where, f"{n} is restored only if {show(extra[0])[:80] if extra else ''}")
    # ---- snapshots
    for n, l in R.items():
        for i, e, src in l:
            for v in branches(e.sig[2]):
                raw = strip(v)
                if raw.k != "call" or raw.a[0] not in ("copy.deepcopy", "copy.copy"):
                    rep.bad("snapshot", f"{n} shared", e.where, f"{n} is 'restored' from a value that is not an independent copy ({show(plain(raw))[:60]})")
                    continue
                rep.check(raw.a[0] == "copy.deepcopy", "snapshot", f"{n} shallow", e.where, f"{n} is saved by a shallow copy, which the trial modifies")
                at = [k for t, ks in pre.items() if t is v or strip(t) is raw for k in ks]
                late = [k for k, x in enumerate(L[i0:i]) if x.kind == "call" and x.sig[0] == "copy.deepcopy" and len(x.sig) > 3 and (x.sig[3] is v or strip(x.sig[3]) is raw)]
                if not at:
                    if late:
                        rep.bad("snapshot", f"{n} late", e.where, f"{n} is saved only after the trial has begun")
                    else:
                        rep.notes.append(f"snapshot of {n} not located")
                    continue
                k = max(at)
                rep.check(L[k].loops[:len(loops)] == loops, "snapshot", f"{n} stale", L[k].where, f"{n} is saved before the iteration, not before the trial")
                for j in range(k + 1, i0):
                    if n in written(p, A, L[j], direct=True):
                        rep.bad("snapshot", f"{n} outdated", L[j].where, f"{n} changes between the saving and the trial")
                        break
                else:
                    rep.ok("snapshot", n, L[k].where)
    # ---- bookkeeping
    last = max(i for i, *_ in U)
    seen = {}
    for i in range(u0, end):
        e = L[i]
        nf = newfacts(e, base)
        if not all((t, v) in nf for t, v in common.items()):
            continue
        if e.kind == "setidx":
            r = restored_root(e.sig[0], R)
            if r is None:
                continue
            k = cval(e.sig[1]) if is_const(e.sig[1]) else None
            if e.kind == "setidx":
                if r == "optim_state" and k in BOOK:
                    seen[k] = e
                    rep.ok("bookkeeping", k, e.where)
                else:
                    rep.bad("bookkeeping", f"{r}[{k!r}]", e.where, f"after undoing the trial, {r}[{k!r}] is changed")
        elif e.kind == "setattr":
            r = restored_root(e.sig[0], R)
            if r is not None:
                rep.bad("bookkeeping", f"{r}.{e.sig[1]}", e.where, f"after undoing the trial, {r}.{e.sig[1]} is changed")
    ITER = [idx(attr(SELF, "optim_state"), const("iter")), attr(SELF, "iteration")]
    if "optim_state" in R:
        for k in sorted(BOOK):
            rep.check(k in seen, "bookkeeping", f"{k} not recorded", f.where, f"the failed attempt is not recorded in {k}")
        if "last_warping" in seen:
            v = uncopy(seen["last_warping"].sig[2])
            if is_const(v) or v.k == "idx" and is_const(v.a[1]) and cval(v.a[1]) not in ("iter",):
                rep.bad("bookkeeping", "last_warping value", seen["last_warping"].where, f"last_warping is set to {show(v)[:60]}, not to the current iteration")
        if "warping_count" in seen:
            d = norm_sum(seen["warping_count"].sig[2])
            v = plain(seen["warping_count"].sig[2])
            grow = v.k == "add" and any(is_const(x) and isinstance(cval(x), (int, float)) and cval(x) > 0 for x in v.a if isinstance(x, T))
            if is_const(v) or (v.k == "add" and any(is_const(x) and isinstance(cval(x), (int, float)) and cval(x) < 0 for x in v.a if isinstance(x, T))):
                rep.bad("bookkeeping", "warping_count value", seen["warping_count"].where, f"warping_count becomes {show(v)[:60]} on a failed attempt")
    condition(p, rep, L, U, common, i0)
    transform(p, rep, L, i0, end, last, base)


def strip_copy(t):
    t = strip(t)
    while t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
        t = strip(t.a[1][0])
    return t


def self_attr(t):
    t = plain(t)
    if t.k == "attr" and t.a[0] is SELF:
        return t.a[1]
    return None


def newfacts(e, base):
    return [(t, v) for t, v in e.facts.items() if t not in base]


def rejected(new):
    """a comparison of the trial's outcome (anything computed by the trial)"""
    out = []
    for t, v in new:
        conj(t, v, out)
    return any(any(x.k == "cmp" and x.a[0] in ("lt", "le") for x in subterms(t)) for t, v in out)


def restored_root(t, R):
    d = 0
    t = strip(t)
    while d < 20:
        d += 1
        if t.k in ("upd", "idx"):
            t = strip(t.a[0])
        elif t.k == "attr" and self_attr(t) is None:
            t = strip(t.a[0])
        elif t.k in ("ite",):
            for x in (t.a[1], t.a[2]):
                r = restored_root(x, R)
                if r:
                    return r
            return None
        elif t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy") and t.a[1]:
            n = self_attr(t.a[1][0])
            return n if n in R else None
        else:
            n = self_attr(t)
            return n if n in R else None
    return None


def written(p, A, e, direct=False):
    out = set()
    if e.kind == "setattr":
        if plain(e.sig[0]) is SELF:
            out.add(e.sig[1])
        else:
            out.add(self_root(e.sig[0]))
    elif e.kind in ("setidx", "mutate"):
        out.add(self_root(e.sig[0]))
    elif e.kind == "call" and e.sig[0] in p.functions:
        b = bind(p, e.sig[0], e.sig[1], e.sig[2])
        for m in A.mutated(e.sig[0]):
            if m.loc[0][0] != "P" or m.loc[0][1] not in b:
                continue
            t = plain(b[m.loc[0][1]])
            path = m.loc[1] + (m.field,)
            if t is SELF:
                if path and isinstance(path[0], str) and path[0].startswith("."):
                    out.add(path[0][1:])
            elif path and path[0] in HARMLESS:
                continue
            else:
                out.add(self_root(t))
    out.discard(None)
    return out


# lazily refreshed caches and equivalent re-normalisations of a posterior
HARMLESS = {"._mode", ".lambd", ".sigma", ".w", ".bounds", ".optimize_weights", ".eta"}


def condition(p, rep, L, U, common, i0):
    atoms = []
    for t, v in common.items():
        out = []
        conj(t, v, out)
        for x, b in out:
            atoms += list(walk_atoms(x, not b))
    e0 = U[0][1]
    got = {}
    for a, neg in atoms:
        if a.k != "cmp" or a.a[0] not in ("lt", "le"):
            continue
        op, x, y = a.a[0], plain(a.a[1]), plain(a.a[2])
        if neg:
            op, x, y = ("le" if op == "lt" else "lt"), y, x
        keys = {cval(z) for z in list(subterms(x)) + list(subterms(y)) if z.k == "const" and isinstance(cval(z), str)}
        which = "sd" if "elbo_sd" in keys else "elbo" if "elbo" in keys else None
        if which:
            got.setdefault(which, []).append((op, x, y))
    for which in ("elbo", "sd"):
        if which not in got:
            if not atoms:
                continue
            rep.check(not (got), "condition", f"{which} ignored", e0.where, f"the {'ELBO' if which == 'elbo' else 'uncertainty'} of the trial is not part of the decision to undo it") if got else rep.notes.append("condition not parsed")
            continue
        for op, x, y in got[which]:
            # rejected if x < y: elbo: new < old + tol ; sd: old*m + b < new
            new, lim = (x, y) if which == "elbo" else (y, x)
            isnew = any(z.k == "call" and z.a[0].endswith("optimize_vp") for z in subterms(new))
            limnew = any(z.k == "call" and z.a[0].endswith("optimize_vp") for z in subterms(lim))
            if limnew and not isnew:
                rep.bad("condition", f"{which} reversed", e0.where, f"a trial is undone if it improves the {which}")
                continue
            if not isnew:
                rep.notes.append(f"{which}: trial value not identified")
                continue
            key = "elbo" if which == "elbo" else "elbo_sd"
            nk = last_key(new)
            if nk and nk != key:
                rep.bad("condition", f"{which} value", e0.where, f"the trial's {nk} is compared as {key}")
            old = [z for z in subterms(lim) if oldvalue(z, key)]
            wrong = [z for z in subterms(lim) if oldvalue(z, "elbo_sd" if key == "elbo" else "elbo")]
            if wrong and not old:
                rep.bad("condition", f"{which} baseline", e0.where, f"the trial's {key} is compared with the previous {'elbo_sd' if key == 'elbo' else 'elbo'}")
            if old:
                o = old[0]
                opt = lambda n: idx(attr(SELF, "options"), const(n))
                want = mk("add", o, opt("warp_tol_improvement")) if which == "elbo" else mk("add", mk("mul", o, opt("warp_tol_sd_multiplier")), opt("warp_tol_sd_base"))
                N = Norm()
                rep.check(N.poly(lim) == N.poly(want), "condition", f"{which} tolerance", e0.where, f"the trial is undone against {show(lim)[:120]}")
                for z in old:
                    if z.k == "idx" and is_const(z.a[1]) and isinstance(cval(z.a[1]), int):
                        rep.check(cval(z.a[1]) == -1, "condition", f"{which} previous iteration", e0.where, f"the trial is compared with iteration {cval(z.a[1])}")
    # the two grounds are alternatives
    hit = set()
    for t, v in common.items():
        out = []
        conj(t, v, out)
        for x, b in out:
            if x.k == "cmp":
                hit |= {w for w in ("elbo", "elbo_sd") if last_keys(x, w)}
    if len(hit) == 2:
        rep.bad("condition", "both required", e0.where, "the trial is undone only if both the ELBO and its uncertainty get worse")


def last_keys(x, w):
    """the comparison is about the trial's statistic w"""
    return any(plain(y).k == "idx" and last_key(y) == w for y in x.a[1:3])


def last_key(t):
    t = plain(t)
    while t.k == "call" and t.a[1] and t.a[0] in ("float", "np.copy", "np.asarray"):
        t = plain(t.a[1][0])
    if t.k == "idx" and is_const(t.a[1]):
        return cval(t.a[1])
    return None


def oldvalue(z, key):
    """history entry of key at some iteration, or a statistic of the object's own (pre-trial) posterior"""
    if z.k != "idx":
        return False
    h = z.a[0]
    if h.k == "idx" and is_const(h.a[1]) and cval(h.a[1]) == key and h.a[0].k == "attr" and h.a[0].a[1] == "iteration_history":
        return True
    return is_const(z.a[1]) and cval(z.a[1]) == key and h.k == "attr" and h.a[1] == "stats" and self_root(uncopy(h.a[0])) == "vp"


def transform(p, rep, L, i0, end, last, base):
    own = log = None
    for i in range(last, end):
        e = L[i]
        if e.kind == "setattr" and e.sig[1] == "parameter_transformer":
            if plain(e.sig[0]) is SELF:
                own = e
            else:
                log = e
    later = next((e for e in L[end:] if e.kind == "setattr" and e.sig[1] == "parameter_transformer"), None)
    where = L[last].where
    for name, e in (("object", own), ("log", log)):
        if e is None:
            rep.bad("transform", f"{name} transform", where, f"the transform of the {name} is not reset to that of the posterior kept after the trial")
            continue
        extra = newfacts(e, base)
        cond = [t for t, v in e.facts.items() if any(x.k == "call" and x.a[0] in (WARP, WARPVP) for x in subterms(t))]
        rep.check(not cond, "transform", f"{name} transform conditional", e.where, f"the transform of the {name} is reset only in some outcomes of the trial")
        bad = [v for v in alts(e.sig[2]) if not transform_of_vp(v)]
        rep.check(not bad, "transform", f"{name} transform source", e.where, f"the transform of the {name} is set to {show(bad[0])[:80] if bad else ''}, not to that of the posterior kept")


def transform_of_vp(v):
    v = plain(v)
    if v.k == "attr" and v.a[1] == "parameter_transformer":
        for b in alts(v.a[0]):
            b = uncopy(b)
            n = self_attr(b)
            if n is not None and n != "vp":
                return False
            if n is None and b.k == "idx" and b.a[0].k == "call" and b.a[0].a[0] == WARP:
                return False
        return True
    return v.k not in ("attr", "const") and not (v.k == "idx" and v.a[0].k == "call" and v.a[0].a[0] == WARP)


def copies(p, rep):
    A = aliasing(p)
    for q in (WARP, WARPVP):
        f = p.func(q)
        if f is None:
            continue
        rep.functions.add(q)
        hits = [m for m in A.mutated(q) if m.loc[0][0] == "P" and not (m.loc[1] + (m.field,))[0] in HARMLESS]
        for m in hits:
            path = "".join(m.loc[1]) + m.field
            rep.bad("copies", f"{f.name} modifies {m.loc[0][1]}", m.where, f"{q} modifies {m.loc[0][1]}{path} of its caller")
        if not hits:
            rep.ok("copies", f"{f.name} arguments", f.where)
        I = Interp(p, Config(track_store=lambda b, n: True))
        for s, c, v in I.run(f):
            if c != "return" or v.k != "tup":
                continue
            for i, x in enumerate(v.a):
                for y in branches(x):
                    y = strip(y)
                    while y.k in ("upd", "havoc", "loop"):
                        y = strip(y.a[2] if y.k != "upd" and len(y.a) > 2 and isinstance(y.a[2], T) else y.a[0]) if not (y.k != "upd" and not (len(y.a) > 2 and isinstance(y.a[2], T))) else const(0)
                    if y.k == "sym" or y.k == "attr" and plain(y).k == "attr" and root_param(y):
                        rep.bad("copies", f"{f.name} result {i}", f.where, f"{q} returns its caller's own {show(y)[:50]}")
                    elif y.k == "call" and y.a[0] == "copy.copy":
                        rep.bad("copies", f"{f.name} result {i}", f.where, f"{q} returns a shallow copy of {show(y)[:50]}")
                    else:
                        rep.ok("copies", f"{f.name} result {i}", f.where)
        rep.used(I)


def root_param(t):
    t = plain(t)
    while t.k in ("attr", "idx"):
        t = t.a[0]
    return t.k == "sym"
