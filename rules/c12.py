"""C12: saving never clobbers silently; loading restores one consistent iteration."""
from engine.absint import Config, Interp, State
from engine.lib import *
from rules.c08 import alts, deref, plain, uncopy

EXPLANATION = (
    "Value-number extraction of the file operations of save and load (mode and path as functions of the arguments), and of every state change made by "
    "load: the index each restored part is read from, the guard of each change, and the range check that precedes it.")

SAVED = ["VBMC", "VariationalPosterior"]
PARTS = ["gp", "vp", "function_logger", "optim_state"]
RNG = ("np.random.seed", "np.random.set_state")


def mode_of(e):
    a, k = e.sig[1], dict(e.sig[2])
    if e.sig[0] == "open":
        m = k.get("mode", a[1] if len(a) > 1 else const("r"))
        return (k.get("file", a[0] if a else None)), m
    m = k.get("mode", a[1] if len(a) > 1 else (const("r") if a else None))
    return (a[0] if a else None), m


def path_form(t):
    """('same'|('suffix', s), base) or None for an unknown way to build the path"""
    t = plain(t)
    while t.k == "call" and t.a[0] in ("pathlib.Path", "str", "os.fspath", "pathlib.PurePath") and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t is sym("file"):
        return ("same",)
    if t.k == "call" and t.a[0].endswith("with_suffix") and len(t.a[1]) == 2 and is_const(t.a[1][1]):
        b = path_form(t.a[1][0])
        if b == ("same",):
            return ("suffix", cval(t.a[1][1]))
    return None


SUFFIXES = []


def cases(p, cls, name, extra=None):
    """{empty suffix?: [(state, ctl, value, events)]}"""
    f = p.method(cls, name)
    out = {}
    for empty in (True, False):
        cfg = Config(path_sensitive=True, track_raise=True, cap=800,
                     track_call=lambda n: n in ("open", "dill.dump", "pickle.dump", "dill.load", "dill.dumps") or n.endswith(".open") or n.endswith(".write_bytes") or n.endswith(".touch"),
                     opaque=("Options.update",), collect=name == "load")
        I = Interp(p, cfg)
        s = State()
        suf = attr(call_("pathlib.Path", (sym("file"),)), "suffix")
        s.facts[mk("cmp", "eq", suf, const(""))] = empty
        s.facts[mk("cmp", "eq", const(""), suf)] = empty
        s.facts[suf] = not empty
        try:
            outs = I.run(f, state=s)
        except Exception:
            raise
        out[empty] = (I, outs)
    return f, out


def call_(fn, args):
    return mk("call", fn, args, ())


def run(p, rep):
    rep.rule("exclusive", "without overwrite, the file is opened for exclusive creation (or an existing file is refused first)")
    rep.rule("requested", "with overwrite, the file is rewritten")
    rep.rule("whole", "what is written is the object itself, and loading returns what was read")
    rep.rule("address", "saving and loading under one name address the same file")
    rep.rule("writes", "no other place writes a file the user names")
    rep.rule("range", "an iteration outside the recorded range is refused before anything is restored")
    rep.rule("default", "without a requested iteration the last recorded one is loaded")
    rep.rule("restored", "surrogate, posterior, log, optimization state, hyperparameters, transform and counter are all set to the records of one iteration")
    rep.rule("history", "history after the loaded iteration is dropped, history up to it is kept")
    rep.rule("random", "the global random state changes only on request, to the state recorded for the same iteration")
    rep.rule("options", "new option names are checked before options are updated, and options are frozen again")
    for cls in SAVED:
        files(p, rep, cls)
    sites(p, rep)
    load(p, rep)


def files(p, rep, cls):
    if p.method(cls, "save") is None or p.method(cls, "load") is None:
        rep.bad("address", f"{cls} save/load", cls, f"{cls} cannot be saved and loaded")
        return
    forms = {}
    OV = sym("overwrite")
    f, out = cases(p, cls, "save")
    for empty, (I, outs) in out.items():
        rep.used(I)
        n = 0
        for s, ctl, v in outs:
            ops = [e for e in s.events if e.kind == "call" and (e.sig[0] == "open" or e.sig[0].endswith(".open"))]
            dumps = [e for e in s.events if e.kind == "call" and e.sig[0] in ("dill.dump", "pickle.dump")]
            raw = [e for e in s.events if e.kind == "call" and (e.sig[0].endswith(".write_bytes") or e.sig[0].endswith(".touch"))]
            if ctl == "raise":
                continue
            if raw or not ops:
                rep.notes.append(f"{cls}.save writes in a way this rule does not know")
                if not raw and not dumps:
                    ow = s.facts.get(OV)
                    if ow is not False:
                        rep.bad("requested", f"{cls} nothing written", f.where, "a path of save returns without writing although overwriting was requested" if ow else "a path of save returns without writing")
                    else:
                        rep.bad("exclusive", f"{cls} nothing written", f.where, "a path of save returns normally without writing and without an error")
                continue
            for e in ops:
                n += 1
                pt, m = mode_of(e)
                if m is None or pt is None:
                    continue
                for pc in alts(pt):
                    forms.setdefault(empty, set()).add((path_form(pc), pc))
                over = I.truth(OV, s)
                if over is None:
                    over = I.truth(mk("not", OV), s)
                    over = None if over is None else not over
                for mm, ov in mode_cases(m, over, OV):
                    if not is_const(mm) or not isinstance(cval(mm), str):
                        rep.notes.append(f"{cls}.save: mode not constant")
                        continue
                    mo = cval(mm)
                    guarded = any(t.k == "call" and t.a[0].split(".")[-1] in ("exists", "is_file", "isfile", "lexists") and b is False for t, b in s.facts.items()) or any(refused_existing(t, b, OV) for t, b in s.facts.items())
                    if ov is not True:
                        rep.check("x" in mo or guarded, "exclusive", f"{cls} mode", e.where, f"without overwrite the file is opened with mode {mo!r}, which replaces or extends an existing file")
                    if ov is not False and not (ov is None and ("x" in mo and False)):
                        if ov is True:
                            rep.check("w" in mo, "requested", f"{cls} mode", e.where, f"with overwrite requested the file is opened with mode {mo!r}")
                        elif "x" in mo and not any(x is not mm for x, _ in mode_cases(m, over, OV)):
                            rep.bad("requested", f"{cls} mode", e.where, f"overwriting has no effect (mode {mo!r})")
                    rep.check("b" in mo, "whole", f"{cls} binary mode", e.where, f"the file is opened in text mode {mo!r}")
            rep.check(len(dumps) == 1 and plain(dumps[0].sig[1][0]) is sym("self"), "whole", f"{cls} object written", f.where,
                      "save does not write exactly the object itself" if dumps else "a path of save writes nothing")
        rep.count(f"{cls}_save_open_{'nosuffix' if empty else 'suffix'}", n)
    lf, out = cases(p, cls, "load")
    lforms = {}
    for empty, (I, outs) in out.items():
        rep.used(I)
        for e in I.log:
            if e.kind == "call" and (e.sig[0] == "open" or e.sig[0].endswith(".open")):
                pt, m = mode_of(e)
                if pt is None:
                    continue
                for pc in alts(pt):
                    lforms.setdefault(empty, set()).add((path_form(pc), pc))
                if is_const(m):
                    rep.check(cval(m) == "rb", "whole", f"{cls} read mode", e.where, f"loading opens the file with mode {cval(m)!r}")
        for s, ctl, v in outs:
            if ctl == "return":
                u = plain(v)
                if not any(x.k == "call" and x.a[0] in ("dill.load", "pickle.load", "dill.loads") for x in subterms(u)) or any(
                        x.k == "call" and (x.a[0] in p.classes or x.a[0].endswith(".__new__")) or x.k in ("const", "attr") or x.k == "call" and x.a[0] == "cls" or x.k == "call" and x.a[0] == "?call" and x.a[1] and x.a[1][0] is sym("cls") for x in alts(u)):
                    rep.bad("whole", f"{cls} loaded object", lf.where, f"load returns {show(u)[:80]}, not what was read")
                else:
                    rep.ok("whole", f"{cls} loaded object", lf.where)
    for empty in (True, False):
        a, b = forms.get(empty, set()), lforms.get(empty, set())
        if not a or not b:
            continue
        ka, kb = {x for x, _ in a}, {x for x, _ in b}
        if {t for _, t in a} == {t for _, t in b}:
            rep.ok("address", f"{cls} {'without' if empty else 'with'} suffix", f.where)
        elif None in ka or None in kb:
            rep.notes.append(f"{cls}: path form of {'save' if None in ka else 'load'} not known")
        else:
            rep.check(ka == kb, "address", f"{cls} {'without' if empty else 'with'} suffix", lf.where,
                      f"for a name {'without' if empty else 'with'} suffix, save writes {sorted(ka)} but load reads {sorted(kb)}")


def refused_existing(t, b, OV):
    """the path excludes: file exists and no overwriting"""
    if t.k == "or" and b is False:
        return False
    if t.k == "and" and b is False:
        parts = flat(t)
        ex = [x for x in parts if x.k == "call" and x.a[0].split(".")[-1] in ("exists", "is_file", "isfile", "lexists")]
        return bool(ex) and all(x in ex or (x.k == "not" and x.a[0] is OV) for x in parts)
    return False


def mode_cases(m, over, OV):
    if over is None and m.k == "ite":
        c = m.a[0]
        if c is OV:
            return [(m.a[1], True), (m.a[2], False)]
        if c.k == "not" and c.a[0] is OV:
            return [(m.a[1], False), (m.a[2], True)]
    return [(m, over)]


def sites(p, rep):
    """files opened for writing anywhere else"""
    import ast
    from engine.program import dotted
    n = 0
    ok = {f"{c}.save" for c in SAVED}
    base = {q for q in p.functions if q in BASELINE_SET}
    for q, f in p.functions.items():
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            d = dotted(x.func) or ""
            if d == "open" or d.endswith(".open"):
                modes = [k.value for k in x.keywords if k.arg == "mode"] + (x.args[1:2] if d == "open" else x.args[:1])
                for mm in modes:
                    if isinstance(mm, ast.Constant) and isinstance(mm.value, str):
                        n += 1
                        if any(c in mm.value for c in "wax+") and q in base and q not in ok:
                            rep.bad("writes", f"open {q.split('.')[-1]}", f"{f.mod.rel}:{x.lineno} ({q})", f"a file is opened with mode {mm.value!r} outside save")
    rep.count("constant_open_modes", n)


BASELINE_SET = set(BASELINE)


def base_obj(t):
    t = plain(t)
    return t.k == "call" and t.a[0] in ("dill.load", "pickle.load", "dill.loads")


def hist_read(t):
    """(name, index) if t is an entry's element of the loaded history"""
    t = plain(t)
    if t.k == "call" and t.a[0] in ("copy.deepcopy", "copy.copy"):
        return hist_read(t.a[1][0])
    if t.k == "idx" and t.a[0].k == "idx" and is_const(t.a[0].a[1]):
        h = t.a[0].a[0]
        if h.k == "attr" and h.a[1] == "iteration_history":
            return cval(t.a[0].a[1]), t.a[1]
    if t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0].split(".")[-1] == "get" and len(t.a[0].a[1]) >= 2 and is_const(t.a[0].a[1][1]):
        return cval(t.a[0].a[1][1]), t.a[1]
    return None


def load(p, rep):
    f = p.method("VBMC", "load")
    if f is None:
        return
    IT = sym("iteration")
    NONE = mk("cmp", "is", IT, const(None))
    for given in (True, False):
        s0 = State()
        s0.facts[NONE] = not given
        s0.facts[mk("not", NONE)] = given
        I = Interp(p, Config(collect=True, track_raise=True, cap=400, opaque=("Options.update", "Options.update_from_file"),
                             track_call=lambda n: n in RNG or n in ("Options.update", "dict.update", "open") or n.endswith("set_state"),
                             track_store=lambda b, n: True))
        outs = I.run(f, state=s0)
        rep.used(I)
        rets = [(s, v) for s, c, v in outs if c == "return"]
        if not rets:
            rep.bad("restored", "no normal path", f.where, "load never returns")
            return
        state_rules(rep, f, I, rets, given, IT)
    options_rules(p, rep, f)


def lens(t, n):
    """every len(history[n]) inside t"""
    return [x for x in subterms(t) if x.k == "call" and x.a[0] == "len" and contains_key(x, n)]


def contains_key(t, n):
    return any(is_const(x) and cval(x) == n for x in subterms(t) if x.k == "const")


def conj(t, val, out):
    if t.k == "and" and val:
        for x in flat(t):
            conj(x, True, out)
    elif t.k == "not":
        conj(t.a[0], not val, out)
    elif t.k == "or" and not val:
        for x in flat(t):
            conj(x, False, out)
    else:
        out.append((t, val))


def flat(t):
    return list(t.a[0]) if len(t.a) == 1 and isinstance(t.a[0], tuple) else list(t.a)


def state_rules(rep, f, I, rets, given, IT):
    log = I.log
    sets = {}
    for e in log:
        if e.kind == "setattr" and base_obj(e.sig[0]):
            sets.setdefault(e.sig[1], []).append(e)
    def index(t):
        return plain(t)
    want = IT if given else None
    tag = "given" if given else "default"
    seen = {}
    for n in PARTS:
        if n not in sets:
            rep.bad("restored", f"{n} not restored", f.where, f"load does not set {n} to its record")
            continue
        for e in sets[n]:
            for v in alts(e.sig[2]):
                if v.k == "attr" and base_obj(v.a[0]) and v.a[1] == n:
                    continue
                h = hist_read(v)
                if h is None:
                    if n == "parameter_transformer":
                        continue
                    rep.notes.append(f"{n} restored from an unknown form")
                    continue
                rep.check(h[0] == n, "restored", f"{n} source", e.where, f"{n} is restored from the records of {h[0]!r}")
                seen.setdefault(n, []).append((plain(h[1]), e))
    # transform
    if "parameter_transformer" not in sets:
        rep.bad("restored", "parameter_transformer not restored", f.where, "the transform of a later iteration is kept")
    for e in sets.get("parameter_transformer", []):
        for v in alts(e.sig[2]):
            v = plain(v)
            if v.k == "attr" and v.a[1] == "parameter_transformer":
                for u in alts(v.a[0]):
                    h = hist_read(u)
                    if h:
                        rep.check(h[0] in ("vp", "function_logger"), "restored", "parameter_transformer source", e.where, f"the transform is taken from the records of {h[0]!r}")
                        seen.setdefault("parameter_transformer", []).append((plain(h[1]), e))
    for e in sets.get("hyp_dict", []):
        for v in alts(e.sig[2]):
            v = plain(v)
            while v.k == "idx" and is_const(v.a[1]) and cval(v.a[1]) == "hyp_dict":
                v = v.a[0]
                for u in alts(v):
                    h = hist_read(u)
                    if h:
                        rep.check(h[0] == "optim_state", "restored", "hyp_dict source", e.where, f"hyp_dict comes from {h[0]!r}")
                        seen.setdefault("hyp_dict", []).append((plain(h[1]), e))
                    elif u.k == "attr" and base_obj(u.a[0]) and u.a[1] == "optim_state":
                        restored_first = any(x.kind == "setattr" and x.sig[1] == "optim_state" for x in log[:log.index(e)])
                        guarded = any(x.k == "idx" for x in subterms(u))
                        rep.check(restored_first, "restored", "hyp_dict order", e.where, "hyp_dict is read from the optimization state before that state is restored")
                break
    if "hyp_dict" not in sets:
        rep.bad("restored", "hyp_dict not restored", f.where, "load does not restore the hyperparameters of the loaded iteration")
    if "iteration" not in sets:
        rep.bad("restored", "iteration not restored", f.where, "load does not set the iteration counter")
    for e in sets.get("iteration", []):
        seen.setdefault("iteration", []).append((plain(e.sig[2]), e))
    allidx = {}
    for n, l in seen.items():
        for t, e in l:
            allidx.setdefault(t, []).append((n, e))
    if given:
        for t, l in allidx.items():
            for n, e in l:
                if t is IT:
                    rep.ok("restored", f"{n} index", e.where)
                elif has(t, IT) or is_const(t) or t.k in ("add", "attr", "neg", "sub"):
                    rep.bad("restored", f"{n} index", e.where, f"{n} is restored at index {show(t)[:80]}, not at the requested iteration")
                else:
                    rep.bad("restored", f"{n} index", e.where, f"{n} is restored at index {show(t)[:80]}, not at the requested iteration")
        ranges(rep, f, I, sets, IT)
    else:
        if len(allidx) > 1:
            best = max(allidx, key=lambda t: len(allidx[t]))
            for t, l in allidx.items():
                if t is not best and not compatible(t, best):
                    for n, e in l:
                        rep.bad("restored", f"{n} index", e.where, f"{n} is restored at index {show(t)[:80]}, other parts at {show(best)[:80]}")
        for t in allidx:
            e = allidx[t][0][1]
            last_recorded(rep, t, e)
    idxs = set(allidx)
    # history
    cuts = [e for e in log if e.kind == "setidx" and (plain(e.sig[0]).k == "attr" and plain(e.sig[0]).a[1] == "iteration_history")]
    good = 0
    for e in cuts:
        v = plain(e.sig[2])
        k = plain(e.sig[1])
        if v.k == "call" and v.a[0] in ("np.copy", "np.array", "copy.deepcopy", "np.asarray") and v.a[1]:
            v = v.a[1][0]
        if v.k == "idx" and v.a[1].k == "slice":
            lo, hi, st = v.a[1].a[:3]
            from engine.poly import Norm
            N = Norm()
            okhi = any(N.n(hi) is N.n(mk("add", i, const(1))) or N.poly(hi) == N.poly(mk("add", i, const(1))) for i in idxs) if hi is not None and hi.k != "const" else False
            src = plain(v.a[0])
            rep.check(okhi and (cval(lo) in (None, 0) if is_const(lo) else False) and (not isinstance(st, T) or (is_const(st) and cval(st) in (None, 1))), "history", f"cut {tag}", e.where,
                      f"history is cut to [{show(lo)}:{show(hi)[:60]}], not to the loaded iteration and those before it")
            if src.k == "idx" and src.a[0].k == "attr" and src.a[0].a[1] == "iteration_history":
                rep.check(plain(src.a[1]) is k, "history", f"cut key {tag}", e.where, "one history entry is replaced by another")
            good += 1
            if is_const(k):
                rep.notes.append("history cut key by key")
        else:
            rep.notes.append(f"history entry set to unknown form {show(v)[:60]}")
            good += 1
    if not cuts:
        rep.bad("history", "history not cut", f.where, "history of later iterations is kept on loading")
    # every restoration uses the uncut or the equally cut history: order does not matter for index <= iteration
    # random state
    SR = sym("set_random_state")
    rng = [e for e in log if e.kind == "call" and (e.sig[0] in RNG or e.sig[0].endswith(".set_state"))]
    for e in rng:
        t = e.facts.get(SR)
        if t is None:
            t = I.truth(SR, mkstate(e.facts))
        rep.check(t is True, "random", "unrequested change", e.where, "the global random state is changed without being requested")
        rep.check(e.sig[0] == "np.random.set_state", "random", "reseed", e.where, f"load calls {e.sig[0]}")
        if e.sig[0] == "np.random.set_state" and e.sig[1]:
            for v in alts(e.sig[1][0]):
                h = hist_read(v)
                if h is None and v.k == "idx":
                    # read after the cut: last element or same index
                    h = (key_of(v.a[0]), v.a[1])
                if h is not None and h[0] is not None:
                    i = plain(h[1])
                    rep.check(h[0] == "random_state", "random", "source", e.where, f"the random state is taken from the records of {h[0]!r}")
                    aftercut = any(c in log and log.index(c) < log.index(e) for c in cuts)
                    rep.check(any(compatible(i, j) for j in idxs) or (aftercut and is_const(i) and cval(i) == -1), "random", "iteration", e.where,
                              f"the random state of iteration {show(i)[:60]} is restored, not the loaded one's")
                elif v.k == "attr" and v.a[1] == "random_state" and base_obj(v.a[0]):
                    rep.bad("random", "source", e.where, "the random state of the last iteration of the saved run is restored, whichever iteration is loaded")
    if not rng:
        rep.bad("random", "no restore", f.where, "the random state cannot be restored on request")


def compatible(a, b):
    """the same index, up to alternatives excluded by a guard"""
    if a is b:
        return True
    x, y = set(alts(a)), set(alts(b))
    return bool(x) and (x <= y or y <= x)


def mkstate(facts):
    s = State()
    s.facts = dict(facts)
    return s


def key_of(t):
    """the constant key by which a (possibly cut) history entry is read"""
    for x in subterms(t):
        if x.k == "idx" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str):
            return cval(x.a[1])
        if x.k == "call" and x.a[0].split(".")[-1] == "get" and len(x.a[1]) > 1 and is_const(x.a[1][1]):
            return cval(x.a[1][1])
    return None


def last_recorded(rep, t, e):
    """the default iteration: the length of a recorded series minus one (or the unit of an untouched object)"""
    for v in alts(t):
        v = plain(v)
        if is_const(v):
            rep.check(cval(v) == -1, "default", "constant", e.where, f"without a requested iteration, iteration {cval(v)} is loaded")
        elif v.k == "attr" and v.a[1] == "iteration":
            guarded = t.k == "ite" and any(x.k == "call" and x.a[0] == "hasattr" for x in subterms(t.a[0]))
            rep.check(guarded, "default", "counter", e.where,
                      "the iteration counter is taken as last recorded iteration; after an interrupted iteration it was not recorded")
        else:
            ns = norm_sum(v)
            rep.ok("default", "last record", e.where) if any(x.k == "call" and x.a[0] == "len" for x in subterms(v)) else rep.notes.append(f"default iteration {show(v)[:60]}")
            from engine.poly import Norm
            for x in subterms(v):
                if x.k == "call" and x.a[0] == "len":
                    N = Norm()
                    rep.check(N.poly(v) == N.poly(mk("add", x, const(-1))) or v.k not in ("add", "sub", "call"), "default", "last record index", e.where,
                              f"without a requested iteration, index {show(v)[:80]} is loaded")
                    break


def ranges(rep, f, I, sets, IT):
    """events after the check hold 0 <= iteration <= last"""
    raises = [e for e in I.log if e.kind == "raise"]
    first = min((I.log.index(l[0]) for l in sets.values()), default=None)
    low = high = None
    for e in raises:
        out = []
        for t, v in e.facts.items():
            conj(t, v, out)
        rel = [(t, v) for t, v in out if has(t, IT) and not (t.k == "cmp" and t.a[0] == "is")]
        probe = {}
        atoms(rel, IT, probe)
        if probe:
            if first is not None and I.log.index(e) > first:
                rep.bad("range", "late check", e.where, "the requested iteration is checked only after parts of the state were restored")
            atoms(rel, IT, found := {})
            low = low or found.get("low")
            high = high or found.get("high")
    if low is None or high is None:
        # checks may have been written as facts of the surviving path
        for l in sets.values():
            for e in l:
                out = []
                for t, v in e.facts.items():
                    conj(t, v, out)
                found = {}
                atoms([(t, not v) for t, v in out if has(t, IT)], IT, found)
                low = low or found.get("low")
                high = high or found.get("high")
            break
    rep.check(low is not None, "range", "negative iteration", f.where, "a negative iteration is not refused")
    rep.check(high is not None, "range", "iteration beyond the last", f.where, "an iteration beyond the last recorded one is not refused")
    if low is not None:
        op, c = low
        rep.check((op, c) in (("lt", 0), ("le", -1)), "range", "lower limit", f.where, f"an iteration is refused below {c} ({op})")
    if high is not None:
        op, bound = high
        from engine.poly import Norm
        for b in alts(bound):
            if any(x.k == "call" and x.a[0] == "len" for x in subterms(b)):
                N = Norm()
                x = next(x for x in subterms(b) if x.k == "call" and x.a[0] == "len")
                lastp = N.poly(mk("add", x, const(-1)))
                rep.check((op == "gt" and N.poly(b) == lastp) or (op == "ge" and N.poly(b) == N.poly(x)), "range", "upper limit", f.where,
                          f"an iteration is refused only if it is {op} {show(b)[:60]}")
            elif b.k == "attr" and b.a[1] == "iteration":
                rep.check(op == "gt", "range", "upper limit", f.where, f"the iteration limit is {op} {show(b)[:60]}")
            elif is_const(b):
                rep.check((op == "gt" and cval(b) == -1) or (op == "ge" and cval(b) == 0), "range", "upper limit without records", f.where, f"limit {cval(b)} without records")


def atoms(rel, IT, found):
    """conditions under which the iteration is refused -> found['low'/'high'] = (op, bound)"""
    for t, v in rel:
        for a, neg in walk_atoms(t, not v):
            if a.k != "cmp" or a.a[0] not in ("lt", "le"):
                continue
            op, x, y = a.a[0], plain(a.a[1]), plain(a.a[2])
            if neg:
                op, x, y = ("le" if op == "lt" else "lt"), y, x
            # refused if  x op y
            if x is IT and is_const(y):
                found.setdefault("low", (op, cval(y)))
            elif y is IT and is_const(x):
                continue
            elif y is IT:
                found["high"] = ("gt" if op == "lt" else "ge", x)


def walk_atoms(t, neg):
    if t.k == "not":
        yield from walk_atoms(t.a[0], not neg)
    elif t.k in ("and", "or"):
        for x in flat(t):
            yield from walk_atoms(x, neg)
    else:
        yield t, neg


def options_rules(p, rep, f):
    NEW = sym("new_options")
    s0 = State()
    N = mk("cmp", "is", NEW, const(None))
    s0.facts[N] = False
    s0.facts[mk("not", N)] = True
    I = Interp(p, Config(collect=True, track_raise=True, cap=400, opaque=("Options.update",),
                         track_call=lambda n: n in ("Options.update", "dict.update") or n.endswith(".__setitem__"),
                         track_store=lambda b, n: True))
    outs = I.run(f, state=s0)
    rep.used(I)
    log = I.log
    ups = [i for i, e in enumerate(log) if (e.kind in ("mutate", "call") and contains_attr(e, "options")) or (e.kind == "setidx" and ends(e.sig[0], "options"))]
    ups = [i for i in ups if log[i].kind == "setidx" or "update" in str(log[i].sig[:2])]
    if not ups:
        rep.bad("options", "new options ignored", f.where, "new options given to load are not applied")
        return
    checks = [i for i, e in enumerate(log) if e.kind == "raise" and any(has(t, NEW) and any(y.k == "cmp" and y.a[0] == "in" for y in subterms(t)) for t in e.facts)]
    rep.check(any(c < min(ups) for c in checks), "options", "unchecked names", log[min(ups)].where, "new options are applied before their names are checked")
    # frozen again at the end
    flags = [e for e in log if e.kind == "setattr" and e.sig[1] == "is_initialized"]
    if any(is_const(e.sig[2]) and cval(e.sig[2]) is False for e in flags):
        last = flags[-1]
        rep.check(is_const(last.sig[2]) and cval(last.sig[2]) is True and log.index(last) > max(ups), "options", "left open", last.where, "the options are left unfrozen after loading")


def ends(t, n):
    t = plain(t)
    return t.k == "attr" and t.a[1] == n


def contains_attr(e, n):
    x = e.sig[0] if isinstance(e.sig[0], T) else (e.sig[1][0] if e.kind == "call" and e.sig[1] else None)
    return isinstance(x, T) and ends(x, n)


def has(t, x):
    return contains(t, lambda y: y is x)
