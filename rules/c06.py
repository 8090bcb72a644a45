"""C06: state passed between stages is read under the name it is written."""
import ast
from engine.containers import Containers
from engine.program import AnalysisBroken
from engine.absint import Config, Interp
from engine.terms import *
from engine.lib import BASELINE, callers_of

EXPLANATION = (
    "Whole-program unification analysis of keyed containers: every variable, attribute, container entry and function result is a node, "
    "assignments, copies, merges and calls unify nodes, and each resulting container collects the keys written, read and tested anywhere. "
    "A key consulted in a container whose writers are all known must be among the keys written to that container; history entries must be "
    "declared to the history's constructor and recorded.")

# entries of the optimization state that later stages consult before (or without) any other stage having set them
INITIAL = set("""R cache cache_active data_trim_list entropy_alpha entropy_switch gp_cov_fun gp_mean_fun gp_noise_fun integer_vars iter iter_list
last_run_avg last_successful_warping last_warmup last_warping lb_eps_orig lb_search lb_tran max_fun_evals out_warp_delta plb_orig plb_tran
pub_orig pub_tran recompute_var_post run_cov run_mean search_cache skip_active_sampling sn2_hpd stop_sampling tol_gp_var ub_eps_orig
ub_search ub_tran uncertainty_handling_level vp_K warmup warping_count""".split())


# stage -> entries of the optimization state it hands over to other stages (on the frozen baseline)
HANDOVER = {
    "VBMC.optimize": "N entropy_switch gp_mean_fun hyp_dict iter last_run_avg last_warping lcb_max n_eff out_warp_delta recompute_var_post "
                     "run_cov run_mean skip_active_sampling sn2_hpd stop_gp_sampling stop_sampling vp_K vp_repo warping_count",
    "active_sample.active_sample": "N active_importance_sampling entropy_alpha gp_length_scale hyp_dict n_eff recompute_var_post search_cache sn2_hpd vp_repo",
    "VBMC._check_termination_conditions": "R entropy_switch",
    "VBMC._setup_vbmc_after_warmup": "data_trim_list last_warmup recompute_var_post skip_active_sampling warmup",
    "VBMC.final_boost": "entropy_alpha warmup",
    "whitening.warp_input": "last_run_avg last_successful_warping last_warping lb_search plb_tran pub_tran recompute_var_post run_cov run_mean "
                            "search_cache skip_active_sampling ub_search warping_count",
}

PARTIAL_OK = {"gp_noise_fun"}   # chain over the noise level, which is 0, 1 or 2 by construction


def reachable(p, start):
    """functions whose name is mentioned, transitively, from `start`"""
    byname = {}
    for f in p.all_func_nodes():
        byname.setdefault(f.name, []).append(f)
    seen, st = set(), [p.func(start)]
    while st:
        f = st.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            st += byname.get(nm, []) if nm not in ("optimize",) else []
    return seen


def handover(p, rep, C, root):
    """a stage that hands an entry to later stages sets it under the name they consult"""
    wr, rd, n = {}, {}, 0
    for x in root.w:
        wr.setdefault(x[0], set()).add(x[2])
    for x in root.r + root.t:
        rd.setdefault(x[0], set()).add(x[2])
    for q, keys in HANDOVER.items():
        f = p.functions.get(q)
        if f is None:
            rep.notes.append(f"stage {q} no longer exists; its entries are not decided")
            continue
        group, st = {q}, [f]
        while st:                       # the stage and the new helpers it uses
            g = st.pop()
            for h in p.all_func_nodes():
                if h.qual not in group and h.qual not in BASELINE and g.qual in callers_of(p, h):
                    group.add(h.qual)
                    st.append(h)
        # a caller or callee that did not itself set the entry may have taken the statement over
        near = callers_of(p, f) | {h.qual for h in p.all_func_nodes() if h.qual in BASELINE and q in callers_of(p, h)}
        for k in keys.split():
            if not rd.get(k):
                rep.notes.append(f"entry {k} is no longer consulted anywhere")
                continue
            n += 1
            took = {h for h in near if k not in HANDOVER.get(h, "").split() and k not in INITIAL_ONLY.get(h, ())}
            rep.check(bool(wr.get(k, set()) & (group | took)), "handover", f"entry {k} set by {q.split('.')[-1]}", f.where,
                      f"{q} does not set '{k}', which {sorted(rd[k])[0]} consults")
    rep.at_least("entries handed over", n, 35)


INITIAL_ONLY = {"VBMC._init_optim_state": INITIAL}


def partial_entries(p, rep):
    """entries that the initialisation sets on some paths only"""
    out = set()
    I = Interp(p, Config())
    for s, c, v in I.run(p.func("VBMC._init_optim_state")):
        if c != "return":
            continue
        for k in INITIAL:
            e = idx(v, const(k))
            if k not in PARTIAL_OK and e in s.store and any(x is e for x in leaves(s.store[e])):
                out.add(k)
    rep.used(I)
    return out


def leaves(t):
    if t.k == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    if t.k == "phi":
        return [y for x in t.a[2] for y in leaves(x)]
    return [t]


def run(p, rep):
    rep.rule("read-written", "every entry consulted in a shared container is one that some stage writes into that same container")
    rep.rule("initialized", "entries of the optimization state that later stages consult are set by the constructor")
    rep.rule("history-declared", "every entry recorded in or consulted from the iteration history is declared to its constructor")
    rep.rule("history-recorded", "every history entry that is consulted is recorded by some stage")
    rep.rule("handover", "a stage that hands an entry of the optimization state to other stages sets it under the name they consult")
    C = Containers(p)
    rep.functions |= set(p.functions)
    hist = C.find(C.instance("IterationHistory"))
    skip = {id(hist)}
    if "Options" in p.classes:
        skip.add(id(C.find(C.instance("Options"))))
    n = m = 0
    central = 0
    for root in C.classes():
        if id(root) in skip or not root.w or not (root.r or root.t):
            continue
        names = C.names_of(root)
        if root.dyn or (root.ext and not any("." in x for x in names)):
            rep.notes.append(f"container {names[:2]} has writers with keys unknown to the analysis; not decided")
            continue
        m += 1
        W = C.written(root)
        label = (names or ["(anonymous)"])[0]
        if "VBMC.optim_state" in C.names_of(root, 50):
            central += 1
            R = reachable(p, "VBMC.__init__")
            early = {x[0] for x in root.w if x[2] in R and not x[3]}
            used = {x[0] for x in root.r + root.t}
            half = partial_entries(p, rep)
            for k in sorted(INITIAL & used):
                rep.check(k in early and k not in half, "initialized", f"entry {k}", next(x[1] for x in root.r + root.t if x[0] == k),
                          f"'{k}' is consulted but the constructor does not set it" + (" on every path" if k in half else ""))
            handover(p, rep, C, root)
        for kind, lst in (("consulted", root.r), ("tested", root.t)):
            for k, w, q in lst:
                n += 1
                rep.check(k in W, "read-written", f"entry {k}", w, f"'{k}' is {kind} in {label}, where no stage ever sets it")
    rep.at_least("container reads", n, 100)
    rep.at_least("containers", m, 6)
    rep.at_least("optimization state", central, 1)

    # iteration history
    declared = set()
    sites = 0
    for f in p.all_func_nodes():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "IterationHistory" or
                                            isinstance(x.func, ast.Attribute) and x.func.attr == "IterationHistory"):
                arg = x.args[0] if x.args else next((k.value for k in x.keywords), None)
                d = keylist(p, f, arg, C)
                if d is None:
                    raise AnalysisBroken("C06: the keys given to the iteration history are not literal")
                declared |= d
                sites += 1
    rep.at_least("history constructions", sites, 1)
    rec = {}
    opaque = False
    for k, w, q, src in C.records:
        if q.startswith("IterationHistory."):
            continue
        ks = {k} if k is not None else set()
        if k is None:
            if not src:
                opaque = True
                rep.notes.append(f"recorded keys not known at {w}")
            for s in src or ():
                ks |= {x[0] for x in C.find(s).w}
                if C.find(s).dyn:
                    opaque = True
        for y in ks:
            rec.setdefault(y, w)
    rep.at_least("recorded entries", len(rec), 10)
    for k, w in sorted(rec.items()):
        rep.check(k in declared, "history-declared", f"recorded {k}", w, f"'{k}' is recorded but not declared to the iteration history (recording it fails)")
    reads = list(hist.r) + list(hist.t)
    rep.at_least("history reads", len(reads), 20)
    for k, w, q in reads:
        rep.check(k in declared, "history-declared", f"consulted {k}", w, f"history entry '{k}' is consulted but was never declared")
        if k in declared and not opaque:
            rep.check(k in rec, "history-recorded", f"consulted {k}", w, f"history entry '{k}' is consulted but never recorded")
    for k, w, q, g in hist.w:
        rep.check(k in declared, "history-declared", f"stored {k}", w, f"'{k}' is stored in the history but not declared")


def keylist(p, f, e, C, d=0):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = set()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r = keylist(p, f, x.value, C, d + 1)
                if r is None:
                    return None
                out |= r
                continue
            s = C.strs(x, f)
            if s is None or not s:
                return None
            out |= set(s)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = keylist(p, f, e.left, C, d + 1), keylist(p, f, e.right, C, d + 1)
        return None if a is None or b is None else a | b
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted", "set") and e.args:
        return keylist(p, f, e.args[0], C, d + 1)
    if isinstance(e, ast.Call) and d < 4:
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
        for g in p.all_func_nodes():
            if g.name == nm:
                out, k = set(), 0
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Return) and x.value is not None:
                        r = keylist(p, g, x.value, C, d + 1)
                        if r is None:
                            return None
                        out |= r
                        k += 1
                return out if k else None
        return None
    if isinstance(e, (ast.Name, ast.Attribute)) and d < 4:
        nm = e.id if isinstance(e, ast.Name) else e.attr
        out, k = set(), 0
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets):
                r = keylist(p, f, x.value, C, d + 1)
                if r is None:
                    return None
                out |= r
                k += 1
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == nm:
                r = keylist(p, f, x.value, C, d + 1)
                if r is None:
                    return None
                out |= r
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == nm \
                    and x.func.attr in ("append", "extend") and x.args:
                r = keylist(p, f, x.args[0], C, d + 1) if x.func.attr == "extend" else set(C.strs(x.args[0], f) or ())
                if r is None:
                    return None
                out |= r
        if k:
            return out
        r = p.resolve_global(f.mod, nm)
        if r and r[0] == "const":
            return keylist(p, f, r[2], C, d + 1)
        for c in p.classes.values():
            if nm in c.attrs:
                return keylist(p, f, c.attrs[nm], C, d + 1)
    return None
