"""C11: queries do not modify the objects or arrays they are given."""
import ast
from engine.lib import *

EXPLANATION = (
    "Interprocedural may-alias / may-mutate analysis (NumPy views, attributes, container entries, callee summaries to a fixpoint): for every "
    "function the set of caller-visible locations that it, or anything it calls, may write; compared with the effects its contract grants. "
    "Arrays that constructors keep by reference are tracked into every later in-place write.")

# functions whose contract is to change the given object ("*": any part of it, or the listed parts with the reason)
LOG = "records an evaluation"
FREE = {
    ("FunctionLogger.__call__", "self"): LOG, ("FunctionLogger.add", "self"): LOG, ("FunctionLogger.finalize", "self"): LOG,
    ("FunctionLogger._expand_arrays", "self"): LOG, ("FunctionLogger._record", "self"): LOG,
    ("FunctionLogger.__deepcopy__", "memo"): "copy protocol", ("Options.__deepcopy__", "memo"): "copy protocol",
    ("ParameterTransformer._set_bounded_transforms", "self"): "constructor helper",
    ("Timer.start_timer", "self"): "timer", ("Timer.stop_timer", "self"): "timer", ("Timer.reset", "self"): "timer",
    ("active_sample.active_sample", "optim_state"): "stage", ("active_sample.active_sample", "function_logger"): "stage",
    ("active_sample.active_sample", "gp"): "stage",
    ("gaussian_process_train.train_gp", "hyp_dict"): "hyperparameter store", ("gaussian_process_train._gp_hyp", "gp"): "sets up the new surrogate",
    ("gaussian_process_train.reupdate_gp", "gp"): "refreshes the surrogate",
    ("variational_optimization._eval_full_elcbo", "elbo_stats"): "fills the table",
    ("VBMC.optimize", "self"): "run", ("VBMC._setup_vbmc_after_warmup", "self"): "run", ("VBMC._check_termination_conditions", "self"): "run",
    ("VBMC.final_boost", "self"): "run",
}
for _m in ("__setstate__", "__setitem__", "__delitem__", "record", "_expand_array", "record_iteration"):
    FREE[("IterationHistory." + _m, "self")] = "history"
for _m in ("update_defaults", "load_options_file", "validate_option_names", "__ior__", "__setitem__", "__delitem__"):
    FREE[("Options." + _m, "self")] = "options (see C05)"
FIELDS = {
    ("VariationalPosterior.get_bounds", "self"): {".bounds"},
    ("VariationalPosterior.get_parameters", "self"): {".lambd", ".sigma", ".w"},        # normalises equivalent parameters
    ("VariationalPosterior.set_parameters", "self"): {"._mode", ".lambd", ".mu", ".sigma", ".w", ".eta"},
    ("VariationalPosterior.mode", "self"): {"._mode"},
    ("active_sample.active_sample", "vp"): {".bounds", ".optimize_weights", ".lambd", ".sigma", ".w"},   # get_parameters, optimize_vp
    ("variational_optimization.optimize_vp", "vp"): {".bounds", ".optimize_weights"},
    ("variational_optimization._sieve", "vp"): {".bounds"},
    ("variational_optimization._eval_full_elcbo", "vp"): {"._mode", ".eta", ".lambd", ".mu", ".sigma", ".w"},   # working copy
    ("variational_optimization._neg_elcbo", "vp"): {"._mode", ".eta", ".lambd", ".mu", ".sigma", ".w"},         # working copy
    ("AbstractAcqFcn.__call__", "optim_state"): {"['active_importance_sampling']"},           # branch-correlated: a private buffer is written
    ("AcqFcnIMIQR._compute_acquisition_function", "optim_state"): {"['active_importance_sampling']"},
    ("variational_optimization.update_K", "optim_state"): {"['vp_K']"},                        # an integer, rebound
    ("Options.__init__", "user_options"): {"[]"},                                              # key names collected into a new set
    ("VBMC.__init__", "options"): {"[]"},
    ("VBMC.determine_best_vp", "self"): {".iteration_history"},                                # stability flag of the record (see C07)
}
# names of values that every query must leave alone (reported by construct)


def run(p, rep):
    rep.rule("effect", "a function writes only to what its contract grants: queries write to nothing the caller can see")
    rep.rule("kept", "an array that a constructor keeps by reference is never written to in place afterwards")
    rep.rule("globals", "no function writes to module-level objects")
    A = aliasing(p)
    n = w = 0
    for q, f in A.funcs.items():
        if q not in BASELINE:
            continue
        n += 1
        rep.functions.add(q)
        bad = {}
        for m in A.mutated(q):
            kind, root = m.loc[0][0], m.loc[0][1]
            w += 1
            path = m.loc[1] + (m.field,)
            if kind == "G":
                rep.bad("globals", f"global {root}", m.where, f"{q} writes to the module-level object {root}")
                continue
            if (q, root) in FREE or f.name == "__init__" and root == f.posonly[0]:
                continue
            if path[0] in FIELDS.get((q, root), ()):
                continue
            bad.setdefault(root, m)
        for root, m in bad.items():
            rep.bad("effect", f"{f.name}: {root}{''.join(m.loc[1])}{m.field}", m.where, f"{q} may modify {root}{''.join(m.loc[1])} ({m.how} in {m.func})")
        if not bad:
            rep.ok("effect", q, f.where)
    rep.at_least("functions", n, 190)
    rep.at_least("caller-visible writes", w, 150)
    kept(p, rep, A)
    owned(p, rep, A)


def kept(p, rep, A):
    n = 0
    for c in p.classes.values():
        f = p.method(c.name, "__init__")
        if f is None or f.qual not in A.sum:
            continue
        refs = {}
        me = f.posonly[0]
        for (loc, fld), v in A.sum[f.qual].heap.items():
            if loc == (("P", me), ()) and fld.startswith("."):
                src = sorted({x[0][1] for x in v if x[0][0] == "P" and x[0][1] != me})
                if src:
                    refs[fld] = src
        for fld, src in refs.items():
            n += 1
            hit = None
            for q, g in A.funcs.items():
                for m in A.mutated(q):
                    path = m.loc[1] + (m.field,)
                    for i, x in enumerate(path[:-1]):
                        if x == fld and fld not in (".fun", ".parameter_transformer", ".vp", ".prior", ".options") and owner(p, g, m, i) == c.name:
                            hit = m
            rep.check(hit is None, "kept", f"{c.name}{fld}", hit.where if hit else f.where,
                      f"{c.name}{fld} refers to the caller's {'/'.join(src)} and is written in place")
    rep.at_least("kept references", n, 10)


def owned(p, rep, A):
    """operations that set a posterior's parameters copy what they are given"""
    q = "VariationalPosterior.set_parameters"
    f = p.func(q)
    me = f.posonly[0]
    for (loc, fld), v in sorted(A.sum[q].heap.items(), key=str):
        if loc == (("P", me), ()) and fld.startswith("."):
            src = sorted({x[0][1] for x in v if x[0][0] == "P" and x[0][1] != me})
            rep.check(not src, "kept", f"posterior{fld}", f.where, f"set_parameters keeps the caller's {'/'.join(src)} by reference in {fld}")


def owner(p, g, m, i):
    """class of the object whose field number i is mutated below, if it is `self`"""
    if i == 0 and g.cls is not None and m.loc[0][1] == (g.posonly[0] if g.posonly else None):
        return g.cls.name
    return None
