"""C05: user options win, unknown names are refused, and options then stay frozen."""
import ast
from engine.absint import Config, Interp
from engine.program import AnalysisBroken
from engine.terms import *
from engine.lib import *

EXPLANATION = (
    "Abstract interpretation of every operation of the options object over all paths (who may reach the raw store, and under which "
    "facts), order analysis of the constructor that builds the options, and a whole-program scan of every read, forced write and flag "
    "write on an object typed as options, compared with the names declared by the shipped configuration files.")
S = sym("self")
RAW = {"__setitem__", "__delitem__", "update", "pop", "popitem", "clear", "setdefault", "__ior__"}
VIA = {"pop": "__delitem__", "popitem": "__delitem__", "clear": "__delitem__", "update": "__setitem__", "setdefault": "__setitem__"}
INITED = attr(S, "is_initialized")
HASATTR = call("hasattr", [S, const("is_initialized")])


def raw_call(e):
    """name of the raw dict mutator invoked explicitly on an options object, or None"""
    f = e.node.func if isinstance(e.node, ast.Call) else None
    if not isinstance(f, ast.Attribute) or f.attr not in RAW:
        return None
    v = f.value
    if isinstance(v, ast.Name) and v.id in ("dict", "MutableMapping"):
        return f.attr
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
        return f.attr
    return None


def run(p, rep):
    rep.rule("guarded-mutation", "every operation that changes an options object refuses to do so once initialization is complete, unless forced")
    rep.rule("no-forced-change", "forced changes, raw changes and resetting the freeze flag are applied only to private copies (or when loading with new options)")
    rep.rule("user-wins", "no default, file value or derived default is stored over an option the user set")
    rep.rule("validated", "the constructor validates option names against the files it loaded, before anything is evaluated, and freezes the options")
    rep.rule("unknown-refused", "a name that no configuration file declares raises an error")
    rep.rule("declared-read", "every option that is consulted or overridden is declared by a configuration file")
    rep.rule("honoured", "an option that takes effect is consulted: no stage works with a fixed value instead")
    guard(p, rep)
    sites(p, rep)
    precedence(p, rep)
    ctor(p, rep)
    validate(p, rep)
    loading(p, rep)
    reads(p, rep)


def guard(p, rep):
    c = p.classes.get("Options")
    if c is None:
        raise AnalysisBroken("class Options not found")
    n = 0
    for name, f in c.methods.items():
        if part_of_caller(p, f):
            continue                # a helper: analysed inside the operations that use it
        I = Interp(p, Config(path_sensitive=True, track_call=lambda x: True))
        force = sym("force") if "force" in f.params else None
        evs = {}
        for s, ctl, v in I.run(f):
            for e in s.events:
                if e.kind == "call" and raw_call(e):
                    evs.setdefault((id(e.node), frozenset(e.facts.items())), e)
        rep.used(I)
        for e in evs.values():
            base = e.sig[1][0] if e.sig[1] else None
            m = raw_call(e)
            if base is not None and base is not S and fresh(base):
                continue
            n += 1
            assume = {HASATTR: True, INITED: True}
            if force is not None:
                assume[force] = False
            bad = holds_with(I, e.facts, assume)
            rep.check(not bad, "guarded-mutation", f"Options.{name}: dict.{m}", e.where,
                      f"{name} changes initialized options (dict.{m} reached without the freeze check)")
    rep.at_least("raw mutations", n, 1)
    # inherited mutators
    mapping_first = False
    for b in c.bases:
        last = (b or "").split(".")[-1]
        if last == "MutableMapping":
            mapping_first = True
            break
        if last in ("dict", "OrderedDict", "UserDict"):
            break
    for m in sorted(RAW):
        if m in c.methods:
            rep.ok("guarded-mutation", f"Options.{m} defined", c.methods[m].where)
            continue
        ok = mapping_first and m in VIA and VIA[m] in c.methods
        rep.check(ok, "guarded-mutation", f"Options.{m} inherited", f"{c.mod.rel}:{c.node.lineno} (Options)",
                  f"{m} is inherited from dict and changes initialized options")


def is_options(I, t):
    return I.cls_of(t) == "Options"


def truthy(t):
    return t is not None and not (is_const(t) and not cval(t))


def sites(p, rep):
    n = 0
    for f, I, log in sweep(p):
        if part_of_caller(p, f):
            continue
        incls = f.cls is not None and f.cls.name == "Options"
        for e in log:
            if e.kind == "call":
                nm = e.sig[0]
                a, kw = list(e.sig[1]), dict(e.sig[2])
                if nm in ("Options.__setitem__", "Options.__delitem__") and a:
                    pos = 3 if nm.endswith("__setitem__") else 2
                    fo = kw.get("force") or (a[pos] if len(a) > pos else None)
                    if truthy(fo):
                        n += 1
                        rep.check(fresh(a[0]), "no-forced-change", f"{f.name}: forced {show(a[1], 3)}", e.where,
                                  f"{f.name} overwrites the user's options ({show(a[1], 3)}) instead of a private copy")
                elif raw_call(e) and not incls and a and is_options(I, a[0]):
                    n += 1
                    rep.check(fresh(a[0]), "no-forced-change", f"{f.name}: raw {raw_call(e)}", e.where, f"{f.name} bypasses the freeze check of the options")
            elif e.kind == "setidx" and is_options(I, e.sig[0]) and not incls:
                n += 1
                rep.check(fresh(e.sig[0]), "no-forced-change", f"{f.name}: options[{show(e.sig[1], 3)}]", e.where,
                          f"{f.name} assigns to the user's options")
            elif e.kind == "mutate" and not incls and is_options(I, e.sig[0]):
                n += 1
                rep.check(fresh(e.sig[0]) or f.qual == "VBMC.load", "no-forced-change", f"{f.name}: options.{e.sig[1]}", e.where, f"{f.name} changes the user's options")
            elif e.kind == "setattr" and e.sig[1] == "is_initialized" and is_options(I, e.sig[0]):
                n += 1
                v = e.sig[2]
                ok = (is_const(v) and cval(v) is True) or f.qual in ("Options.__init__", "VBMC.load") or fresh(e.sig[0]) \
                    or only_called_from(p, f, {"Options.__init__", "VBMC.load"})
                rep.check(ok, "no-forced-change", f"{f.name}: is_initialized", e.where, f"{f.name} lifts the freeze of the options")
    rep.at_least("option writes", n, 5)


def isself(t):
    while t.k == "upd":
        t = t.a[0]
    return t is S or (t.k == "loop" and len(t.a) > 1 and t.a[1] == "self")


# options that take effect in the pinned tree (an option removed from the configuration files is not expected to)
HONOURED = """
acq_hedge active_importance_sampling_box_samples active_importance_sampling_fess_thresh active_importance_sampling_mcmc_samples
active_importance_sampling_mcmc_thin active_importance_sampling_vp_samples active_sample_full_update_past_warmup
active_sample_full_update_threshold active_sample_gp_update active_sample_vp_update active_search_bound adaptive_k always_refit_vp
best_frac_back best_safe_sd bounded_transform box_search_frac cache_frac cache_size cov_sample_thresh det_entropy_alpha det_entropy_min_d
det_entropy_tol_opt display do_final_boost elbo_starts elcbo_impro_weight elcbo_midpoint entropy_force_switch entropy_switch f_vals
fitness_shaping fun_eval_start fun_evals_per_iter gp_hyp_sampler gp_int_mean_fun gp_length_prior_mean gp_length_prior_std gp_mean_fun
gp_quadratic_mean_bound gp_retrain_threshold gp_sample_thin gp_sample_widths gp_tol_opt gp_tol_opt_active gp_tol_opt_mcmc
gp_tol_opt_mcmc_active gp_train_init_method gp_train_n_init gp_train_n_init_final heavy_tail_search_frac hpd_frac hpd_search_frac
hyp_run_weight incremental_warp_delay init_design integer_vars k_fun_max k_warmup kl_gauss log_file_level log_file_mode log_file_name
max_fun_evals max_iter max_iter_stochastic max_repeated_observations min_final_components min_fun_evals min_iter moments_run_weight
mvn_search_frac noise_shaping noise_size ns_elbo ns_elbo_incr ns_ent ns_ent_active ns_ent_boost ns_ent_fast ns_ent_fast_active
ns_ent_fast_boost ns_ent_fine ns_ent_fine_active ns_ent_fine_boost ns_gp_max ns_gp_max_main ns_gp_max_warmup ns_search out_warp_thresh_base
out_warp_thresh_mult out_warp_thresh_tol plot print_iteration_header proposal_fcn pruning_threshold_multiplier recompute_lcb_max
search_acq_fcn search_cache_frac search_cmaes_vp_init search_max_fun_evals search_optimizer separate_search_gp sgd_step_size
skip_active_sampling_after_warmup specify_target_noise stable_gp_samples stable_gp_sampling stable_gp_vp_k stochastic_optimizer
stop_warmup_reliability stop_warmup_thresh tol_bound_x tol_con_loss tol_cov_weight tol_fun_stochastic tol_gp_noise tol_gp_var
tol_gp_var_mcmc tol_improvement tol_length tol_sd tol_skl tol_stable_count tol_stable_entropy_iters tol_stable_excpt_frac tol_stable_warmup
tol_weight true_cov true_mean uncertainty_handling update_random_alpha upper_gp_length_factor variable_means variable_weights warmup
warmup_check_max warmup_keep_threshold warmup_keep_threshold_false_alarm warmup_no_impro_threshold warp_cov_reg warp_every_iters warp_min_k
warp_roto_corr_thresh warp_rotoscaling warp_tol_improvement warp_tol_reliability warp_tol_sd_base warp_tol_sd_multiplier warp_undo_check
weight_penalty weighted_hyp_cov
"""
USERSET = idx(S, const("useroptions"))


def setkeys(p, f, rep):
    """[(key term, value, event)] of stores into the options made by f"""
    I = Interp(p, Config(path_sensitive=True, track_store=lambda b, k: True, track_call=lambda n: n in ("dict.update", "Options.__setitem__")))
    out = []
    for s, ctl, v in I.run(f):
        out.append((s, [e for e in s.events]))
    rep.used(I)
    return I, out


def user_check(e, key):
    """the store is made under 'key not in useroptions'"""
    for t, v in e.facts.items():
        if t.k == "cmp" and t.a[0] == "in" and strip(t.a[1]) is strip(key) and v is False and about_user(t.a[2]):
            return True
        if t.k == "not" and t.a[0].k == "cmp" and t.a[0].a[0] == "in" and strip(t.a[0].a[1]) is strip(key) and v is True and about_user(t.a[0].a[2]):
            return True
    return False


def about_user(t):
    return contains(t, lambda x: is_const(x) and cval(x) == "useroptions")


def precedence(p, rep):
    n = 0
    for nm in ("load_options_file", "update_defaults"):
        f = p.func("Options." + nm)
        I, outs = setkeys(p, f, rep)
        seen = 0
        for s, evs in outs:
            for e in evs:
                key = None
                if e.kind == "setidx" and isself(e.sig[0]):
                    key = e.sig[1]
                elif e.kind == "call" and e.sig[0] == "Options.__setitem__" and isself(e.sig[1][0]):
                    key = e.sig[1][1]
                elif e.kind == "call" and e.sig[0] == "dict.update" and isself(e.sig[1][0]):
                    seen += 1
                    arg = e.sig[1][1] if len(e.sig[1]) > 1 else None
                    filt = arg is not None and arg.k == "comp" and contains(arg, lambda x: is_const(x) and cval(x) == "useroptions")
                    rep.check(filt, "user-wins", f"{nm}: bulk update", e.where, f"{nm} stores defaults without leaving out the options the user set")
                    continue
                if key is None:
                    continue
                seen += 1
                rep.check(user_check(e, key), "user-wins", f"{nm}: {show(strip(key), 3)[:60]}", e.where,
                          f"{nm} stores a default for {show(key, 3)} without checking that the user did not set it")
        n += seen
        rep.check(seen > 0, "user-wins", f"{nm}: stores", f.where, f"{nm} stores nothing")
    f = p.func("Options.__init__")
    I = Interp(p, Config(path_sensitive=True, track_store=lambda b, k: True,
                         track_call=lambda n: n in ("dict.update", "Options.load_options_file", "Options.__setitem__", "Options.update_defaults")))
    U = sym("user_options")
    hasU = lambda t: contains(t, lambda x: x is U)
    looped = False
    results = []
    for s, ctl, v in I.run(f):
        if ctl != "return":
            continue
        if s.facts.get(mk("cmp", "is", U, NONE)) is True:
            continue
        put = reg = loads = uset = None
        for i, e in enumerate(s.events):
            if e.kind == "call" and e.sig[0] == "Options.load_options_file":
                loads = i
            elif e.kind in ("call", "mutate") and len(e.sig) > 1:
                a = e.sig[1] if e.kind == "call" else (e.sig[0],) + tuple(e.sig[2])
                if a and isself(a[0]) and any(hasU(x) for x in a[1:]) and (e.sig[0] in ("dict.update", "Options.__setitem__") or e.sig[1] == "update"):
                    put = i
                elif a and (about_user(a[0]) or a[0] is uset) and any(hasU(x) for x in a[1:]):
                    reg = i if reg is None else reg
            elif e.kind == "setidx" and isself(e.sig[0]):
                if is_const(e.sig[1]) and cval(e.sig[1]) == "useroptions":
                    uset = e.sig[2]
                    reg = i if hasU(e.sig[2]) else reg
                elif hasU(e.sig[1]) or hasU(e.sig[2]):
                    put = i
        falsy = any(hasU(t) and v2 is False for t, v2 in s.facts.items() if t is U)
        if falsy:
            continue
        looped |= any(x is not None and s.events[x].loops for x in (put, reg))
        results.append((put, reg, loads))
    for put, reg, loads in results:
        if looped and put is None and reg is None:
            continue            # the loop over the user's options did not execute
        if rep.check(put is not None, "user-wins", "init: user values stored", f.where, "the user's options are not stored"):
            rep.check(loads is None or put > loads or (reg is not None and reg < loads), "user-wins", "init: stored after defaults", f.where,
                      "default options are loaded over the user's values")
        rep.check(reg is not None, "user-wins", "init: user names registered", f.where, "the names set by the user are not remembered, so later files override them")
    rep.used(I)
    rep.at_least("default stores", n, 2)


def ctor(p, rep):
    f = p.func("VBMC.__init__")
    I = Interp(p, Config(track_call=lambda n: n in ("Options", "Options.load_options_file", "Options.update_defaults", "Options.validate_option_names",
                                                    "FunctionLogger", "VBMC._init_log_joint", "VBMC._bounds_check", "?call")))
    n = 0
    for s, ctl, v in I.run(f):
        if ctl != "return":
            continue
        n += 1
        evs = [e for e in s.events if e.kind == "call"]
        name = lambda e: e.sig[0]
        pos = {}
        for i, e in enumerate(evs):
            pos.setdefault(name(e), []).append(i)
        o = pos.get("Options", [])
        val = pos.get("Options.validate_option_names", [])
        if not rep.check(len(o) >= 1, "validated", "options built", f.where, "no options object is built"):
            continue
        eo = evs[o[0]]
        b = bind(p, "Options", list(eo.sig[1]), list(eo.sig[2]))
        rep.check(b.get("user_options") is sym("options"), "user-wins", "constructor: user options passed", eo.where, "the user's options are not handed to the options object")
        if not rep.check(bool(val), "validated", "names validated", f.where, "a path through the constructor does not validate option names"):
            continue
        ev = evs[val[-1]]
        late = [e for i, e in enumerate(evs) if i > val[0] and name(e) in ("Options.load_options_file", "Options.update_defaults")]
        rep.check(not late, "validated", "validated last", late[0].where if late else f.where, "options are changed after their names were validated")
        use = [i for k in ("FunctionLogger",) for i in pos.get(k, [])]
        rep.check(not use or min(use) > val[-1], "validated", "validated before use", ev.where, "options are used before their names are validated")
        lst = ev.sig[1][1] if len(ev.sig[1]) > 1 else dict(ev.sig[2]).get("options_paths")
        files = [strip(b.get("default_options_path", NONE))]
        lit = []
        for e in evs:
            if name(e) == "Options.load_options_file":
                a = strip(e.sig[1][1]) if len(e.sig[1]) > 1 else strip(dict(e.sig[2]).get("options_path", NONE))
                files.append(a)
                if is_const(a):
                    lit.append(evs.index(e))
        if lst is not None and lst.k in ("lst", "tup"):
            have = {strip(x) for x in lst.a}
            for x in files:
                rep.check(x in have, "validated", f"file {show(x)} allowed", ev.where, f"names of {show(x)} are not among the validated ones")
            rep.check(have <= set(files), "unknown-refused", "no other names allowed", ev.where,
                      f"names of files that were not loaded are accepted: {[show(x) for x in have - set(files)]}")
        ud = pos.get("Options.update_defaults", [])
        rep.check(bool(ud) and (not lit or min(ud) > max(lit)), "user-wins", "derived defaults after files", f.where,
                  "derived defaults are computed before the default files are loaded (and are overwritten by them)")
    rep.used(I)
    rep.at_least("constructor paths", n, 1)


def validate(p, rep):
    f = p.func("Options.validate_option_names")
    I = Interp(p, Config(path_sensitive=True, track_raise=True, track_store=lambda b, k: True, track_call=lambda n: True))
    raises, rets = [], 0
    for s, ctl, v in I.run(f):
        if ctl == "return":
            rets += 1
            x = s.store.get(INITED)
            rep.check(x is not None and is_const(x) and cval(x) is True, "validated", "freeze flag", f.where,
                      "options are not frozen after their names were validated")
        for e in s.events:
            if e.kind == "raise":
                raises.append(e)
    rep.used(I)
    good = []
    weak = []
    for e in raises:
        isuser = lambda t: t.k == "cmp" and t.a[0] == "in" and about_user(t.a[2]) and not contains(t.a[2], lambda x: x.k == "call" and "read" in x.a[0])
        notin = [t for t, v in e.facts.items() if v is False and t.k == "cmp" and t.a[0] == "in" and not isuser(t)]
        diff = [t for t, v in e.facts.items() if v is True and t.k not in ("not", "cmp", "and", "or") and
                contains(t, lambda x: x.k == "bin" and x.a[0] == "-" or (x.k == "call" and "difference" in x.a[0]))]
        if notin or diff:
            el = notin[0].a[1] if notin else None
            extra = []
            if el is not None:
                for t, v in e.facts.items():
                    if t.k in ("not", "and", "or", "inv") or t in notin:
                        continue
                    if contains(t, lambda x: x is el) and not (t.k == "cmp" and t.a[0] == "eq" and any(is_const(y) and cval(y) == "useroptions" for y in t.a[1:])) \
                            and not (about_user(t) and t.k == "cmp" and t.a[0] == "in" and v is True):
                        extra.append(t)
            (weak if extra else good).append((e, extra))
        elif not any(v is False or v is True for t, v in e.facts.items()):
            pass
    if not good and weak:
        rep.bad("unknown-refused", "validate: condition", weak[0][0].where, f"an unknown name is refused only if also {show(weak[0][1][0], 4)}")
    elif not good and not raises:
        rep.bad("unknown-refused", "validate: raises", f.where, "no unknown option name is ever refused")
    elif good:
        rep.ok("unknown-refused", "validate: raises", good[0][0].where)
    else:
        rep.notes.append("validate_option_names: refusal condition not recognized")
    rep.at_least("validation paths", rets, 1)


def loading(p, rep):
    f = p.func("VBMC.load")
    I = Interp(p, Config(track_store=lambda b, k: k == "is_initialized" or (b is not None and I.cls_of(b) == "Options"),
                         track_call=lambda n: n in ("dict.update", "Options.__setitem__")))
    U = sym("new_options")
    hasU = lambda t: contains(t, lambda x: x is U)
    n = 0
    for s, ctl, v in I.run(f):
        if ctl != "return":
            continue
        for e in s.events:
            if e.kind == "setattr" and e.sig[1] == "is_initialized":
                last = e
        fl = [e for e in s.events if e.kind == "setattr" and e.sig[1] == "is_initialized"]
        if fl:
            x = fl[-1].sig[2]
            rep.check(is_const(x) and cval(x) is True, "no-forced-change", "load: frozen again", fl[-1].where, "loading leaves the options unfrozen")
        ups = [e for e in s.events if (e.kind == "call" and e.sig[0] in ("dict.update", "Options.__setitem__") and any(hasU(x) for x in e.sig[1][1:]))
               or (e.kind == "setidx" and is_options(I, e.sig[0]) and (hasU(e.sig[1]) or hasU(e.sig[2])))]
        n += len(ups)
    rep.used(I)
    checked = False
    J = Interp(p, Config(path_sensitive=True, track_raise=True, cap=2000, track_call=lambda n: n in ("Options.validate_option_names",)))
    for s, ctl, v in J.run(f):
        for e in s.events:
            if e.kind == "raise" and any((t.k == "cmp" and t.a[0] == "in" and v2 is False and hasU(t.a[1])) or
                                         (hasU(t) and t.k not in ("not", "cmp") and contains(t, lambda x: (x.k == "bin" and x.a[0] == "-") or
                                          (x.k == "call" and "difference" in x.a[0]) or (x.k == "cmp" and x.a[0] == "in")))
                                         for t, v2 in e.facts.items()):
                checked = True
            if e.kind == "call":
                checked = True
    if n:
        rep.check(checked, "unknown-refused", "load: new options", f.where, "option names passed when loading are not checked against the declared ones")
    rep.count("option updates on load", n)


def reads(p, rep):
    names = set(ini_names(p)) | {"useroptions"}
    rep.at_least("declared options", len(names), 100)
    n = 0
    consulted = set()
    for f, I, log in sweep(p):
        for e in log:
            key = None
            if e.kind == "getidx" and is_options(I, e.sig[0]):
                key = e.sig[1]
            elif e.kind == "call" and e.sig[0] in ("Options.eval", "Options.__getitem__", "Options.__setitem__") and len(e.sig[1]) > 1:
                key = e.sig[1][1]
            elif e.kind == "setidx" and is_options(I, e.sig[0]):
                key = e.sig[1]
            elif e.kind == "op" and e.sig[0] in ("in", "In", "NotIn", "notin") and is_options(I, e.sig[2]):
                key = e.sig[1]
            if key is None:
                continue
            for k in alts(key):
                if is_const(k) and isinstance(cval(k), str):
                    n += 1
                    if e.kind != "setidx" and e.sig[0] != "Options.__setitem__" and (f.cls is None or f.cls.name != "Options"):
                        consulted.add(cval(k))
                    rep.check(cval(k) in names, "declared-read", f"option {cval(k)}", e.where, f"option '{cval(k)}' is declared by no configuration file")
    # derived defaults
    f = p.func("Options.update_defaults")
    for nd in ast.walk(f.node):
        if isinstance(nd, ast.Dict):
            for k in nd.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    n += 1
                    rep.check(k.value in names, "declared-read", f"update_defaults: {k.value}", f.where, f"derived default for undeclared option '{k.value}'")
    rep.at_least("option accesses", n, 100)
    ini = names & set(HONOURED.split())
    rep.count("options honoured", len(ini & consulted))
    for k in sorted(ini):
        if k in consulted:
            rep.ok("honoured", f"option {k}")
        elif mentioned(p, k):
            rep.notes.append(f"option {k}: consulted in a way that is not recognised")
        else:
            rep.bad("honoured", f"option {k}", "", f"no stage consults option '{k}' any more: the value the user sets is ignored")


def mentioned(p, k):
    """the name occurs in a literal collection, or indexes something that may be an options object"""
    for f in p.all_func_nodes():
        if f.cls is not None and f.cls.name == "Options":
            continue
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Tuple, ast.List, ast.Set)) and any(isinstance(y, ast.Constant) and y.value == k for y in x.elts):
                return True
            if isinstance(x, ast.Dict) and any(isinstance(y, ast.Constant) and y.value == k for y in list(x.keys) + list(x.values) if y is not None):
                return True
            base = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant) and x.slice.value == k:
                base = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == k:
                if x.func.attr == "__setitem__":
                    continue
                base = x.func.value
            elif isinstance(x, ast.Call) and any(isinstance(y, ast.Constant) and y.value == k for y in list(x.args) + [q.value for q in x.keywords]):
                return True
            if base is not None:
                nm = base.id if isinstance(base, ast.Name) else base.attr if isinstance(base, ast.Attribute) else ""
                if nm not in ("optim_state", "iteration_history", "hyp_dict"):
                    return True
    return False


def alts(k):
    if k.k == "ite":
        return alts(k.a[1]) + alts(k.a[2])
    if k.k == "phi":
        return [y for x in k.a[2] for y in alts(x)]
    return [k]
