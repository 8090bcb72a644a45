V="vbmc/vbmc.py"; F="function_logger/function_logger.py"; H="vbmc/iteration_history.py"
MK='''
import numpy as np, copy, os, sys
from pyvbmc import VBMC
def make(D=2, bounded=False, **options):
    opts = {"display": "off"}; opts.update(options)
    f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
    lb, ub = (np.full((1, D), -10.0), np.full((1, D), 10.0)) if bounded else (None, None)
    return VBMC(f, np.zeros((1, D)), lb, ub, -np.ones((1, D)), np.ones((1, D)), options=opts)
'''
SEEDS=[
dict(id="c01-count-before-call", property="C01",
 edits=[(F,'''        timer.start_timer("fun_time")
        try:
''','''        self.func_count += 1
        timer.start_timer("fun_time")
        try:
'''),(F,'''        self.func_count += 1
        f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, funtime)
''','''        f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, funtime)
''')],
 demo='''
import numpy as np
from pyvbmc.function_logger import FunctionLogger
calls = []
def f(x):
    calls.append(1)
    if len(calls) == 3:
        return np.nan
    return float(np.sum(x))
fl = FunctionLogger(f, 2, False, 0)
for i in range(4):
    try:
        fl(np.array([i + 0.5, 1.0]))
    except ValueError:
        pass
n = int(np.sum(fl.n_evals[fl.X_flag]))
assert n == 3, n
assert fl.func_count == n, f"{fl.func_count} evaluations counted, {n} recorded"
''', needs="a target call that raises or returns an invalid value, after which the run goes on",
 what="an evaluation that fails validation is counted although nothing was recorded", tests=["function_logger"]),
dict(id="c02-finalize-noise-rows", property="C02",
 edits=[(F,'''        if self.noise_flag:
            self.S = self.S[: self.Xn + 1]
        self.X_flag = self.X_flag[: self.Xn + 1]
''','''        if self.noise_flag and self.uncertainty_handling_level == 2:
            self.S = self.S[: self.Xn + 1]
        self.X_flag = self.X_flag[: self.Xn + 1]
''')],
 demo='''
import numpy as np
from pyvbmc.function_logger import FunctionLogger
for level in (1, 2):
    f = (lambda x: float(np.sum(x))) if level == 1 else (lambda x: (float(np.sum(x)), 0.5))
    fl = FunctionLogger(f, 2, True, level, cache_size=20)
    for i in range(5):
        fl(np.array([i + 0.5, 1.0]))
    fl.finalize()
    n = fl.X.shape[0]
    for name in ("X_orig", "y", "y_orig", "S", "X_flag", "n_evals", "fun_eval_time"):
        assert getattr(fl, name).shape[0] == n, (level, name, getattr(fl, name).shape, n)
    fl.S[fl.X_flag]
''', needs="a noisy target with noise of unknown size (uncertainty handling level 1)",
 what="finalize leaves the noise column longer than the others", tests=["function_logger"]),
dict(id="c07-history-shallow", property="C07",
 edits=[(H,"            self[key][iteration] = copy.deepcopy(value)\n",'''            if isinstance(value, dict):
                self[key][iteration] = dict(value)
            else:
                self[key][iteration] = copy.deepcopy(value)
''')],
 demo='''
import numpy as np
from pyvbmc.vbmc.iteration_history import IterationHistory
h = IterationHistory(["optim_state", "vp"])
state = {"lb_search": np.zeros((1, 2)), "cache": {"x": [1]}}
h.record("optim_state", state, 0)
state["lb_search"][0, 0] = 5.0
state["cache"]["x"].append(2)
h.record_iteration({"optim_state": state}, 1)
assert h["optim_state"][0]["lb_search"][0, 0] == 0.0, "an earlier record changed"
assert h["optim_state"][0]["cache"]["x"] == [1], "an earlier record changed"
''', needs="a recorded dictionary whose arrays or nested containers are modified in place afterwards",
 what="the recorded optimization state shares its arrays with the live one", tests=["vbmc/test_iteration_history.py"]),
dict(id="c08-train-size-last", property="C08",
 edits=[(V,'self.iteration_history["n_eff"][idx_best]','self.optim_state["n_eff"]')],
 demo=MK+'''
v = make(bounded=True)
h = v.iteration_history
for i in range(3):
    h.record_iteration({"iter": i, "n_eff": 10 + i, "r_index": 0.1 * i, "stable": i == 1, "vp": v.vp, "elbo": 1.0, "elbo_sd": 0.1}, i)
v.optim_state["iter"] = 2
v.optim_state["n_eff"] = 12
v.vp.stats = {"elbo": 1.0, "elbo_sd": 0.1, "stable": True}
r = v._create_result_dict(1, "done", True)
assert r["best_iter"] == 1 and r["r_index"] == 0.1
assert r["train_set_size"] == 11, f"training set size {r['train_set_size']} reported for iteration 1, which had 11"
''', needs="a run whose selected iteration is not the last one", what="the reported training set size is that of the last, not of the returned solution's iteration", tests=[]),
dict(id="c12-load-keeps-log", property="C12",
 edits=[(V,'["gp", "vp", "function_logger", "optim_state"]','["gp", "vp", "optim_state"]')],
 demo='''
import numpy as np
from pyvbmc import VBMC
fn = "pyvbmc/testing/vbmc/test_vbmc_save_static.pkl"
for k in (0, 2, 5):
    v = VBMC.load(fn, iteration=k)
    assert v.iteration == k
    assert v.function_logger.func_count == v.iteration_history["func_count"][k], (k, v.function_logger.func_count, v.iteration_history["func_count"][k])
''', needs="loading a saved run at an earlier iteration than the last", what="the evaluation log of a later iteration is kept, out of step with surrogate and posterior", tests=["vbmc/test_vbmc_save_and_load.py"]),
dict(id="c24-rank-ignores-sd", property="C24",
 edits=[(V,'''                    : max_idx + 1
                ]
                elcbo = lnZ_iter - safe_sd * lnZsd_iter
                order = elcbo.argsort()[::-1]
''','''                    : max_idx + 1
                ]
                elcbo = lnZ_iter - 5 * lnZsd_iter
                order = elcbo.argsort()[::-1]
''')],
 demo=MK+'''
v = make()
h = v.iteration_history
v.vp.stats = {}
elbo = [0.0, 0.0, 3.0, 2.0]
sd = [9.0, 9.0, 1.0, 0.1]
for i in range(4):
    h.record_iteration({"iter": i, "stable": False, "vp": v.vp, "elbo": elbo[i], "elbo_sd": sd[i], "r_index": [9.0, 8.0, 1.0, 2.0][i]}, i)
vp, e, s, i = v.determine_best_vp(safe_sd=0.0, rank_criterion_flag=True)
# ranks (recency, lower bound, reliability): iteration 2: 2+1+1, iteration 3: 1+2+2
assert i == 2, f"iteration {i} selected; iteration 2 has the lowest rank sum when the uncertainty weight is zero"
''', needs="rank-based selection with another uncertainty weight than the default", what="the caller's uncertainty weight is ignored by the rank criterion",
 tests=["vbmc/test_vbmc_determine_best_vp.py"]),
dict(id="c10-hyp-dict-shared", property="C10",
 edits=[(V,"                hyp_dict_old = copy.deepcopy(self.hyp_dict)\n","                hyp_dict_old = copy.copy(self.hyp_dict)\n                hyp_dict_old.update(self.hyp_dict)\n"),
        (V,"                # Compute and apply whitening transform:\n","                hyp_dict_old = self.hyp_dict\n                # Compute and apply whitening transform:\n")],
 demo='''
import numpy as np, copy
from pyvbmc import VBMC
import pyvbmc.vbmc.vbmc as M
np.random.seed(3)
P = np.linalg.inv(np.array([[1, 0.9], [0.9, 1]]))
f = lambda x: float(-0.5 * np.ravel(x) @ P @ np.ravel(x))
o = dict(display="off", warmup=False, max_iter=4, warp_min_k=2, warp_every_iters=1, warp_tol_reliability=1e9,
         warp_tol_improvement=1e6, warp_rotoscaling=True, min_iter=0, ns_gp_max=2, do_final_boost=False)
v = VBMC(f, np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)), options=o)
seen = {}
warp, sample = M.warp_input, M.active_sample
def before(*a, **k):
    seen["hyp"] = copy.deepcopy(v.hyp_dict)
    seen["y"] = v.function_logger.y.copy()
    seen["n"] = seen.get("n", 0) + 1
    return warp(*a, **k)
def after(*a, **k):
    if "hyp" in seen:
        old, new = seen.pop("hyp"), v.hyp_dict
        for key in old:
            if isinstance(old[key], np.ndarray):
                assert np.array_equal(old[key], new[key], equal_nan=True), f"hyp_dict[{key!r}] differs after the trial was undone"
        assert np.array_equal(seen["y"], v.function_logger.y, equal_nan=True)
    return sample(*a, **k)
M.warp_input, M.active_sample = before, after
v.optimize()
assert seen.get("n"), "no trial happened"
''', needs="a rejected trial re-parameterization", what="the hyperparameter store keeps the values of the rejected trial", tests=[]),
dict(id="c09-failed-warp-delays-stop", property="C09",
 edits=[(V,'''                        - self.optim_state.get("last_successful_warping", 0)
''','''                        - self.optim_state.get("last_warping", 0)
''')],
 demo=MK+'''
v = make(D=2, fun_evals_per_iter=5, tol_stable_count=60, min_iter=0, min_fun_evals=0, max_iter=100, max_fun_evals=1000)
n = 30
h = v.iteration_history
for i in range(n + 1):
    h.record_iteration({"iter": i, "elbo": -1.0, "elbo_sd": 1e-4, "sKL": 1e-5, "r_index": 0.01, "func_count": 10 + 5 * i, "stable": False}, i)
v.optim_state["iter"] = n
v.iteration = n
v.optim_state["sn2_hpd"] = 1e-4
v.optim_state["entropy_switch"] = False
v.logging_action = []
v.optim_state["last_successful_warping"] = -np.inf
v.optim_state["last_warping"] = n      # a trial was rejected in this iteration
done, message = v._check_termination_conditions()
assert h["stable"][n]
assert done, "a stable solution does not end the run because of a rejected trial"
''', needs="a stable solution shortly after a rejected re-parameterization", what="rejected trials postpone termination", tests=["vbmc/test_vbmc_loop_termination.py"]),
dict(id="c05-none-loses", property="C05",
 edits=[("vbmc/options.py",'''            if key not in self.get("useroptions") and key != "useroptions":
''','''            if (
                key not in self.get("useroptions") or self.get(key) is None
            ) and key != "useroptions":
''')],
 demo=MK+'''
v = make(warmup_keep_threshold_false_alarm=None, temperature=None)
assert v.options["warmup_keep_threshold_false_alarm"] is None
for key in ("tol_gp_var", "plot"):
    w = make(**{key: None})
    assert w.options[key] is None, f"the user's {key}=None was replaced by {w.options[key]!r}"
''', needs="a user option explicitly set to None", what="the default wins over the user's value", tests=["vbmc/test_options.py"]),
dict(id="c06-skip-flag-renamed", property="C06",
 edits=[(V,'''        self.optim_state["skip_active_sampling"] = self.options.get(
            "skip_active_sampling_after_warmup"
        )
''','''        self.optim_state["skip_sampling"] = self.options.get(
            "skip_active_sampling_after_warmup"
        )
''')],
 demo=MK+'''
v = make(skip_active_sampling_after_warmup=True)
for i in range(8):
    v.function_logger(np.array([0.1 * i, 0.2]))
v.optim_state["iter"] = 3
v.optim_state["N"] = 8
v.iteration = 3
v.logging_action = []
v.iteration_history.record_iteration({"iter": 3, "r_index": 0.1, "lcb_max": 0.0}, 3)
v.optim_state["skip_active_sampling"] = False
v._setup_vbmc_after_warmup()
assert not v.optim_state["warmup"]
assert v.optim_state["skip_active_sampling"] is True, "the flag the main loop reads was not set"
''', needs="the option skip_active_sampling_after_warmup switched on", what="the request to skip sampling is stored under a name nobody reads", tests=["vbmc/test_vbmc_loop_termination.py"]),
dict(id="c26-hpd-arity", property="C26",
 edits=[("vbmc/active_sample.py",'''                        X_hpd = get_hpd(gp.X, gp.y, options["hpd_frac"])[0]
''','''                        X_hpd, _, _ = get_hpd(
                            gp.X, gp.y, options["hpd_frac"]
                        )
''')],
 demo='''
import numpy as np
from pyvbmc import VBMC
np.random.seed(1)
f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
v = VBMC(f, np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)),
         options=dict(display="off", max_iter=2, min_iter=0, ns_gp_max=2, do_final_boost=False, search_cmaes_vp_init=False))
vp, res = v.optimize()
assert np.isfinite(res["elbo"])
''', needs="the non-default option search_cmaes_vp_init=False", what="a result is unpacked into one value too few", tests=[]),
dict(id="c03-mtv-space", property="C03",
 edits=[("variational_posterior/variational_posterior.py",'''        xx1, _ = self.sample(N, True, True)
        if vp2 is not None:
            xx2, _ = vp2.sample(N, True, True)
''','''        xx1, _ = self.sample(N, vp2 is None, True)
        if vp2 is not None:
            xx2, _ = vp2.sample(N, False, True)
''')],
 demo='''
import numpy as np
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior
np.random.seed(0)
def vp(lo, hi):
    p = ParameterTransformer(1, np.full((1, 1), lo), np.full((1, 1), hi))
    v = VariationalPosterior(1, 1, np.zeros((1, 1)), p)
    v.mu = np.zeros((1, 1)); v.sigma = 0.5 * np.ones((1, 1)); v.lambd = np.ones((1, 1)); v.w = np.ones((1, 1))
    return v
a, b = vp(0.0, 1.0), vp(10.0, 11.0)
d = a.mtv(b, N=2000)
assert np.all(d > 0.9), f"total variation {d} between posteriors with disjoint supports"
''', needs="two posteriors with different bounds (transforms)", what="distances compare inference-space samples of different transforms", tests=["variational_posterior"]),
]
