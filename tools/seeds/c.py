V="vbmc/vbmc.py"; O="vbmc/variational_optimization.py"; F="function_logger/function_logger.py"; AS="vbmc/active_sample.py"
MK='''
import numpy as np, copy, os, sys
from pyvbmc import VBMC
def make(D=2, bounded=False, **options):
    opts = {"display": "off"}; opts.update(options)
    f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
    lb, ub = (np.full((1, D), -10.0), np.full((1, D), 10.0)) if bounded else (None, None)
    return VBMC(f, np.zeros((1, D)), lb, ub, -np.ones((1, D)), np.ones((1, D)), options=opts)
'''
ACT='''
import numpy as np, copy, sys
from pyvbmc import VBMC
mod = sys.modules["pyvbmc.vbmc.active_sample"]
from pyvbmc.vbmc.gaussian_process_train import train_gp
from pyvbmc.acquisition_functions import AbstractAcqFcn
def setup(**options):
    opts = {"display": "off", "fun_eval_start": 12}; opts.update(options)
    calls = []
    def f(x):
        calls.append(np.copy(x)); return float(-0.5 * np.sum(np.ravel(x) ** 2))
    np.random.seed(3)
    vbmc = VBMC(f, np.zeros((1, 2)), None, None, -3 * np.ones((1, 2)), 3 * np.ones((1, 2)), options=opts)
    st, fl = vbmc.optim_state, vbmc.function_logger
    mod.active_sample(None, 12, st, fl, vbmc.iteration_history, vbmc.vp, vbmc.options)
    st["N"] = fl.Xn + 1
    st["n_eff"] = np.sum(fl.n_evals[fl.X_flag])
    gp, _, _, hyp = train_gp({}, st, fl, vbmc.iteration_history, vbmc.options, st["plb_tran"], st["pub_tran"])
    st["hyp_dict"] = hyp
    st["vp_repo"] = []
    return vbmc, gp, calls
'''
SEEDS=[
dict(id="c27-optimistic-improvement", property="C27",
 edits=[(V,'''            elcbo_vec = self.iteration_history.get("elbo") - self.options.get(
''','''            elcbo_vec = self.iteration_history.get("elbo") + self.options.get(
''')],
 demo=MK+'''
vbmc = make(fun_evals_per_iter=5, warmup_no_impro_threshold=1e9)
n = 31
vbmc.optim_state["iter"] = n - 1
vbmc.optim_state["N"] = 500
vbmc.optim_state["data_trim_list"] = []
vbmc.function_logger.func_count = 150
h = vbmc.iteration_history
h["lcb_max"] = np.ones(n)
h["func_count"] = 5.0 * np.arange(n)
h["elbo"] = np.zeros(n)
h["elbo_sd"] = 100.0 - 3.0 * np.arange(n)       # uncertainty still shrinking fast
assert not vbmc._check_warmup_end_conditions(), "the pessimistic ELBO is still improving"
h["elbo_sd"] = np.ones(n)
assert vbmc._check_warmup_end_conditions()
''',
 needs="an uncertainty that changes over the stability window, which tests with a constant one do not show",
 what="warm-up ends while the pessimistic ELBO still improves",
 tests=["vbmc/test_vbmc_loop_termination.py"]),
dict(id="c27-final-trim-distance", property="C27",
 edits=[(V,"""            threshold = self.options.get("warmup_keep_threshold") * (
                len(self.optim_state.get("data_trim_list")) + 1
            )
            self.optim_state["last_warmup"] = iteration
""","""            threshold = self.options.get("warmup_keep_threshold") * (
                min(1, len(self.optim_state.get("data_trim_list")) + 1)
            )
            self.optim_state["last_warmup"] = iteration
""")],
 demo=MK+'''
for trims, kept_from in (([], 5), ([30], 2)):
    vbmc = make(D=2, fun_evals_per_iter=5, warmup_keep_threshold=10.0)
    vbmc.optim_state["iter"] = 3
    vbmc.optim_state["N"] = 60
    vbmc.optim_state["data_trim_list"] = trims
    vbmc.iteration_history["r_index"] = np.zeros(4)
    for i in range(9):
        vbmc.function_logger.add(np.ones(2) * 0.1 * i, 0.5 + 3.3 * i)
    vbmc._setup_vbmc_after_warmup()
    kept = np.flatnonzero(vbmc.function_logger.X_flag)
    assert list(kept) == list(range(kept_from, 9)), (trims, kept)
''',
 needs="a warm-up that ends after an earlier trimming",
 what="points within the widened distance of the best value are trimmed",
 tests=["vbmc/test_vbmc_loop_termination.py"]),
dict(id="c28-cap-shrinks", property="C28",
 edits=[(O,'''        K_new = max(optim_state["vp_K"], min(K_new, K_max))
''','''        K_new = min(K_new, K_max)
''')],
 demo='''
import numpy as np
from pyvbmc.vbmc.variational_optimization import update_K
class Opt(dict):
    def eval(self, k, a): return self[k](**a)
opt = Opt(k_fun_max=lambda N: N ** (2 / 3), adaptive_k=lambda unkn: 2, tol_stable_count=60, fun_evals_per_iter=5, elcbo_impro_weight=3)
h = dict(elbo=np.arange(20.0), elbo_sd=np.zeros(20), warmup=np.array([True] * 5 + [False] * 15),
         pruned=np.zeros(20), r_index=np.full(20, 0.1))
# the number of effective training points shrank (data trimmed): the cap is below the current number
st = dict(vp_K=9, n_eff=8, warmup=False, iter=19, recompute_var_post=False)
K = update_K(st, h, opt)
assert K == 9, K
''',
 needs="a cap that fell below the current number of components, as after trimming or duplicated noisy points",
 what="components are thrown away without the pruning test",
 tests=["vbmc/test_variational_optimization.py"]),
dict(id="c28-boost-prunes", property="C28",
 edits=[(V,"""            options.__setitem__("tol_weight", 0, force=True)
""","""            options.get("tol_weight", 0)
""")],
 demo=MK+'''
import pyvbmc.vbmc.vbmc as mod
seen = []
def stub(options, optim_state, vp, gp, n_fast, n_slow, K):
    seen.append((options["tol_weight"], K))
    vp.stats = dict(elbo=0.0, elbo_sd=0.0, stable=True)
    return vp, 0, 0
mod.optimize_vp = stub
vbmc = make(tol_weight=0.3, min_final_components=40)
vbmc.vp.stats = dict(elbo=0.0, elbo_sd=0.0, stable=True)
vbmc.optim_state["n_eff"] = 10
vbmc.final_boost(vbmc.vp, None)
assert seen == [(0, 40)], seen
''',
 needs="a final boost of a posterior with light components",
 what="the final optimization prunes the components it was asked to add",
 tests=["vbmc/test_vbmc_finalboost.py"]),
dict(id="c05-stable-exceptions", property="C05",
 edits=[(V,"""                    * self.options.get("tol_stable_excpt_frac")
""","""                    * 0.2
""")],
 demo=MK+'''
def stable(frac):
    vbmc = make(fun_evals_per_iter=5, tol_stable_count=60, tol_stable_excpt_frac=frac)
    n = 41
    vbmc.optim_state["iter"] = n - 1
    vbmc.optim_state["entropy_switch"] = False
    vbmc.optim_state["sn2_hpd"] = 1e-5
    h = vbmc.iteration_history
    for k, v in dict(elbo=np.zeros(n), elbo_sd=np.zeros(n), sKL=np.zeros(n), func_count=5.0 * np.arange(n)).items():
        h[k] = v
    r = np.full(n, 0.1); r[-4:-1] = 3.0        # three bad iterations of the last twelve
    h["r_index"] = r
    h["elcbo_impro"] = np.zeros(n); h["stable"] = np.zeros(n)
    vbmc._check_termination_conditions()
    return bool(h["stable"][n - 1])
assert stable(0.5)
assert not stable(0.05)
''',
 needs="an allowed share of unstable iterations that is not the default",
 what="the user's allowed share of unstable iterations is ignored and the default counts",
 tests=["vbmc/test_vbmc_loop_termination.py"]),
dict(id="c03-repeat-jacobian-point", property="C03",
 edits=[(F,'''                f_val += self.parameter_transformer.log_abs_det_jacobian(x)
''','''                f_val += self.parameter_transformer.log_abs_det_jacobian(
                    x_orig
                )
''')],
 demo='''
import numpy as np
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer
pt = ParameterTransformer(2, np.full((1, 2), -3.0), np.full((1, 2), 3.0), -np.ones((1, 2)), np.ones((1, 2)))
fl = FunctionLogger(lambda x: (0.5, 1.0), 2, True, 2, 10, pt)
x = np.array([0.7, -1.1])
u = pt(x.reshape(1, -1)).ravel()
fl(u); v, sd, i = fl(u)
assert fl.n_evals.ravel()[0] == 2
np.testing.assert_allclose(fl.y.ravel()[0], fl.y_orig.ravel()[0] + pt.log_abs_det_jacobian(u.reshape(1, -1))[0], rtol=1e-10)
''',
 needs="the same point evaluated twice with bounded parameters",
 what="the surrogate's value of a repeated point is corrected with the Jacobian of another point",
 tests=["function_logger"]),
dict(id="c29-cached-value-kept", property="C29",
 edits=[(AS,'''                        optim_state["integer_vars"],
                    )
                    idx_cache_acq = np.nan
''','''                        optim_state["integer_vars"],
                    )
''')],
 demo=ACT+'''vbmc, gp, calls = setup(cache_frac=0.5, active_sample_vp_update=False, active_sample_gp_update=False)
st, fl = vbmc.optim_state, vbmc.function_logger
st["cache"] = {"x_orig": np.array([[1.1, 1.1]]), "y_orig": np.array([-777.0])}
AbstractAcqFcn.__call__ = lambda self, X, *a: np.sum((np.atleast_2d(X) - st["goal"]) ** 2, axis=1)
cached = vbmc.parameter_transformer(np.array([[1.1, 1.1]]))
st["goal"] = cached + 1e-3
n = len(calls)
real = mod._get_search_points
mod._get_search_points = lambda *a: (np.vstack([cached, cached + 2]), np.array([0, np.nan]))
mod.active_sample(gp, 1, st, fl, vbmc.iteration_history, vbmc.vp, vbmc.options)
x, y = fl.X_orig[12], fl.y_orig.ravel()[12]
if not np.allclose(x, [1.1, 1.1], atol=1e-6):       # moved by the local search
    assert np.isclose(y, -0.5 * np.sum(x ** 2)), (x, y)
else:
    sys.exit("local search did not move")
''',
 needs="a cached point with a recorded value that the local search improves on",
 what="the optimized point is stored with the recorded target value of the cached point it replaced",
 tests=["vbmc/test_vbmc_active_sample.py"]),
dict(id="c29-keep-worse-posterior", property="C29",
 edits=[(AS,'''                elbo0 = -_neg_elcbo(
''','''                elbo0 = _neg_elcbo(
''')],
 demo=ACT+'''vbmc, gp, calls = setup(active_sample_vp_update=True, active_sample_gp_update=True)
def run(elbo_new, elbo_old):
    old = vbmc.vp
    def fit(options, st, vp, gp, *a, **k):
        new = copy.deepcopy(vp); new.mu = vp.mu + 1.0
        new.stats = dict(elbo=elbo_new, elbo_sd=0.1)
        return new, 0, 0
    mod.optimize_vp = fit
    mod._neg_elcbo = lambda *a, **k: (-elbo_old, None, None, None, None)
    _, _, vp, _ = mod.active_sample(gp, 2, vbmc.optim_state, vbmc.function_logger, vbmc.iteration_history, copy.deepcopy(old), vbmc.options)
    return "old" if np.allclose(vp.mu, old.mu) else "new"
assert run(-50.0, -70.0) == "new"
assert run(-70.0, -50.0) == "old"
assert run(3.0, -70.0) == "new"
''',
 needs="full updates between the points of one iteration and a negative ELBO",
 what="of the posterior before and after the updates the worse one is kept",
 tests=["vbmc/test_vbmc_active_sample.py"]),
dict(id="c29-start-kinds", property="C29",
 edits=[(O,'''        vp0_vec = vp0_vec[order]
        vp0_type = vp0_type[order]
''','''        vp0_vec = vp0_vec[order]
''')],
 demo='''import numpy as np
from pyvbmc import VBMC
import pyvbmc.vbmc.variational_optimization as mod
from pyvbmc.vbmc.variational_optimization import _sieve
vbmc = VBMC(lambda x: 0.0, np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)), options={"display": "off"})
class Stub:
    def __init__(self, kind, value): self.kind, self.value = kind, value
    def get_parameters(self): return np.zeros(3)
rng = np.random.RandomState(1)
def init(vp, kind, n, *a):
    out = np.empty(n, dtype=object)
    for i in range(n): out[i] = Stub(kind, rng.rand())
    return out, np.full(n, kind)
mod._vb_init = init
mod._neg_elcbo = lambda theta, gp, vp, *a: (vp.value, None, None, None, 0.0)
class GP: X = np.random.randn(20, 2); y = np.random.randn(20, 1)
st = vbmc.optim_state
vps, kinds = _sieve(vbmc.options, st, vbmc.vp, GP(), 30, 3, 2)[:2]
vals = [v.value for v in vps]
assert vals == sorted(vals)
assert [v.kind for v in vps] == list(kinds)
''',
 needs="several slow optimizations, each started from the best solution of its kind",
 what="the kinds no longer belong to the starting solutions",
 tests=["vbmc/test_variational_optimization.py"]),
dict(id="c29-compare-first", property="C29",
 edits=[(AS,'''                f_val_old = acq_fast[idx]
''','''                f_val_old = acq_fast[0]
''')],
 demo=ACT+'''import cma, scipy.optimize
vbmc, gp, calls = setup(active_sample_vp_update=False, active_sample_gp_update=False)
st, fl = vbmc.optim_state, vbmc.function_logger
AbstractAcqFcn.__call__ = lambda self, X, *a: np.sum(np.atleast_2d(X) ** 2, axis=1) + 0.25
cand = np.array([[3.0, 3.0], [0.3, 0.1], [2.0, 2.0]])
mod._get_search_points = lambda *a: (cand.copy(), np.full(3, np.nan))
# a local search that got lost: better than the first candidate, worse than the best one
far = np.array([1.5, 1.5])
cma.fmin = lambda f, x0, *a, **k: (far, float(f(far)))
mod.active_sample(gp, 1, st, fl, vbmc.iteration_history, vbmc.vp, vbmc.options)
assert np.allclose(fl.X[12], [0.3, 0.1]), fl.X[12]
''',
 needs="a local search that ends between the first and the best candidate",
 what="the best candidate is replaced by a worse one",
 tests=["vbmc/test_vbmc_active_sample.py"]),
]
