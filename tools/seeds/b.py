P="parameter_transformer/parameter_transformer.py"; VP="variational_posterior/variational_posterior.py"; AC="acquisition_functions/abstract_acq_fcn.py"
V="vbmc/vbmc.py"; AS="vbmc/active_sample.py"; GT="vbmc/gaussian_process_train.py"; VO="vbmc/variational_optimization.py"; F="function_logger/function_logger.py"
ST="priors/spline_trapezoidal.py"
VPMK='''
import numpy as np
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior
def post(D=2, K=3, lb=None, ub=None, seed=0):
    np.random.seed(seed)
    pt = ParameterTransformer(D, lb, ub) if lb is not None else ParameterTransformer(D)
    vp = VariationalPosterior(D, K, np.random.randn(1, D), pt)
    vp.mu = np.random.randn(D, K)
    vp.sigma = np.exp(0.3 * np.random.randn(1, K))
    vp.lambd = np.exp(0.3 * np.random.randn(D, 1))
    vp.w = np.array([[0.23, 0.31, 0.46]]) if K == 3 else np.ones((1, K)) / K
    return vp
'''
SEEDS=[
dict(id="c04-equal-ignores-scale", property="C04",
 edits=[(P,"            and np.all(self.delta == other.delta)\n","")],
 demo='''
import numpy as np
from pyvbmc.parameter_transformer import ParameterTransformer
lb, ub = np.full((1, 2), -10.0), np.full((1, 2), 10.0)
mk = lambda s: ParameterTransformer(2, lb, ub, np.full((1, 2), -s), np.full((1, 2), s))
a, b = mk(1.0), mk(1.0)
b.delta = b.delta * 2
x = np.array([[0.5, 1.5]])
assert not np.allclose(a(x), b(x))
assert not (a == b)
assert a == mk(1.0)
''', needs="two transforms with the same bounds and centre but plausible ranges of different width",
 what="transforms that map points differently compare equal", tests=["parameter_transformer","variational_posterior"]),
dict(id="c11-kde-sorts-caller", property="C11",
 edits=[("stats/kde_1d.py","    N = len(np.unique(samples))\n","""    # number of distinct samples
    samples.sort()
    N = 1 + np.count_nonzero(np.diff(samples))
""")],
 demo='''
import numpy as np
from pyvbmc.stats import kde_1d
np.random.seed(0)
for x in (np.random.randn(500), np.random.randn(500, 1)):
    keep = x.copy()
    kde_1d(x, 2 ** 10, -5, 5)
    assert np.array_equal(x, keep)
''', needs="a contiguous array of samples that is not sorted",
 what="the density estimate sorts the caller's samples in place", tests=["stats","variational_posterior"]),
dict(id="c13-balanced-shuffle", property="C13",
 edits=[(VP,"                    np.random.shuffle(i)\n","                    np.random.default_rng().shuffle(i)\n")],
 demo=VPMK+'''
vp = post()
out = []
for _ in range(2):
    np.random.seed(11)
    out.append(vp.sample(200, balance_flag=True)[0])
assert np.array_equal(out[0], out[1])
''', needs="balanced sampling from a posterior with several components",
 what="the order of balanced samples comes from an unseeded generator", tests=["variational_posterior"]),
dict(id="c14-upper-bound-all", property="C14",
 edits=[(AC,'''            np.any(X_orig > optim_state.get("ub_eps_orig"), axis=1),
''','''            np.all(X_orig > optim_state.get("ub_eps_orig"), axis=1),
''')],
 demo='''
import numpy as np
from pyvbmc.acquisition_functions import AbstractAcqFcn
from pyvbmc.parameter_transformer import ParameterTransformer
class A(AbstractAcqFcn):
    def _compute_acquisition_function(self, Xs, *a):
        return -np.ones(Xs.shape[0])
class VP_: parameter_transformer = ParameterTransformer(2)
class GP:
    def predict(self, x_star=None, separate_samples=True):
        return np.zeros((x_star.shape[0], 1)), np.ones((x_star.shape[0], 1))
st = {"lb_eps_orig": np.array([[-1.0, -1.0]]), "ub_eps_orig": np.array([[1.0, 1.0]]), "integer_vars": np.array([False, False]), "variance_regularized_acq_fcn": False, "tol_gp_var": 1e-4}
X = np.array([[0.0, 0.0], [2.0, 0.0], [0.0, 2.0], [-2.0, 0.0], [2.0, 2.0]])
acq = A()(X, GP(), VP_(), None, st)
assert np.isfinite(acq[0]) and np.all(np.isinf(acq[1:])), acq
''', needs="a candidate above the upper hard bound in some but not all coordinates",
 what="the acquisition function rates points beyond the upper bound as admissible", tests=["acquisition_functions"]),
dict(id="c15-fixed-scales-offset", property="C15",
 edits=[(VP,'''            else:
                self.sigma = theta[start_idx : start_idx + self.K]
            start_idx += self.K

        if self.optimize_lambd:
''','''            else:
                self.sigma = theta[start_idx : start_idx + self.K]
        start_idx += self.K

        if self.optimize_lambd:
''')],
 demo=VPMK+'''
vp = post(D=4, K=3)
vp.optimize_sigma = False
theta = vp.get_parameters()
lam, mu = vp.lambd.copy(), vp.mu.copy()
vp.set_parameters(theta)
assert np.allclose(vp.mu, mu) and np.allclose(vp.lambd, lam), (vp.lambd, lam)
''', needs="a posterior whose component scales are not optimized but whose length scales are",
 what="the length scales are read from the wrong slice of the packed vector", tests=["variational_posterior"]),
dict(id="c16-mode-cache-kept", property="C16",
 edits=[(VP,'''            self.w = self.w.reshape(1, -1) / np.sum(self.w)

        # remove mode
        self._mode = None
''','''            self.w = self.w.reshape(1, -1) / np.sum(self.w)

        # remove mode (it only moves together with the components)
        if self.optimize_mu:
            self._mode = None
''')],
 demo=VPMK+'''
vp = post()
vp.optimize_mu = False
m0 = np.array(vp.mode())
theta = vp.get_parameters()
theta[-3:] = np.log([0.01, 0.01, 0.98])
vp.set_parameters(theta)
m1 = np.array(vp.mode())
vp._mode = None
m2 = np.array(vp.mode())
assert np.allclose(m1, m2, atol=1e-2), (m0, m1, m2)
''', needs="a cached mode and a parameter update that does not optimize the means",
 what="the cached mode survives a change of the weights and scales", tests=["variational_posterior"]),
dict(id="c17-boundary-density", property="C17",
 edits=[(VP,'''                np.all(x > self.parameter_transformer.lb_orig, axis=1),
                np.all(x < self.parameter_transformer.ub_orig, axis=1),
''','''                np.any(x > self.parameter_transformer.lb_orig, axis=1),
                np.all(x < self.parameter_transformer.ub_orig, axis=1),
''')],
 demo=VPMK+'''
vp = post(lb=np.full((1, 2), -3.0), ub=np.full((1, 2), 3.0))
X = np.array([[-4.0, 0.0], [0.0, -4.0], [4.0, 0.0], [-4.0, -4.0]])
with np.errstate(all="ignore"):
    assert np.all(vp.pdf(X) == 0), vp.pdf(X)
    assert np.all(vp.log_pdf(X) == -np.inf), vp.log_pdf(X)
''', needs="a point below the lower bound in some but not all coordinates",
 what="the original-space density is not zero (not a number) outside the bounds", tests=["variational_posterior"]),
dict(id="c18-kde-swallows", property="C18",
 edits=[("stats/kde_1d.py","        except ValueError:\n            x = 0.0\n","        except Exception:\n            x = 0.0\n")],
 demo='''
import sys, numpy as np
import pyvbmc.stats
m = sys.modules["pyvbmc.stats.kde_1d"]
class Boom(RuntimeError): pass
real = m.brentq
def failing(*a, **k):
    raise Boom("internal failure")
m.brentq = failing
np.random.seed(0)
try:
    m.kde_1d(np.random.randn(200), 2 ** 10, -5, 5)
except Boom:
    pass
else:
    raise AssertionError("an internal failure was silently discarded")
''', needs="a failure of another kind than a root-finding error inside the bandwidth search",
 what="any internal failure of the bandwidth selection is silently replaced by a rule of thumb", tests=["stats"]),
dict(id="c19-shared-marginal", property="C19",
 edits=[("priors/product.py","""        for (m, marginal) in enumerate(self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
""","""        for marginal in self.marginals:
            m = self.marginals.index(marginal)
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
""")],
 demo='''
import numpy as np
from pyvbmc.priors import Product, UniformBox
u, w = UniformBox(0.0, 2.0, D=1), UniformBox(-1.0, 3.0, D=1)
for ms in ([u, w], [u, u], [u, w, u]):
    p = Product(ms)
    x = np.full((1, len(ms)), 1.0)
    want = sum(float(np.ravel(m.log_pdf(np.array([[1.0]])))[0]) for m in ms)
    assert np.isclose(np.ravel(p.log_pdf(x))[0], want), (p.log_pdf(x), want)
    y = x.copy(); y[0, -1] = 50.0
    assert np.ravel(p.log_pdf(y))[0] == -np.inf, p.log_pdf(y)
''', needs="a product prior built from a list in which the same marginal object appears twice",
 what="coordinates of a repeated marginal do not contribute to the log-density", tests=["priors"]),
dict(id="c20-lower-dimensional-prior", property="C20",
 edits=[(V,"            if prior.D != self.D:\n","            if prior.D > self.D:\n")],
 demo='''
import numpy as np, scipy.stats as sps
from pyvbmc import VBMC
from pyvbmc.priors import UniformBox
f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
D = 3
kw = dict(plausible_lower_bounds=-np.ones((1, D)), plausible_upper_bounds=np.ones((1, D)), options={"display": "off"})
for prior in (UniformBox(-5, 5, D=2), UniformBox(-5, 5, D=4), UniformBox(-5, 5, D=1), sps.multivariate_normal(np.zeros(2))):
    try:
        VBMC(f, np.zeros((1, D)), prior=prior, **kw)
    except ValueError:
        continue
    raise AssertionError(prior)
VBMC(f, np.zeros((1, D)), prior=UniformBox(-5, 5, D=3), **kw)
''', needs="a prior of fewer dimensions than the problem",
 what="a lower-dimensional prior is accepted and broadcast over the target", tests=["vbmc/test_vbmc_init.py"]),
dict(id="c21-first-start-only", property="C21",
 edits=[(V,"        if np.any(x0 < lower_bounds) or np.any(x0 > upper_bounds):\n","        if np.any(x0 < lower_bounds) or np.any(x0[0] > upper_bounds):\n")],
 demo='''
import numpy as np
from pyvbmc import VBMC
f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
lb, ub = np.full((1, 2), -3.0), np.full((1, 2), 3.0)
for bad in ([4.0, 0.0], [0.0, -4.0]):
    x0 = np.array([[0.0, 0.0], bad])
    try:
        VBMC(f, x0, lb, ub, np.full((1, 2), -1.0), np.full((1, 2), 1.0), options={"display": "off"})
    except ValueError:
        continue
    raise AssertionError(bad)
''', needs="several starting points, of which a later one lies above the upper bound",
 what="a starting point outside the hard bounds is accepted", tests=["vbmc/test_vbmc_init.py"]),
dict(id="c22-fit-timer-left-running", property="C22",
 edits=[(AS,'''                            else:
                                optim_state["vp_repo"] = [vp.get_parameters()]
                            timer.stop_timer("variational_fit")
''','''                            else:
                                optim_state["vp_repo"] = [vp.get_parameters()]
                                timer.stop_timer("variational_fit")
''')],
 demo='''
import numpy as np, logging
from pyvbmc import VBMC
from pyvbmc.timer import main_timer
import pyvbmc.timer.timer as T
np.random.seed(1)
bad = []
start = T.Timer.start_timer
def patched(self, name):
    if name in self._start_times:
        bad.append(name)
    return start(self, name)
T.Timer.start_timer = patched
f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
v = VBMC(f, np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)), options={"display": "off", "max_iter": 3, "min_iter": 0, "max_fun_evals": 25, "active_sample_vp_update": True, "active_sample_gp_update": True, "do_final_boost": False})
v.optimize()
assert not bad, bad
''', needs="full variational updates during active sampling, from the second update on",
 what="the timer of the variational fit is left running", tests=["vbmc/test_vbmc_active_sample.py"]),
dict(id="c23-unknown-optimizer-ignored", property="C23",
 edits=[(VO,'''            else:
                raise ValueError("Unknown stochastic optimizer!")
''','''            else:
                i_mid = i_end
''')],
 demo='''
import numpy as np
from pyvbmc import VBMC
np.random.seed(1)
f = lambda x: float(-0.5 * np.sum(np.ravel(x) ** 2))
v = VBMC(f, np.zeros((1, 2)), None, None, -np.ones((1, 2)), np.ones((1, 2)), options={"display": "off", "max_iter": 2, "min_iter": 0, "max_fun_evals": 25, "stochastic_optimizer": "adamw", "do_final_boost": False, "ns_ent": lambda K: 10 * K, "ns_ent_active": lambda K: 10 * K, "ns_ent_fast": lambda K: 10 * K})
try:
    v.optimize()
except ValueError:
    pass
else:
    raise AssertionError("unknown stochastic optimizer accepted")
''', needs="a mistyped stochastic optimizer and a stochastic entropy estimate",
 what="the stochastic optimization is silently skipped for an unknown optimizer", tests=["vbmc/test_variational_optimization.py"]),
dict(id="c25-noise-of-other-rows", property="C25",
 edits=[(GT,"        s2_train = function_logger.S[function_logger.X_flag] ** 2\n","        s2_train = function_logger.S[: x_train.shape[0]] ** 2\n")],
 demo='''
import numpy as np
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.vbmc.gaussian_process_train import _get_training_data
f = lambda x: (float(np.sum(x)), float(1 + abs(np.ravel(x)[0])))
fl = FunctionLogger(f, 2, True, 2, cache_size=20)
for i in range(6):
    fl(np.array([float(i), 1.0]))
for off in ([], [1], [0, 3], [5]):
    fl.X_flag[:6] = True
    fl.X_flag[off] = False
    X, y, s2, t = _get_training_data(fl)
    assert np.allclose(np.ravel(s2), (1 + np.abs(X[:, 0])) ** 2), (off, X[:, 0], s2)
''', needs="a noisy target and inactive rows in the log (after the trimming at the end of warm-up)",
 what="the noise variances given to the surrogate belong to other rows than its points", tests=["vbmc/test_gaussian_process_train.py","vbmc/test_vbmc_active_sample.py"]),
]
