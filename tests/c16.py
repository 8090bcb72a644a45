VP = "variational_posterior/variational_posterior.py"
VO = "vbmc/variational_optimization.py"
WH = "whitening/whitening.py"
AI = "vbmc/active_importance_sampling.py"
VB = "vbmc/vbmc.py"
CASES = []


def m(name, exp, f, *pairs):
    CASES.append((name, "C16", exp, [(f, a, b) for a, b in zip(pairs[::2], pairs[1::2])]))


NLG = '''        nl = np.sqrt(np.sum(self.lambd**2) / self.D)

        self.lambd = self.lambd.reshape(-1, 1) / nl
        self.sigma = self.sigma.reshape(1, -1) * nl

        # Ensure that weights are normalized
        if self.optimize_weights:
            self.w = self.w.reshape(1, -1) / np.sum(self.w)
'''
GET = NLG + "\n        # remove mode (at least"
SET = NLG + "\n        # remove mode\n"


def g(name, exp, a, b):
    m("get: " + name, exp, VP, GET, GET.replace(a, b))
    m("set: " + name, exp, VP, SET, SET.replace(a, b))
    assert a in NLG, a


g("no sigma compensation", 1, "self.sigma.reshape(1, -1) * nl", "self.sigma.reshape(1, -1)")
g("sigma divided", 1, "self.sigma.reshape(1, -1) * nl", "self.sigma.reshape(1, -1) / nl")
g("divisor K", 1, "/ self.D)", "/ self.K)")
g("mean of root", 1, "np.sqrt(np.sum(self.lambd**2) / self.D)", "np.sum(self.lambd) / self.D")
g("no D", 1, "np.sqrt(np.sum(self.lambd**2) / self.D)", "np.sqrt(np.sum(self.lambd**2))")
g("norm form", 0, "np.sqrt(np.sum(self.lambd**2) / self.D)", "np.linalg.norm(self.lambd) / np.sqrt(self.D)")
g("mean form", 0, "np.sqrt(np.sum(self.lambd**2) / self.D)", "np.sqrt(np.mean(self.lambd**2))")
g("max", 1, "np.sqrt(np.sum(self.lambd**2) / self.D)", "np.max(self.lambd)")
g("temp lambda", 0, "        self.lambd = self.lambd.reshape(-1, 1) / nl\n", "        lam = self.lambd.reshape(-1, 1)\n        self.lambd = lam / nl\n")
g("order", 0, '''        self.lambd = self.lambd.reshape(-1, 1) / nl
        self.sigma = self.sigma.reshape(1, -1) * nl
''', '''        self.sigma = self.sigma.reshape(1, -1) * nl
        self.lambd = self.lambd.reshape(-1, 1) / nl
''')
g("w not normalized", 1, "self.w.reshape(1, -1) / np.sum(self.w)", "self.w.reshape(1, -1)")
g("w by max", 1, "np.sum(self.w)", "np.max(self.w)")
g("w sum method", 0, "np.sum(self.w)", "self.w.sum()")
g("w temp", 0, "            self.w = self.w.reshape(1, -1) / np.sum(self.w)\n", "            w = self.w.reshape(1, -1)\n            self.w = w / np.sum(w)\n")
g("w inplace", 0, "            self.w = self.w.reshape(1, -1) / np.sum(self.w)\n", "            self.w = self.w.reshape(1, -1)\n            self.w = np.divide(self.w, np.sum(self.w))\n")
g("norm after recomputed", 1, '''        self.lambd = self.lambd.reshape(-1, 1) / nl
''', '''        self.lambd = self.lambd.reshape(-1, 1) / nl
        nl = np.sqrt(np.sum(self.lambd**2) / self.D)
''')
m("set: keeps mode", 1, VP, "        # remove mode\n        self._mode = None\n", "        # remove mode\n")
m("set: mode discarded only with mu", 1, VP, "        # remove mode\n        self._mode = None\n", "        # remove mode\n        if self.optimize_mu:\n            self._mode = None\n")
m("set: mode first (same)", 0, VP, "        # remove mode\n        self._mode = None\n", "        # done\n", '''        # check if sigma, lambda and weights are positive when raw_flag = False
''', '''        self._mode = None
''')
m("set: helper", 0, VP, "        # remove mode\n        self._mode = None\n", "        self._forget()\n\n    def _forget(self):\n        self._mode = None\n")
CHK = '''        if not raw_flag:
            check_idx = 0
            if self.optimize_weights:
                check_idx -= self.K
            if self.optimize_lambd:
                check_idx -= self.D
            if self.optimize_sigma:
                check_idx -= self.K
            if check_idx < 0 and np.any(theta[check_idx:] < 0.0):
                raise ValueError(
                    """sigma, lambda and weights must be positive
                    when raw_flag = False"""
                )

'''
m("set: refuse after storing", 1, VP, CHK, "", "        # remove mode\n        self._mode = None\n", CHK + "        self._mode = None\n")
MUB = '''        if self.optimize_mu:
            self.mu = np.reshape(
                theta[: self.D * self.K], (self.D, self.K), order="F"
            )
            start_idx = self.D * self.K
        else:
            start_idx = 0

        if self.optimize_sigma:
            if raw_flag:
'''
m("set: refuse after storing mu", 1, VP, CHK, "", MUB, MUB.split("        if self.optimize_sigma")[0] + CHK + "        if self.optimize_sigma" + MUB.split("        if self.optimize_sigma")[1])

# warp
m("warp: lambda D*sum", 1, WH, "        * np.mean(\n            (sigmalambdaw**2).T", "        * np.sum(\n            (sigmalambdaw**2).T")
m("warp: no D", 1, WH, '''    lambdaw = np.sqrt(
        vbmc.D
        * np.mean(''', '''    lambdaw = np.sqrt(
        np.mean(''')
m("warp: sigma not divided", 1, WH, "np.log(sigmalambdaw / lambdaw)", "np.log(sigmalambdaw)")
m("warp: weights not normalized", 1, WH, "vp.w = ww / np.sum(ww)", "vp.w = ww")
m("warp: weights by old sum", 1, WH, "vp.w = ww / np.sum(ww)", "vp.w = ww / np.sum(vp_old.w)")
m("warp: keeps mode", 1, WH, "    vp._mode = None\n", "")
m("warp: inline weights", 0, WH, "    vp.w = ww / np.sum(ww)\n", "    total = np.sum(ww)\n    vp.w = ww * (1 / total)\n")
m("warp: sqrt moved", 0, WH, '''    lambdaw = np.sqrt(
        vbmc.D
        * np.mean(
            (sigmalambdaw**2).T / np.sum(sigmalambdaw**2, axis=1), axis=1
        )
    ).T
''', '''    frac = (sigmalambdaw**2).T / np.sum(sigmalambdaw**2, axis=1)
    lambdaw = np.sqrt(vbmc.D * np.mean(frac, axis=1)).T
''')

# pruning
m("prune: K kept", 1, VO, "            vp_pruned.K -= 1\n", "")
m("prune: K twice", 1, VO, "            vp_pruned.K -= 1\n", "            vp_pruned.K -= 2\n")
m("prune: sigma kept", 1, VO, "            vp_pruned.sigma = np.delete(vp_pruned.sigma, idx)\n", "")
m("prune: w kept", 1, VO, "            vp_pruned.w = np.delete(vp_pruned.w, idx)\n", "")
m("prune: mu kept", 1, VO, "            vp_pruned.mu = np.delete(vp_pruned.mu, idx, axis=1)\n", "")
m("prune: mu row", 1, VO, "np.delete(vp_pruned.mu, idx, axis=1)", "np.delete(vp_pruned.mu, idx, axis=0)")
m("prune: last sigma", 1, VO, "np.delete(vp_pruned.sigma, idx)", "np.delete(vp_pruned.sigma, -1)")
m("prune: mu of smallest", 1, VO, "np.delete(vp_pruned.mu, idx, axis=1)", "np.delete(vp_pruned.mu, np.argmin(vp.w), axis=1)")
m("prune: I_sk kept", 1, VO, "                I_sk = np.delete(I_sk, idx, axis=1)\n", "")
m("prune: J_sjk one axis", 1, VO, "np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=2)", "np.delete(J_sjk, idx, axis=1)")
m("prune: J_sjk same axis twice", 1, VO, "np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=2)", "np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=1)")
m("prune: J_sjk steps (same)", 0, VO, "                J_sjk = np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=2)\n", "                J_sjk = np.delete(J_sjk, idx, axis=2)\n                J_sjk = np.delete(J_sjk, idx, axis=1)\n")
m("prune: I_sk axis 0", 1, VO, "I_sk = np.delete(I_sk, idx, axis=1)", "I_sk = np.delete(I_sk, idx, axis=0)")
m("prune: no renormalization", 1, VO, "            theta_pruned = vp_pruned.get_parameters()\n", "            theta_pruned = vp.get_parameters()\n")
m("prune: reorder", 0, VO, '''            vp_pruned.w = np.delete(vp_pruned.w, idx)
            vp_pruned.eta = np.delete(vp_pruned.eta, idx)
''', '''            vp_pruned.eta = np.delete(vp_pruned.eta, idx)
            vp_pruned.K = vp_pruned.K - 1
            vp_pruned.w = np.delete(vp_pruned.w, idx)
''', "            vp_pruned.K -= 1\n", "")
m("prune: helper", 0, VO, '''            vp_pruned.w = np.delete(vp_pruned.w, idx)
            vp_pruned.eta = np.delete(vp_pruned.eta, idx)
            vp_pruned.sigma = np.delete(vp_pruned.sigma, idx)
            vp_pruned.mu = np.delete(vp_pruned.mu, idx, axis=1)
            vp_pruned.K -= 1
''', "            _drop(vp_pruned, idx)\n", '''def _initialize_full_elcbo(''', '''def _drop(vp_, k):
    vp_.w = np.delete(vp_.w, k)
    vp_.eta = np.delete(vp_.eta, k)
    vp_.sigma = np.delete(vp_.sigma, k)
    vp_.mu = np.delete(vp_.mu, k, axis=1)
    vp_.K -= 1


def _initialize_full_elcbo(''')
m("chosen: other slot", 1, VO, 'vp.set_parameters(elbo_stats["theta"][idx, :])', 'vp.set_parameters(elbo_stats["theta"][0, :])')
m("chosen: best not set", 1, VO, '    vp.set_parameters(elbo_stats["theta"][idx, :])\n', "")
m("chosen: G of another slot", 1, VO, '    G = elbo_stats["G"][idx]\n', '    G = elbo_stats["G"][0]\n')
m("chosen: elbo of another slot", 1, VO, '    elbo = -elbo_stats["nelbo"][idx]\n', '    elbo = -np.min(elbo_stats["nelbo"])\n')
m("chosen: J of another slot", 1, VO, 'elbo_stats["J_sjk"][idx, :, :, :]', 'elbo_stats["J_sjk"][0, :, :, :]')
m("prune: stat of the old slot", 1, VO, '                H = elbo_stats["H"][0]\n', '                H = elbo_stats["H"][1]\n')
m("prune: H not refreshed", 1, VO, '                H = elbo_stats["H"][0]\n', '')
m("prune: varG not refreshed", 1, VO, '                varG = elbo_stats["varG"][0]\n', '')
m("prune: elbo not refreshed", 1, VO, '                elbo = elbo_pruned\n', '')
m("chosen: temp", 0, VO, '    G = elbo_stats["G"][idx]\n', '    best = idx\n    G = elbo_stats["G"][best]\n')

# starting points
m("init: parent of w", 1, VO, "w = np.hstack((w, xi * w[0:1, idx : idx + 1]))", "w = np.hstack((w, xi * w[0:1, 0:1]))")
m("init: parent keeps weight", 1, VO, "                        w[0, idx] *= 1 - xi\n", "                        w[0, idx] *= 1 - xi / 2\n")
m("init: w not grown", 1, VO, "                        w = np.hstack((w, xi * w[0:1, idx : idx + 1]))\n", "")
m("init: sigma not grown", 1, VO, "                    sigma = np.hstack((sigma, sigma[0:1, idx : idx + 1]))\n", "")
m("init: sigma of random", 1, VO, "sigma = np.hstack((sigma, sigma[0:1, idx : idx + 1]))", "jdx = np.random.randint(0, K)\n                    sigma = np.hstack((sigma, sigma[0:1, jdx : jdx + 1]))")
m("init: old K", 1, VO, "        new_vp.K = K_new\n", "        new_vp.K = vp.K\n")
m("init: type 2 weights of old K", 1, VO, '''                lambd *= np.sqrt(D / np.sum(lambd**2))
            if vp.optimize_weights:
                w = np.ones((1, K_new)) / K_new
        elif''', '''                lambd *= np.sqrt(D / np.sum(lambd**2))
            if vp.optimize_weights:
                w = np.ones((1, K)) / K
        elif''')
m("init: type 2 mu of old K", 1, VO, "            mu0 = X_star[order[idx_order[0:K_new]], :].T", "            mu0 = X_star[order[idx_order[0:K]], :].T")
m("init: fixed weights of old K", 1, VO, "            new_vp.w = np.ones((1, K_new)) / K_new\n", "            new_vp.w = vp.w.copy()\n")
m("init: grow temp", 0, VO, "                    mu = np.hstack((mu, mu[:, idx : idx + 1]))\n", "                    parent = mu[:, idx : idx + 1]\n                    mu = np.concatenate((mu, parent), axis=1)\n")

# smoothed proposal
m("is: weights once", 1, AI, "                vp_is.w = np.hstack((vp_is.w, vp.w))\n", "")
m("is: K", 1, AI, "vp_is.K = vp_is.K + vp.K", "vp_is.K = vp_is.K + vp_is.K")
m("is: sigma of vp_is", 1, AI, "(vp_is.sigma, np.sqrt(vp.sigma**2", "(vp_is.sigma, np.sqrt(vp_is.sigma**2")
m("is: not normalized", 1, AI, "            vp_is.w = vp_is.w / np.sum(vp_is.w)\n", "")
m("is: /=", 0, AI, "            vp_is.w = vp_is.w / np.sum(vp_is.w)\n", "            vp_is.w /= np.sum(vp_is.w)\n")

# log-weights
m("elcbo: eta before set, of the posterior", 1, VO, "        vp.eta = theta[-K:]\n", "        vp.eta = np.log(vp.w.ravel())\n        vp.eta = vp.eta_old\n")
m("elcbo: set after", 1, VO, "    theta = theta.copy()\n    vp.set_parameters(theta)\n", "    theta = theta.copy()\n")
m("elcbo: eta not set", 1, VO, '''        vp.eta = theta[-K:]
        vp.eta -= np.amax(vp.eta)
        vp.eta = np.reshape(vp.eta, (1, -1))
''', '''        pass
''')
m("elcbo: eta one line", 0, VO, '''        vp.eta = theta[-K:]
        vp.eta -= np.amax(vp.eta)
        vp.eta = np.reshape(vp.eta, (1, -1))
''', '''        eta = theta[-K:] - np.amax(theta[-K:])
        vp.eta = eta.reshape(1, -1)
''')
# fixed means
m("vbmc: mode read before the fit", 0, VB, "                        Knew = self.vp.mu.shape[1]\n", "                        Knew = self.gp.X.shape[0]\n")
ST = '''    vp.stats = {}
    vp.stats["elbo"] = elbo  # ELBO
    vp.stats["elbo_sd"] = elbo_sd  # Error on the ELBO
    vp.stats["e_log_joint"] = G  # Expected log joint
    vp.stats["e_log_joint_sd"] = np.sqrt(varG)  # Error on expected log joint
    vp.stats["entropy"] = H  # Entropy
    vp.stats["entropy_sd"] = np.sqrt(varH)  # Error on the entropy
    vp.stats["stable"] = False  # Unstable until proven otherwise
    vp.stats["I_sk"] = I_sk  # Expected log joint per component
    vp.stats["J_sjk"] = J_sjk  # Covariance of expected log joint
'''
LIT = '''    vp.stats = {
        "elbo": elbo,
        "elbo_sd": elbo_sd,
        "e_log_joint": G,
        "e_log_joint_sd": np.sqrt(varG),
        "entropy": H,
        "entropy_sd": np.sqrt(varH),
        "stable": False,
        "I_sk": I_sk,
        "J_sjk": J_sjk,
    }
'''
m("stats: literal", 0, VO, ST, LIT)
m("stats: literal, entropy swapped", 1, VO, ST, LIT.replace('"entropy": H', '"entropy": G'))
m("stats: local dict", 0, VO, ST, ST.replace("vp.stats", "stats") + "    vp.stats = stats\n")
m("stats: dict call", 0, VO, ST, "    vp.stats = dict(" + ", ".join(x.strip().replace('"', "").replace(": ", "=") for x in LIT.splitlines()[1:-1]).rstrip(",").replace(",,", ",") + ")\n")
m("stats: helper", 0, VO, ST, "    vp.stats = _make_stats(elbo, elbo_sd, G, varG, H, varH, I_sk, J_sjk)\n", "def _initialize_full_elcbo(", '''def _make_stats(elbo, elbo_sd, G, varG, H, varH, I_sk, J_sjk):
''' + ST.replace("vp.stats", "stats") + '''    return stats


def _initialize_full_elcbo(''')
m("stats: swapped sd", 1, VO, 'np.sqrt(varG)  # Error', 'np.sqrt(varH)  # Error')

m("mode: cached for both spaces", 1, VP, "        if orig_flag:\n            self._mode = x\n", "        self._mode = x\n")
m("mode: returned for both spaces", 1, VP, "        if orig_flag and self._mode is not None:\n", "        if self._mode is not None:\n")
m("mode: copy", 0, VP, "            return self._mode\n", "            return self._mode.copy()\n", "            self._mode = x\n", "            self._mode = x.copy()\n")
m("mode: nested", 0, VP, "        if orig_flag and self._mode is not None:\n            return self._mode\n", "        if orig_flag:\n            if self._mode is not None:\n                return self._mode\n")
m("mode: caches start", 1, VP, "            self._mode = x\n", "            self._mode = x0\n")
