VP = "variational_posterior/variational_posterior.py"
VO = "vbmc/variational_optimization.py"
LB = "entropy/entlb_vbmc.py"
MC = "entropy/entmc_vbmc.py"
CASES = []


def m(name, exp, f, *pairs):
    CASES.append((name, "C15", exp, [(f, a, b) for a, b in zip(pairs[::2], pairs[1::2])]))


# get_parameters
m("get: C order", 1, VP, 'theta = self.mu.ravel(order="F")', 'theta = self.mu.ravel()')
m("get: T ravel (same)", 0, VP, 'theta = self.mu.ravel(order="F")', 'theta = self.mu.T.ravel()')
m("get: reshape F (same)", 0, VP, 'theta = self.mu.ravel(order="F")', 'theta = np.reshape(self.mu, (-1,), order="F")')
m("get: flatten T (same)", 0, VP, 'theta = self.mu.ravel(order="F")', 'theta = self.mu.transpose().flatten()')
m("get: lambda before sigma", 1, VP, '''        if self.optimize_sigma:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.sigma.ravel())
            )

        if self.optimize_lambd:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.lambd.ravel())
            )
''', '''        if self.optimize_lambd:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.lambd.ravel())
            )

        if self.optimize_sigma:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.sigma.ravel())
            )
''')
m("get: lambda only with sigma", 1, VP, '''        if self.optimize_lambd:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.lambd.ravel())''', '''        if self.optimize_lambd and self.optimize_sigma:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.lambd.ravel())''')
m("get: log of everything", 1, VP, 'return np.concatenate((theta, np.log(constrained_parameters)))', 'return np.log(np.concatenate((theta, constrained_parameters)))')
m("get: raw not logged", 1, VP, 'return np.concatenate((theta, np.log(constrained_parameters)))', 'return np.concatenate((theta, constrained_parameters))')
m("get: weights first", 1, VP, '(constrained_parameters, self.w.ravel())', '(self.w.ravel(), constrained_parameters)')
m("get: weights twice sigma", 1, VP, '(constrained_parameters, self.w.ravel())', '(constrained_parameters, self.sigma.ravel())')
m("get: list of parts (same)", 0, VP, '''        constrained_parameters = np.array([])

        if self.optimize_sigma:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.sigma.ravel())
            )

        if self.optimize_lambd:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.lambd.ravel())
            )

        if self.optimize_weights:
            constrained_parameters = np.concatenate(
                (constrained_parameters, self.w.ravel())
            )

        if raw_flag:
            return np.concatenate((theta, np.log(constrained_parameters)))
        else:
            return np.concatenate((theta, constrained_parameters))''', '''        scale = np.log if raw_flag else (lambda x: x)
        parts = [theta]
        if self.optimize_sigma:
            parts.append(scale(self.sigma.ravel()))
        if self.optimize_lambd:
            parts.append(scale(self.lambd.ravel()))
        if self.optimize_weights:
            parts.append(scale(self.w.ravel()))
        return np.concatenate(parts)''')
m("get: hstack (same)", 0, VP, '''            return np.concatenate((theta, np.log(constrained_parameters)))''', '''            logs = np.log(constrained_parameters)
            return np.hstack((theta, logs))''')
# set_parameters
m("set: C order", 1, VP, '''                theta[: self.D * self.K], (self.D, self.K), order="F"''', '''                theta[: self.D * self.K], (self.D, self.K)''')
m("set: reshape K,D then T (same)", 0, VP, '''            self.mu = np.reshape(
                theta[: self.D * self.K], (self.D, self.K), order="F"
            )''', '''            self.mu = theta[: self.D * self.K].reshape(self.K, self.D).T''')
m("set: reshape K,D C, no T", 1, VP, '''            self.mu = np.reshape(
                theta[: self.D * self.K], (self.D, self.K), order="F"
            )''', '''            self.mu = theta[: self.D * self.K].reshape(self.K, self.D)''')
m("set: K,D F then T", 1, VP, '''            self.mu = np.reshape(
                theta[: self.D * self.K], (self.D, self.K), order="F"
            )''', '''            self.mu = theta[: self.D * self.K].reshape((self.K, self.D), order="F").T''')
m("set: start not advanced", 1, VP, '''                self.sigma = theta[start_idx : start_idx + self.K]
            start_idx += self.K
''', '''                self.sigma = theta[start_idx : start_idx + self.K]
                start_idx += self.K
''')
m("set: advanced by D", 1, VP, '''                self.sigma = theta[start_idx : start_idx + self.K]
            start_idx += self.K
''', '''                self.sigma = theta[start_idx : start_idx + self.K]
            start_idx += self.D
''')
m("set: lambda K", 1, VP, 'self.lambd = np.exp(theta[start_idx : start_idx + self.D]).T', 'self.lambd = np.exp(theta[start_idx : start_idx + self.K]).T')
m("set: weights after (same)", 0, VP, 'eta = theta[-self.K :]', 'eta = theta[len(theta) - self.K :]')
m("set: weights last D", 1, VP, '            eta = theta[-self.K :]', '            eta = theta[-self.D :]')
m("set: weights by running index (same)", 0, VP, '''                self.lambd = theta[start_idx : start_idx + self.D].T
''', '''                self.lambd = theta[start_idx : start_idx + self.D].T
            start_idx += self.D
''', 'eta = theta[-self.K :]', 'eta = theta[start_idx : start_idx + self.K]')
m("set: weights by running index, not advanced", 1, VP, 'eta = theta[-self.K :]', 'eta = theta[start_idx : start_idx + self.K]')
m("set: start idx when mu fixed", 1, VP, '''            start_idx = self.D * self.K
        else:
            start_idx = 0

        if self.optimize_sigma:
            if raw''', '''            start_idx = self.D * self.K
        else:
            start_idx = self.D

        if self.optimize_sigma:
            if raw''')
m("set: raw sigma not exponentiated", 1, VP, 'self.sigma = np.exp(theta[start_idx : start_idx + self.K])', 'self.sigma = theta[start_idx : start_idx + self.K]')
m("set: natural weights exponentiated", 1, VP, 'self.w = eta.T[:, np.newaxis]', 'self.w = np.exp(eta.T)[:, np.newaxis]')
m("set: split (same)", 0, VP, '''            start_idx = self.D * self.K
        else:
            start_idx = 0

        if self.optimize_sigma:
            if raw_flag:
                self.sigma = np.exp(theta[start_idx : start_idx + self.K])
            else:
                self.sigma = theta[start_idx : start_idx + self.K]
''', '''            start_idx = self.K * self.D
        else:
            start_idx = 0

        if self.optimize_sigma:
            block = theta[start_idx : start_idx + self.K]
            self.sigma = np.exp(block) if raw_flag else block
''')
# bounds
m("bounds: mu repeat", 1, VP, 'lb_list.append(np.tile(self.bounds["mu_lb"], (K,)))', 'lb_list.append(np.repeat(self.bounds["mu_lb"], K))')
m("bounds: tile int (same)", 0, VP, 'lb_list.append(np.tile(self.bounds["mu_lb"], (K,)))', 'lb_list.append(np.tile(self.bounds["mu_lb"], K))')
m("bounds: scales only with sigma", 1, VP, '''        if self.optimize_sigma or self.optimize_lambd:
            lb_list.append''', '''        if self.optimize_sigma:
            lb_list.append''')
m("bounds: scales and", 1, VP, '''        if self.optimize_sigma or self.optimize_lambd:
            lb_list.append''', '''        if self.optimize_sigma and self.optimize_lambd:
            lb_list.append''')
m("bounds: eta once", 1, VP, 'ub_list.append(np.tile(self.bounds["eta_ub"], (K,)))', 'ub_list.append(np.tile(self.bounds["eta_ub"], (self.D,)))')
m("bounds: eta first", 1, VP, 'lb_list.append(np.tile(self.bounds["eta_lb"], (K,)))', 'lb_list.insert(0, np.tile(self.bounds["eta_lb"], (K,)))')
m("bounds: self.K", 0, VP, 'lb_list.append(np.tile(self.bounds["mu_lb"], (K,)))', 'reps = (K,)\n            lb_list.append(np.tile(self.bounds["mu_lb"], reps))')
m("bounds: scales before mu", 1, VP, '''        if self.optimize_mu:
            lb_list.append(np.tile(self.bounds["mu_lb"], (K,)))
            ub_list.append(np.tile(self.bounds["mu_ub"], (K,)))
        if self.optimize_sigma or self.optimize_lambd:
            lb_list.append(np.tile(self.bounds["lnscale_lb"], (K,)))
            ub_list.append(np.tile(self.bounds["lnscale_ub"], (K,)))
''', '''        if self.optimize_sigma or self.optimize_lambd:
            lb_list.append(np.tile(self.bounds["lnscale_lb"], (K,)))
            ub_list.append(np.tile(self.bounds["lnscale_ub"], (K,)))
        if self.optimize_mu:
            lb_list.append(np.tile(self.bounds["mu_lb"], (K,)))
            ub_list.append(np.tile(self.bounds["mu_ub"], (K,)))
''')
# bound loss
m("loss: scale C order", 1, VO, 'theta_ext.append(ln_scale.ravel(order="F"))', 'theta_ext.append(ln_scale.ravel())')
m("loss: scale T (same)", 0, VO, 'theta_ext.append(ln_scale.ravel(order="F"))', 'theta_ext.append(ln_scale.T.ravel())')
m("loss: outer transposed", 1, VO, 'ln_scale = np.reshape(ln_lambd, (-1, 1)) + np.reshape(ln_sigma, (1, -1))', 'ln_scale = np.reshape(ln_lambd, (1, -1)) + np.reshape(ln_sigma, (-1, 1))')
m("loss: newaxis (same)", 0, VO, 'ln_scale = np.reshape(ln_lambd, (-1, 1)) + np.reshape(ln_sigma, (1, -1))', 'ln_scale = ln_lambd[:, None] + ln_sigma[None, :]')
m("loss: grad C reshape", 1, VO, '''                (vp.D, vp.K),
                order="F",
            )

            if vp.optimize_sigma:''', '''                (vp.D, vp.K),
            )

            if vp.optimize_sigma:''')
m("loss: sum axes swapped", 1, VO, 'np.sum(dlnscale, axis=0)', 'np.sum(dlnscale, axis=1)', 'dL_new = np.concatenate((dL_new, np.sum(dlnscale, axis=1)))\n\n        if', 'dL_new = np.concatenate((dL_new, np.sum(dlnscale, axis=0)))\n\n        if')
m("loss: start idx", 1, VO, '''            dL_new = np.concatenate((dL_new, dL[0 : vp.D * vp.K].ravel()))
            start_idx = vp.D * vp.K
        else:''', '''            dL_new = np.concatenate((dL_new, dL[0 : vp.D * vp.K].ravel()))
            start_idx = 0
        else:''')
m("loss: start idx stale", 1, VO, '''            start_idx = vp.D * vp.K
        else:
            start_idx = 0

        if vp.optimize_sigma or vp.optimize_lambd:''', '''            start_idx = vp.D * vp.K

        if vp.optimize_sigma or vp.optimize_lambd:''')
m("loss: weights -D", 1, VO, 'dL[-vp.K :].ravel()', 'dL[-vp.D :].ravel()')
m("loss: sigma slice not advanced", 1, VO, '''        ln_sigma = theta[start_idx : start_idx + vp.K]
        start_idx += vp.K
''', '''        ln_sigma = theta[start_idx : start_idx + vp.K]
''')
m("loss: mu C when fixed (unused)", 0, VO, '        mu = vp.mu.ravel(order="F")\n', '        mu = vp.mu.ravel()\n')
m("loss: append gradient parts (same)", 0, VO, '''        dL_new = np.array([])
        if vp.optimize_mu:
            dL_new = np.concatenate((dL_new, dL[0 : vp.D * vp.K].ravel()))
''', '''        dL_new = np.zeros(0)
        DK = vp.D * vp.K
        if vp.optimize_mu:
            dL_new = np.concatenate((dL_new, dL[:DK]))
''')
# log joint gradient
m("gp: mu grad C", 1, VO, 'mu_grad = np.reshape(mu_grad, (D * K, Ns), order="F")', 'mu_grad = np.reshape(mu_grad, (D * K, Ns))')
m("gp: mu grad transposed (same)", 0, VO, 'mu_grad = np.reshape(mu_grad, (D * K, Ns), order="F")', 'mu_grad = np.reshape(np.transpose(mu_grad, (1, 0, 2)), (K * D, Ns))')
m("gp: sum axis 0", 1, VO, '            dG = np.sum(dG, axis=1) / Ns\n', '            dG = np.sum(dG, axis=0) / Ns\n')
m("gp: mean (same)", 0, VO, '            dG = np.sum(dG, axis=1) / Ns\n', '            dG = np.mean(dG, axis=1)\n')
m("gp: mu written at s axis", 1, VO, 'mu_grad[:, k, s : s + 1] = w[k] * np.dot(dz_dmu, alpha)', 'mu_grad[:, s, k : k + 1] = w[k] * np.dot(dz_dmu, alpha)')
m("gp: sigma grad index swapped", 1, VO, 'sigma_grad[k, s] = w[k]', 'sigma_grad[s, k] = w[k]')
m("gp: lambd grad shape", 1, VO, 'lambd_grad = np.zeros((D, Ns))', 'lambd_grad = np.zeros((K, Ns))')
m("gp: sigma lambda swapped flags", 1, VO, '''        if grad_flags[1]:
            # Correct for standard log reparametrization of sigma
            if jacobian_flag:
                sigma_grad *= np.reshape(sigma, (-1, 1))
            grad_list.append(sigma_grad)

        if grad_flags[2]:
            # Correct for standard log reparametrization of lambd
            if jacobian_flag:
                lambd_grad *= lambd
            grad_list.append(lambd_grad)
''', '''        if grad_flags[2]:
            # Correct for standard log reparametrization of lambd
            if jacobian_flag:
                lambd_grad *= lambd
            grad_list.append(lambd_grad)

        if grad_flags[1]:
            # Correct for standard log reparametrization of sigma
            if jacobian_flag:
                sigma_grad *= np.reshape(sigma, (-1, 1))
            grad_list.append(sigma_grad)
''')
m("gp: weights before lambda", 1, VO, '''            w_grad = np.dot(J_w, w_grad)
            grad_list.append(w_grad)
''', '''            w_grad = np.dot(J_w, w_grad)
            grad_list.insert(1, w_grad)
''')
m("gp: drop under jacobian", 1, VO, '''            if jacobian_flag:
                lambd_grad *= lambd
            grad_list.append(lambd_grad)
''', '''            if jacobian_flag:
                lambd_grad *= lambd
                grad_list.append(lambd_grad)
''')
m("gp: no log correction", 1, VO, '''            if jacobian_flag:
                lambd_grad *= lambd
''', '')
m("gp: temp (same)", 0, VO, '''            if jacobian_flag:
                lambd_grad *= lambd
            grad_list.append(lambd_grad)
''', '''            grad_list.append(lambd_grad * lambd if jacobian_flag else lambd_grad)
''')
m("gp: sigma broadcast over wrong axis", 1, VO, 'sigma_grad *= np.reshape(sigma, (-1, 1))', 'sigma_grad *= sigma')
# entropies
for F, l in ((LB, "lb"), (MC, "mc")):
    m(l + ": ravel C", 1, F, 'mu_grad.ravel("F")', 'mu_grad.ravel()')
    m(l + ": T ravel (same)", 0 if l == "mc" else 0, F, 'mu_grad.ravel("F")', 'mu_grad.T.ravel()')
    m(l + ": order swapped", 1, F, 'sigma_grad, lambd_grad, w_grad]', 'lambd_grad, sigma_grad, w_grad]')
    m(l + ": w before sigma", 1, F, 'sigma_grad, lambd_grad, w_grad]', 'w_grad, lambd_grad, sigma_grad]')
    m(l + ": flags swapped", 1, F, 'sigma_grad = np.zeros(K) if grad_flags[1]', 'sigma_grad = np.zeros(K) if grad_flags[2]')
    m(l + ": lambda sized K", 1, F, 'lambd_grad = np.zeros(D)', 'lambd_grad = np.zeros(K)')
    m(l + ": parts (same)", 0, F, 'dH = np.concatenate([mu_grad.ravel("F"), sigma_grad, lambd_grad, w_grad])', 'parts = [mu_grad.ravel("F")]\n    parts += [sigma_grad, lambd_grad, w_grad]\n    dH = np.concatenate(parts)')
    m(l + ": no log correction", 1, F, 'lambd_grad = lambd_grad * lambd', 'pass')
    m(l + ": log correction by sigma", 1, F, 'lambd_grad = lambd_grad * lambd', 'lambd_grad = lambd_grad * sigma')
m("lb: K==1 sigma missing", 1, LB, 'sigma_grad = D / sigma', 'sigma_grad = np.empty(0)')
m("lb: K==1 mu K", 1, LB, 'mu_grad = np.zeros(D)', 'mu_grad = np.zeros(K)')
m("lb: row instead of column", 1, LB, 'mu_grad[:, j] = -w[j]', 'mu_grad[j, :] = -w[j]')
m("mc: lsum summed over the coordinates", 1, MC, 'lsum = lsum.sum(2)', 'lsum = lsum.sum(1)')
m("mc: epsilon scaled by sigma", 1, MC, 'Xs = epsilon * lambd * sigma[j] + mu[:, j]', 'Xs = epsilon * lambd * sigma + mu[:, j]')
m("mc: mu row", 1, MC, 'epsilon * lambd * sigma[j] + mu[:, j]', 'epsilon * lambd * sigma[j] + mu[j, :]')
# elcbo
m("elcbo: flags order", 1, VO, '''            vp.optimize_sigma,
            vp.optimize_lambd,
            vp.optimize_weights,
        )
    else:''', '''            vp.optimize_lambd,
            vp.optimize_sigma,
            vp.optimize_weights,
        )
    else:''')
m("elcbo: eta slice", 1, VO, 'vp.eta = theta[-K:]', 'vp.eta = theta[:K]')
m("elcbo: eta slice -D", 1, VO, 'vp.eta = theta[-K:]', 'vp.eta = theta[-vp.D:]')
m("elcbo: penalty slice", 1, VO, 'dL[-vp.K :] = w_grad', 'dL[: vp.K] = w_grad')
m("elcbo: natural jacobian", 1, VO, '    jacobian_flag = 1\n', '    jacobian_flag = 0\n')
m("elcbo: eta explicit (same)", 0, VO, 'vp.eta = theta[-K:]', 'vp.eta = theta[theta.size - K :]')
m("set natural in optimize_vp", 1, VO, 'vp.set_parameters(elbo_stats["theta"][idx, :])', 'vp.set_parameters(elbo_stats["theta"][idx, :], raw_flag=False)')
m("get natural for optimizer", 1, VO, '        theta0 = vp0.get_parameters()\n', '        theta0 = vp0.get_parameters(raw_flag=False)\n')
m("default natural", 1, VP, 'def get_parameters(self, raw_flag=True)', 'def get_parameters(self, raw_flag=False)')
m("helper for the softmax (same)", 0, VO, '''                eta_sum = np.sum(np.exp(vp.eta))
                J_w = (
                    -np.exp(vp.eta).T * np.exp(vp.eta) / eta_sum**2
                    + np.diag(np.exp(vp.eta.ravel())) / eta_sum
                )
                w_grad = np.dot(J_w, w_grad)
            grad_list''', '''                w_grad = np.dot(_softmax_jac(vp.eta), w_grad)
            grad_list''', 'def _gp_log_joint(', '''def _softmax_jac(eta):
    e = np.exp(eta)
    tot = np.sum(e)
    return -e.T * e / tot**2 + np.diag(e.ravel()) / tot


def _gp_log_joint(''')
