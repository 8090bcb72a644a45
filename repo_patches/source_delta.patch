From 0cfc206a9eb747e244aeb18fd1979d8bcd0ba403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 01/46] fix: keep original-space value uncorrected when a point
 is re-evaluated

---
 pyvbmc/function_logger/function_logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..31ec0d1 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,7 +385,8 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            # Copy, so that the stored original-space value is left unchanged
+            f_val = self.y_orig[idx].copy()
             if self.transform_parameters:
                 f_val += self.parameter_transformer.log_abs_det_jacobian(x)
             self.y[idx] = f_val
-- 
2.43.0


From fbacd77a39ed1b10dcfaddbd8243b33ee2a8ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 02/46] fix: trim evaluation counts together with the other log
 columns

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 31ec0d1..45e288d 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From b2319521e66c912c5746a9c2882aa9f51778f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 03/46] fix: initialize the variational posterior at the
 transformed starting point

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..96ce226 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -242,7 +242,7 @@ class VBMC:
         self.vp = VariationalPosterior(
             D=self.D,
             K=self.options.get("k_warmup"),
-            x0=self.x0,
+            x0=self.parameter_transformer(self.x0),
             parameter_transformer=self.parameter_transformer,
         )
         if not self.options.get("warmup"):
-- 
2.43.0


From e4e880aaf6636b9c6754b3ffa39660ff8c1cd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 04/46] fix: compare the scales of both transforms in
 ParameterTransformer.__eq__

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 5b4e428..e8f1d22 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -404,7 +404,7 @@ class ParameterTransformer:
 
     def __eq__(self, other):
         return (
-            np.all(self.scale == self.scale)
+            np.all(self.scale == other.scale)
             and np.all(self.R_mat == other.R_mat)
             and np.all(self.lb_orig == other.lb_orig)
             and np.all(self.ub_orig == other.ub_orig)
-- 
2.43.0


From 03469ea53f8ba18bf3d91caf5456575430538253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/46] fix: check the trailing parameters for positivity in
 set_parameters

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..f1100f2 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -711,7 +711,7 @@ class VariationalPosterior:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if check_idx < 0 and np.any(theta[check_idx:] < 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 60990b90b6dd9d3169dff13fa6f559b71219a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 06/46] fix: guard zero densities and use the per-dimension
 sample mean in kl_div

---
 pyvbmc/variational_posterior/variational_posterior.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index f1100f2..3652b68 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1100,7 +1100,7 @@ class VariationalPosterior:
                 if vp2 is not None:
                     q2mu, q2sigma = vp2.moments(N, True, True)
                 else:
-                    q2mu = np.mean(samples)
+                    q2mu = np.mean(samples, axis=0)
                     q2sigma = np.cov(samples.T)
 
             kls = kl_div_mvn(q1mu, q1sigma, q2mu, q2sigma)
@@ -1110,15 +1110,15 @@ class VariationalPosterior:
             xx1, _ = self.sample(N, True, True)
             q1 = self.pdf(xx1, True)
             q2 = vp2.pdf(xx1, True)
-            q1[q1 == 0 | np.isinf(q1)] = 1.0
-            q2[q2 == 0 | np.isinf(q2)] = minp
+            q1[(q1 == 0) | np.isinf(q1)] = 1.0
+            q2[(q2 == 0) | np.isinf(q2)] = minp
             kl1 = -np.mean(np.log(q2) - np.log(q1))
 
             xx2, _ = vp2.sample(N, True, True)
             q1 = self.pdf(xx2, True)
             q2 = vp2.pdf(xx2, True)
-            q1[q1 == 0 | np.isinf(q1)] = minp
-            q2[q2 == 0 | np.isinf(q2)] = 1.0
+            q1[(q1 == 0) | np.isinf(q1)] = minp
+            q2[(q2 == 0) | np.isinf(q2)] = 1.0
             kl2 = -np.mean(np.log(q1) - np.log(q2))
             kls = np.concatenate((kl1, kl2), axis=None)
 
-- 
2.43.0


From cd8c19e27ab8ee14e8bfa84b826be3ec89212ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 07/46] fix: sum over all components in balanced sampling

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 3652b68..9d884d4 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -302,7 +302,7 @@ class VariationalPosterior:
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
                         repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - sum(w_extra))
+                        w_extra += self.w * (repeats_extra - np.sum(w_extra))
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-- 
2.43.0


From 9148dc30c4f8f18cf54c447a6ce75f8425f6a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 08/46] fix: read entropy_force_switch from the options

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 96ce226..0d29256 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -877,7 +877,7 @@ class VBMC:
             # deterministic.
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
-                >= self.optim_state.get("entropy_force_switch")
+                >= self.options.get("entropy_force_switch")
                 * self.optim_state.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
-- 
2.43.0


From 09959caaa475e7ce8f0217d9b87e3642a3e41f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 09/46] fix: reset the hyperparameter covariance under the name
 it is read

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0d29256..443c7b4 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1327,7 +1327,7 @@ class VBMC:
                     # options = options_main
                     # Reset GP hyperparameter covariance
                     # hypstruct.runcov = []
-                    self.hyp_dict["runcov"] = None
+                    self.hyp_dict["run_cov"] = None
                     # Reset VP repository (not used in python)
                     self.optim_state["vp_repo"] = []
 
-- 
2.43.0


From 4ab685b4efdf2eb02d537310573a807aac5123b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 10/46] fix: update n_eff during active sampling under the name
 it is read

---
 pyvbmc/vbmc/active_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..258866f 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -246,7 +246,7 @@ def active_sample(
             optim_state["N"] = (
                 function_logger.Xn + 1
             )  # Number of training inputs
-            optim_state["N_eff"] = sum(
+            optim_state["n_eff"] = np.sum(
                 function_logger.n_evals[function_logger.X_flag]
             )
             ###
-- 
2.43.0


From edf48ff3201e455f7c67fceeabb0800b921b39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 11/46] fix: lay out the soft-bound gradient like the bounds

---
 pyvbmc/vbmc/variational_optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..99f4500 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -558,7 +558,7 @@ def _vp_bound_loss(
     theta_ext = []
     if vp.optimize_mu:
         theta_ext.append(mu.ravel())
-    if vp.optimize_sigma or vp.optimize_lambda:
+    if vp.optimize_sigma or vp.optimize_lambd:
         theta_ext.append(ln_scale.ravel(order="F"))
     if vp.optimize_weights:
         theta_ext.append(eta.ravel())
@@ -580,9 +580,11 @@ def _vp_bound_loss(
         else:
             start_idx = 0
 
-        if vp.optimize_sigma or vp.optimize_lambda:
+        if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
-                dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
+                dL[start_idx : start_idx + vp.D * vp.K],
+                (vp.D, vp.K),
+                order="F",
             )
 
             if vp.optimize_sigma:
-- 
2.43.0


From 0b682866aace661afda4c42274c6e81612b5bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 12/46] fix: drop pruned components along both component axes
 of J_sjk

---
 pyvbmc/vbmc/variational_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 99f4500..bb174b2 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -373,7 +373,7 @@ def optimize_vp(
                 pruned += 1
                 already_checked = np.delete(already_checked, idx)
                 I_sk = np.delete(I_sk, idx, axis=1)
-                J_sjk = np.delete(J_sjk, idx, axis=2)
+                J_sjk = np.delete(np.delete(J_sjk, idx, axis=1), idx, axis=2)
             else:
                 already_checked[idx] = True
 
-- 
2.43.0


From cb8b8f23c73b08fdb6badb3c3edd9a410f2d8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 13/46] fix: unpack the posterior samples in fess

---
 pyvbmc/vbmc/active_importance_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index e11fcac..a071134 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -453,7 +453,7 @@ def fess(vp, gp, X=100):
     # If a single number is passed, interpret it as the number of samples
     if np.isscalar(X):
         N = X
-        X = vp.sample(N, orig_flag=False)
+        X, __ = vp.sample(N, orig_flag=False)
     else:
         N = X.shape[0]
 
-- 
2.43.0


From 38225fba3607531a4aa08121a5c5d8cc790aad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 14/46] fix: do not modify the caller's starting point in
 minimize_adam

---
 pyvbmc/vbmc/minimize_adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index fbb3beb..c695085 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -78,7 +78,7 @@ def minimize_adam(
     v = 0
     x_tab = np.zeros((n_vars, max_iter))
 
-    x = x0
+    x = np.copy(x0)
     y_tab = np.full((max_iter,), np.nan)
 
     for i in range(0, max_iter):
-- 
2.43.0


From 9520ba59bef157964846d9d32b908dca001498af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 15/46] fix: do not modify the caller's parameter vector in
 _neg_elcbo

---
 pyvbmc/vbmc/variational_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index bb174b2..5eacb1d 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1079,6 +1079,7 @@ def _neg_elcbo(
     jacobian_flag = 1
 
     # Reformat variational parameters from theta.
+    theta = theta.copy()
     vp.set_parameters(theta)
 
     if vp.optimize_weights:
-- 
2.43.0


From 9f9088d22ede9d3906a77e647efe9ed518fb99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 16/46] fix: continue a run from copies of the recorded state

---
 pyvbmc/vbmc/vbmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 443c7b4..c4a0e4e 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -857,8 +857,10 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
-- 
2.43.0


From b61b4e6d05d6e0cbec814e3658e9889cddfe6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 17/46] fix: do not write into the user's plausible bounds

---
 pyvbmc/vbmc/vbmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index c4a0e4e..47badbe 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -346,8 +346,12 @@ class VBMC:
 
                 idx = plausible_lower_bounds == plausible_upper_bounds
                 if np.any(idx):
-                    plausible_lower_bounds[idx] = lower_bounds[idx]
-                    plausible_upper_bounds[idx] = upper_bounds[idx]
+                    plausible_lower_bounds = np.where(
+                        idx, lower_bounds, plausible_lower_bounds
+                    )
+                    plausible_upper_bounds = np.where(
+                        idx, upper_bounds, plausible_upper_bounds
+                    )
                     self.logger.warning(
                         "vbmc:pbInitFailed: Some plausible bounds could not be "
                         "determined from starting set. Using hard upper/lower"
-- 
2.43.0


From 50f2f182885844caebcf083009280d4d6cde6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 18/46] fix: stop the gp_train timer when the GP is only
 re-updated

---
 pyvbmc/vbmc/active_sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 258866f..1ef7b7f 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -531,12 +531,12 @@ def active_sample(
                                 optim_state["plb_tran"],
                                 optim_state["pub_tran"],
                             )
-                            timer.stop_timer("gp_train")
                         else:
                             if gptmp is None:
                                 gp = reupdate_gp(function_logger, gp)
                             else:
                                 gp = gptmp
+                        timer.stop_timer("gp_train")
 
                         if options["active_sample_vp_update"]:
                             # Quick variational optimization
-- 
2.43.0


From 69b44579a9eaac5199d79e81cbaadd87f6e17a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 19/46] fix: initialize the running moments when either of them
 is empty

---
 pyvbmc/vbmc/vbmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 47badbe..47b1eae 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1245,8 +1245,9 @@ class VBMC:
 
             # Record moments in transformed space
             mubar, sigma = self.vp.moments(orig_flag=False, cov_flag=True)
-            if len(self.optim_state.get("run_mean")) == 0 or len(
-                self.optim_state.get("run_cov") == 0
+            if (
+                len(self.optim_state.get("run_mean")) == 0
+                or len(self.optim_state.get("run_cov")) == 0
             ):
                 self.optim_state["run_mean"] = mubar.reshape(1, -1)
                 self.optim_state["run_cov"] = sigma
-- 
2.43.0


From cf3dcc4acc1c95e84eb055dea98219d98369fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 20/46] fix: test the search cache by its length

---
 pyvbmc/vbmc/active_sample.py  | 5 +++--
 pyvbmc/whitening/whitening.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1ef7b7f..4d30caf 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -710,8 +710,9 @@ def _get_search_points(
         N_random_points = number_of_points - x0.shape[0]
         random_Xs = np.full((0, D), np.nan)
 
-        N_search_cache = round(
-            options.get("search_cache_frac") * N_random_points
+        N_search_cache = min(
+            round(options.get("search_cache_frac") * N_random_points),
+            len(optim_state.get("search_cache", [])),
         )
         if N_search_cache > 0:  # Take points from search cache
             search_cache = optim_state.get("search_cache")
diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..c0dc9a5 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,7 +219,7 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
+    if len(optim_state.get("search_cache", [])) > 0:
         optim_state["search_cache"] = warpfun(optim_state["search_cache"])
 
     # Update other state fields
-- 
2.43.0


From a6c597f26417708575491f706ab7d674d2ced35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 21/46] fix: restore floating-point error handling on every
 exit of SplineTrapezoidal._log_pdf

---
 pyvbmc/priors/spline_trapezoidal.py | 39 ++++++++++++++---------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pyvbmc/priors/spline_trapezoidal.py b/pyvbmc/priors/spline_trapezoidal.py
index 6bb644e..9f5ea7f 100644
--- a/pyvbmc/priors/spline_trapezoidal.py
+++ b/pyvbmc/priors/spline_trapezoidal.py
@@ -101,26 +101,25 @@ class SplineTrapezoidal(Prior):
         log_norm_factor = np.log(0.5 * (self.v - self.u + self.b - self.a))
 
         # ignore log(0) warnings here
-        old_settings = np.seterr(divide="ignore")
-        for d in range(D):
-            # Left tail
-            mask = (x[:, d] >= self.a[d]) & (x[:, d] < self.u[d])
-            z = (x[mask, d] - self.a[d]) / (self.u[d] - self.a[d])
-            log_pdf[mask, d] = (
-                np.log(-2 * z**3 + 3 * z**2) - log_norm_factor[d]
-            )
-
-            # Plateau
-            mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.v[d])
-            log_pdf[mask, d] = -log_norm_factor[d]
-
-            # Right tail
-            mask = (x[:, d] >= self.v[d]) & (x[:, d] < self.b[d])
-            z = 1 - (x[mask, d] - self.v[d]) / (self.b[d] - self.v[d])
-            log_pdf[mask, d] = (
-                np.log(-2 * z**3 + 3 * z**2) - log_norm_factor[d]
-            )
-        np.seterr(**old_settings)
+        with np.errstate(divide="ignore"):
+            for d in range(D):
+                # Left tail
+                mask = (x[:, d] >= self.a[d]) & (x[:, d] < self.u[d])
+                z = (x[mask, d] - self.a[d]) / (self.u[d] - self.a[d])
+                log_pdf[mask, d] = (
+                    np.log(-2 * z**3 + 3 * z**2) - log_norm_factor[d]
+                )
+
+                # Plateau
+                mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.v[d])
+                log_pdf[mask, d] = -log_norm_factor[d]
+
+                # Right tail
+                mask = (x[:, d] >= self.v[d]) & (x[:, d] < self.b[d])
+                z = 1 - (x[mask, d] - self.v[d]) / (self.b[d] - self.v[d])
+                log_pdf[mask, d] = (
+                    np.log(-2 * z**3 + 3 * z**2) - log_norm_factor[d]
+                )
 
         return np.sum(log_pdf, axis=1, keepdims=True)
 
-- 
2.43.0


From 5b3319249a2c8628de07376c8101bc0533ccb9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 22/46] fix: keep the live posterior separate from the recorded
 best posterior

---
 pyvbmc/vbmc/vbmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 47b1eae..ec882a9 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1498,7 +1498,8 @@ class VBMC:
             )
 
         # Pick "best" variational solution to return
-        self.vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        best_vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        self.vp = copy.deepcopy(best_vp)
 
         if self.options.get("do_final_boost"):
             # Last variational optimization with large number of components
-- 
2.43.0


From 5c0031533694cb826b910fec8d873d1aceca2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 23/46] fix: read warp_cov_reg from the options

---
 pyvbmc/whitening/whitening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index c0dc9a5..63d5f30 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -150,7 +150,7 @@ def warp_input(vp, optim_state, function_logger, options):
         ):
             w_reg = options["warp_cov_reg"]
         else:
-            w_reg = options.warp_cov_reg[optim_state["N"]]
+            w_reg = options["warp_cov_reg"][optim_state["N"]]
         w_reg = np.max([0, np.min([1, w_reg])])
         vp_cov = (1 - w_reg) * vp_cov + w_reg * np.diag(np.diag(vp_cov))
 
-- 
2.43.0


From a17086e61da16bd1d7d2783266a5b3e44bc6df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 24/46] fix: do not delete or merge options after
 initialization

---
 pyvbmc/vbmc/options.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index 822e788..3fed10c 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -199,8 +199,22 @@ class Options(MutableMapping, dict):
     def __len__(self):
         return dict.__len__(self)
 
-    def __delitem__(self, key):
-        return dict.__delitem__(self, key)
+    def __delitem__(self, key, force=False):
+        # Prevent user from attempting to modify options after initialization
+        if (
+            hasattr(self, "is_initialized")
+            and self.is_initialized
+            and not force
+        ):
+            raise AttributeError(
+                "Warning: Cannot delete options after initialization. Please re-initialize with `options = {...}`"
+            )
+        dict.__delitem__(self, key)
+
+    def __ior__(self, other):
+        # Update item by item, such that initialized options are not modified
+        self.update(other)
+        return self
 
     def __copy__(self):
         cls = self.__class__
-- 
2.43.0


From 40524f6b4f0303c650e0ea5c3cbee64987bd16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 25/46] fix: do not overwrite the user's search optimizer for
 1D problems

---
 pyvbmc/vbmc/active_sample.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 4d30caf..8bcb4e2 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -353,12 +353,11 @@ def active_sample(
             ).item()
 
             # Additional search via optimization
-            if options["search_optimizer"] != "none":
+            search_optimizer = options["search_optimizer"]
+            if search_optimizer != "none":
                 if gp.D == 1:
                     # Use Nelder-Mead method for 1D optimization
-                    options.__setitem__(
-                        "search_optimizer", "Nelder-Mead", force=True
-                    )
+                    search_optimizer = "Nelder-Mead"
 
                 f_val_old = acq_fast[idx]
                 x0 = X_acq[0, :]
@@ -379,7 +378,7 @@ def active_sample(
                 else:
                     tol_fun = max(1e-12, abs(f_val_old * 1e-3))
 
-                if options["search_optimizer"] == "cmaes":
+                if search_optimizer == "cmaes":
                     if options["search_cmaes_vp_init"]:
                         _, Sigma = vp.moments(orig_flag=False, cov_flag=True)
                     else:
@@ -404,7 +403,7 @@ def active_sample(
                     )
 
                     xsearch_optim, f_val_optim = res[:2]
-                elif options["search_optimizer"] == "Nelder-Mead":
+                elif search_optimizer == "Nelder-Mead":
                     from scipy.optimize import minimize
 
                     res = minimize(
-- 
2.43.0


From c31174f5081da7622860e050f25e00b7ef0dd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 26/46] fix: refuse unknown option names when loading with new
 options

---
 pyvbmc/vbmc/vbmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index ec882a9..2989caf 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2269,6 +2269,9 @@ class VBMC:
 
         # Update with new options (e.g. higher number of max iterations)
         if new_options is not None:
+            for key in new_options:
+                if key not in vbmc.options:
+                    raise ValueError(f"The option {key} does not exist.")
             vbmc.options.is_initialized = False
             vbmc.options.update(new_options)
             vbmc.options.is_initialized = True
-- 
2.43.0


From 8e024a4528b9efe694b335de09c2e88d71a86553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 27/46] fix: return J_sjk=None from _gp_log_joint when
 variances are not requested

With separate_K=True and compute_var=False the function raised
UnboundLocalError at its return statement.
---
 pyvbmc/vbmc/variational_optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 5eacb1d..49eb09d 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1359,8 +1359,7 @@ def _gp_log_joint(
     # Store contribution to the jog joint separately for each component?
     if separate_K:
         I_sk = np.zeros((Ns, K))
-        if compute_var:
-            J_sjk = np.zeros((Ns, K, K))
+        J_sjk = np.zeros((Ns, K, K)) if compute_var else None
 
     Xt = np.zeros((K, D, N))
     for k in range(0, K):
-- 
2.43.0


From 50a5b9c4ac2d8e740c053e7c48cc29c01fe38a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 28/46] fix: do not round the caller's points in place for
 integer variables

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..fabacd3 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -187,6 +187,7 @@ class AbstractAcqFcn(ABC):
             X_temp = parameter_transformer.inverse(X)
             X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
             X_temp = parameter_transformer(X_temp)
+            X = X.copy()
             X[:, integer_vars] = X_temp[:, integer_vars]
 
         return X
-- 
2.43.0


From 2e3ccb30fd231fbe3ff84785a91abe78cdccfdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 29/46] fix: mark stable iterations by a boolean mask in the
 ranking criterion

Recorded stability flags are an object array, which NumPy refuses as an index.
---
 pyvbmc/vbmc/vbmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 2989caf..9a5f49e 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2117,9 +2117,8 @@ class VBMC:
 
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
-                rank[
-                    self.iteration_history.get("stable")[: max_idx + 1], 3
-                ] = 1
+                stable = self.iteration_history.get("stable")[: max_idx + 1]
+                rank[stable.astype(bool), 3] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
 
-- 
2.43.0


From 63c86662dfa9de1a0744d7a0c9e89fd88deed3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 30/46] fix: honour best_safe_sd and best_frac_back when
 selecting the solution

---
 pyvbmc/vbmc/vbmc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 9a5f49e..d031ab6 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -918,7 +918,10 @@ class VBMC:
 
             if doWarping:
                 timer.start_timer("warping")
-                vp_tmp, __, __, __ = self.determine_best_vp()
+                vp_tmp, __, __, __ = self.determine_best_vp(
+                    safe_sd=self.options["best_safe_sd"],
+                    frac_back=self.options["best_frac_back"],
+                )
                 vp_tmp = copy.deepcopy(vp_tmp)
                 # Store variables in case warp needs to be undone:
                 # (vp_old copied above)
@@ -1498,7 +1501,10 @@ class VBMC:
             )
 
         # Pick "best" variational solution to return
-        best_vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        best_vp, elbo, elbo_sd, idx_best = self.determine_best_vp(
+            safe_sd=self.options["best_safe_sd"],
+            frac_back=self.options["best_frac_back"],
+        )
         self.vp = copy.deepcopy(best_vp)
 
         if self.options.get("do_final_boost"):
-- 
2.43.0


From a6017de44518a8a9bf8b842d84e68d8288f8b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 31/46] fix: report bounded problems as bounded in the results

---
 pyvbmc/vbmc/vbmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d031ab6..c1e02ac 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2296,8 +2296,8 @@ class VBMC:
         """
         output = {}
         output["function"] = str(self.function_logger.fun)
-        if np.all(np.isinf(self.optim_state["lb_tran"])) and np.all(
-            np.isinf(self.optim_state["ub_tran"])
+        if np.all(np.isinf(self.optim_state["lb_orig"])) and np.all(
+            np.isinf(self.optim_state["ub_orig"])
         ):
             output["problem_type"] = "unconstrained"
         else:
-- 
2.43.0


From b822e45f6ff5a3ee9c5c9a544299298c15aaeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 32/46] fix: report the number of iterations, not the last
 iteration's index

---
 pyvbmc/vbmc/vbmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index c1e02ac..77785fa 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2303,7 +2303,8 @@ class VBMC:
         else:
             output["problem_type"] = "bounded"
 
-        output["iterations"] = self.optim_state["iter"]
+        # "iter" is the (zero-based) index of the last iteration
+        output["iterations"] = self.optim_state["iter"] + 1
         output["func_count"] = self.function_logger.func_count
         output["best_iter"] = idx_best
         output["train_set_size"] = self.iteration_history["n_eff"][idx_best]
-- 
2.43.0


From 8e6926abb97efe9974e85ddd6fad8843d0b4cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 33/46] fix: load restarts from the last recorded iteration
 after an interrupted run

---
 pyvbmc/vbmc/vbmc.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 77785fa..454798f 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2246,13 +2246,22 @@ class VBMC:
         with open(filepath, mode="rb") as f:
             vbmc = dill.load(f)
 
+        # Last recorded iteration (the current one is not recorded if it was
+        # interrupted)
+        last_iteration = vbmc.iteration
+        if hasattr(vbmc, "iteration_history"):
+            optim_states = vbmc.iteration_history["optim_state"]
+            last_iteration = (
+                -1 if optim_states is None else len(optim_states) - 1
+            )
+
         # Set/check iteration
         if iteration is None:
-            iteration = vbmc.iteration
+            iteration = last_iteration
         else:
-            if not (0 <= iteration <= vbmc.iteration):
+            if not (0 <= iteration <= last_iteration):
                 raise ValueError(
-                    f"Specified iteration ({iteration}) should be >= 0 and <= last stored iteration ({vbmc.iteration})."
+                    f"Specified iteration ({iteration}) should be >= 0 and <= last stored iteration ({last_iteration})."
                 )
 
         # Set states for VBMC right before the specified iteration
-- 
2.43.0


From 40367d31c3bda15dd8977d91d657638489c289d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 34/46] fix: load restores the parameter transform of the
 loaded iteration

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 454798f..0dc1300 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2272,6 +2272,8 @@ class VBMC:
                     setattr(
                         vbmc, attr, vbmc.iteration_history[attr][iteration]
                     )
+            # The parameter transform may have been warped after this iteration
+            vbmc.parameter_transformer = vbmc.vp.parameter_transformer
             if vbmc.optim_state.get("hyp_dict") is not None:
                 vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
             vbmc.iteration = iteration
-- 
2.43.0


From 6c2f3fb8a9085fab825c62168971853cd139f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 35/46] fix: entropy switch follows the current max_fun_evals
 option

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0dc1300..7528ff6 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -884,7 +884,7 @@ class VBMC:
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
                 >= self.options.get("entropy_force_switch")
-                * self.optim_state.get("max_fun_evals")
+                * self.options.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
                 self.logging_action.append("entropy switch")
-- 
2.43.0


From 1d9a4a97ebeece63afaa4d27b54452c696d5c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 36/46] fix: support the zero GP mean function when warping

---
 pyvbmc/whitening/whitening.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 63d5f30..a931432 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -303,7 +303,11 @@ def warp_gp_and_vp(parameter_transformer, gp_old, vp_old, vbmc):
         hyp_warped[0 : vbmc.D, s] = np.mean(np.log(ell_new), axis=0)
 
         # We assume relatively no change to GP output and noise scales
-        if isinstance(gp_old.mean, gpr.mean_functions.ConstantMean):
+        if isinstance(gp_old.mean, gpr.mean_functions.ZeroMean):
+            # Nothing to warp
+            pass
+
+        elif isinstance(gp_old.mean, gpr.mean_functions.ConstantMean):
             # Warp constant mean
             m0 = hyp[Ncov + Nnoise]
             dy_old = vp_old.parameter_transformer.log_abs_det_jacobian(
-- 
2.43.0


From 6cc864f48f6b47faf4dc920165414552eb51a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 37/46] fix: refuse GP mean functions that are not implemented
 at construction

---
 pyvbmc/vbmc/vbmc.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 7528ff6..a1fad84 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -792,26 +792,18 @@ class VBMC:
             optim_state["gp_noise_fun"][1] = 1
 
         optim_state["gp_mean_fun"] = self.options.get("gp_mean_fun")
+        # Missing port: only the mean functions of gpyreg are supported
         valid_gp_mean_funs = [
             "zero",
             "const",
             "negquad",
-            "se",
-            "negquadse",
-            "negquadfixiso",
-            "negquadfix",
-            "negquadsefix",
-            "negquadonly",
-            "negquadfixonly",
-            "negquadlinonly",
-            "negquadmix",
         ]
 
         if not optim_state["gp_mean_fun"] in valid_gp_mean_funs:
             raise ValueError(
                 """vbmc:UnknownGPmean:Unknown/unsupported GP mean
             function. Supported mean functions are zero, const,
-            egquad, and se"""
+            and negquad"""
             )
         optim_state["int_mean_fun"] = self.options.get("gp_int_mean_fun")
         # more logic here in matlab
-- 
2.43.0


From 345cf850dbdf4be739e8611a43f16fbd74c9f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 38/46] fix: list the implemented display and log-file levels
 in the option descriptions

---
 pyvbmc/vbmc/option_configs/basic_vbmc_options.ini | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/option_configs/basic_vbmc_options.ini b/pyvbmc/vbmc/option_configs/basic_vbmc_options.ini
index 303fb60..7599eb1 100644
--- a/pyvbmc/vbmc/option_configs/basic_vbmc_options.ini
+++ b/pyvbmc/vbmc/option_configs/basic_vbmc_options.ini
@@ -1,5 +1,5 @@
 [BasicOptions]
-# Level of display ("iter", "notify", "final", or "off")
+# Level of display ("iter", "full", or "off")
 display = "iter"
 # Plot marginals of variational posterior at each iteration
 plot = False
@@ -17,7 +17,7 @@ min_final_components = 50
 specify_target_noise = False
 # Name of file to write logs to (if None, no log file will be written)
 log_file_name = None
-# Logging level for log file, one of ("iter", "notify", "final", or "off"), or a level from logging module (e.g. logging.DEBUG)
+# Logging level for log file, one of ("iter", "full", or "off"), or a level from logging module (e.g. logging.DEBUG)
 log_file_level = "iter"
 # Logging write mode, one of ("w", "w+", or "a")
 log_file_mode = "a"
-- 
2.43.0


From 2a60a35f487a40e8f4b9d107aed8f2da1a558c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 39/46] fix: refuse hyperparameter samplers that are not
 implemented at construction

---
 pyvbmc/vbmc/vbmc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index a1fad84..b92ff7b 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -805,6 +805,12 @@ class VBMC:
             function. Supported mean functions are zero, const,
             and negquad"""
             )
+        # Missing port: gpyreg only provides slice sampling
+        if self.options.get("gp_hyp_sampler") != "slicesample":
+            raise ValueError(
+                """vbmc:UnknownGPsampler:Unknown/unsupported sampler for GP
+            hyperparameters. Supported samplers are slicesample"""
+            )
         optim_state["int_mean_fun"] = self.options.get("gp_int_mean_fun")
         # more logic here in matlab
 
-- 
2.43.0


From 9ed197e131d69951d96f9da89b8bdf8aa9fd3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 40/46] fix: return the gradients of all parameters of the
 expected log joint for natural parameters

---
 pyvbmc/vbmc/variational_optimization.py | 31 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 49eb09d..1872d74 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1527,24 +1527,27 @@ def _gp_log_joint(
             mu_grad = np.reshape(mu_grad, (D * K, Ns), order="F")
             grad_list.append(mu_grad)
 
-        # Correct for standard log reparametrization of sigma
-        if jacobian_flag and grad_flags[1]:
-            sigma_grad *= np.reshape(sigma, (-1, 1))
+        if grad_flags[1]:
+            # Correct for standard log reparametrization of sigma
+            if jacobian_flag:
+                sigma_grad *= np.reshape(sigma, (-1, 1))
             grad_list.append(sigma_grad)
 
-        # Correct for standard log reparametrization of lambd
-        if jacobian_flag and grad_flags[2]:
-            lambd_grad *= lambd
+        if grad_flags[2]:
+            # Correct for standard log reparametrization of lambd
+            if jacobian_flag:
+                lambd_grad *= lambd
             grad_list.append(lambd_grad)
 
-        # Correct for standard softmax reparametrization of w
-        if jacobian_flag and grad_flags[3]:
-            eta_sum = np.sum(np.exp(vp.eta))
-            J_w = (
-                -np.exp(vp.eta).T * np.exp(vp.eta) / eta_sum**2
-                + np.diag(np.exp(vp.eta.ravel())) / eta_sum
-            )
-            w_grad = np.dot(J_w, w_grad)
+        if grad_flags[3]:
+            # Correct for standard softmax reparametrization of w
+            if jacobian_flag:
+                eta_sum = np.sum(np.exp(vp.eta))
+                J_w = (
+                    -np.exp(vp.eta).T * np.exp(vp.eta) / eta_sum**2
+                    + np.diag(np.exp(vp.eta.ravel())) / eta_sum
+                )
+                w_grad = np.dot(J_w, w_grad)
             grad_list.append(w_grad)
 
         dG = np.concatenate(grad_list, axis=0)
-- 
2.43.0


From 1d87ac85f0033b00194fb16b20ee1f5b504dd095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 41/46] fix: discard the cached mode when the variational
 posterior is warped

---
 pyvbmc/whitening/whitening.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index a931432..6570621 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -376,4 +376,7 @@ def warp_gp_and_vp(parameter_transformer, gp_old, vp_old, vbmc):
     ww = vp_old.w * np.exp((dy - dy_old) / T)
     vp.w = ww / np.sum(ww)
 
+    # The cached mode belongs to the old parameters
+    vp._mode = None
+
     return vp, hyp_warped
-- 
2.43.0


From 0cb1a32428cbe4671ea20fc16e72ee6db5445e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 42/46] fix: SciPy prior reports the support with loc and scale

---
 pyvbmc/priors/scipy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/scipy.py b/pyvbmc/priors/scipy.py
index a57a05b..f47eabe 100644
--- a/pyvbmc/priors/scipy.py
+++ b/pyvbmc/priors/scipy.py
@@ -51,8 +51,11 @@ class SciPy(Prior):
             self.b = np.full(self.D, np.inf)
         elif isinstance(distribution, rv_continuous_frozen):
             self.D = 1
-            self.a = np.atleast_1d(distribution.a)
-            self.b = np.atleast_1d(distribution.b)
+            # Note that `distribution.a` and `distribution.b` are the support of
+            # the standardized distribution (they ignore `loc` and `scale`)
+            a, b = distribution.support()
+            self.a = np.atleast_1d(a)
+            self.b = np.atleast_1d(b)
         else:
             raise TypeError(
                 f'A SciPy prior should be initialized from a "frozen" multivariate normal, multivariate t, or univariate SciPy distribution, but got `distribution` of type {type(distribution)}.'
-- 
2.43.0


From c48ca5d3de99478644b59503f2752b1e2c18840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 43/46] fix: prior log-densities of integer points are not
 truncated

---
 pyvbmc/priors/smooth_box.py         | 2 +-
 pyvbmc/priors/spline_trapezoidal.py | 2 +-
 pyvbmc/priors/trapezoidal.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index d6d77ae..20abc1a 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -75,7 +75,7 @@ class SmoothBox(Prior):
             The log-density of the prior at the input point(s), of dimension
             `(n, 1)`.
         """
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full_like(x, -np.inf, dtype=float)
         log_norm_factor = -np.log(np.sqrt(2 * np.pi) * self.scale) - np.log1p(
             (self.b - self.a) / (np.sqrt(2 * np.pi) * self.scale)
         )
diff --git a/pyvbmc/priors/spline_trapezoidal.py b/pyvbmc/priors/spline_trapezoidal.py
index 9f5ea7f..03cbe26 100644
--- a/pyvbmc/priors/spline_trapezoidal.py
+++ b/pyvbmc/priors/spline_trapezoidal.py
@@ -94,7 +94,7 @@ class SplineTrapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full_like(x, -np.inf, dtype=float)
         # a b c d
         # a u v b
         # norm_factor = u - v + 0.5 * (b - v + u - a)
diff --git a/pyvbmc/priors/trapezoidal.py b/pyvbmc/priors/trapezoidal.py
index 15366e6..7f3e444 100644
--- a/pyvbmc/priors/trapezoidal.py
+++ b/pyvbmc/priors/trapezoidal.py
@@ -92,7 +92,7 @@ class Trapezoidal(Prior):
             `(n, 1)`.
         """
         n, D = x.shape
-        log_pdf = np.full_like(x, -np.inf)
+        log_pdf = np.full_like(x, -np.inf, dtype=float)
         log_norm_factor = np.log(0.5) + np.log(
             self.b - self.a + self.v - self.u
         )
-- 
2.43.0


From 6d83586d3ec5515cb775bdfc24eb62fd7137eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 44/46] fix: priors refuse non-finite parameters

---
 pyvbmc/priors/smooth_box.py         | 5 ++++-
 pyvbmc/priors/spline_trapezoidal.py | 5 ++++-
 pyvbmc/priors/trapezoidal.py        | 5 ++++-
 pyvbmc/priors/uniform_box.py        | 4 +++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index 20abc1a..ee18196 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -45,11 +45,14 @@ class SmoothBox(Prior):
         Raises
         ------
         ValueError
-            If ``scale[i] <= 0`` or if ``a[i] >= b[i]``, for any `i`.
+            If ``scale[i] <= 0``, if ``a[i] >= b[i]``, or if any of them is not
+            finite, for any `i`.
         """
         self.a, self.b, self.scale = tile_inputs(
             a, b, scale, size=D, squeeze=True
         )
+        if not np.all(np.isfinite([self.a, self.b, self.scale])):
+            raise ValueError("All elements of a, b and scale should be finite.")
         if np.any(self.scale <= 0.0):
             raise ValueError(
                 f"All elements of scale={scale} should be positive."
diff --git a/pyvbmc/priors/spline_trapezoidal.py b/pyvbmc/priors/spline_trapezoidal.py
index 03cbe26..0b78482 100644
--- a/pyvbmc/priors/spline_trapezoidal.py
+++ b/pyvbmc/priors/spline_trapezoidal.py
@@ -65,11 +65,14 @@ class SplineTrapezoidal(Prior):
         Raises
         ------
         ValueError
-            If the order ``a[i] < u[i] < v[i] < b[i]`` is not respected, for any `i`.
+            If the order ``a[i] < u[i] < v[i] < b[i]`` is not respected, or if
+            any of them is not finite, for any `i`.
         """
         self.a, self.u, self.v, self.b = tile_inputs(
             a, u, v, b, size=D, squeeze=True
         )
+        if not np.all(np.isfinite([self.a, self.u, self.v, self.b])):
+            raise ValueError("Bounds and pivots should be finite.")
         if np.any(
             (self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)
         ):
diff --git a/pyvbmc/priors/trapezoidal.py b/pyvbmc/priors/trapezoidal.py
index 7f3e444..ac52173 100644
--- a/pyvbmc/priors/trapezoidal.py
+++ b/pyvbmc/priors/trapezoidal.py
@@ -63,11 +63,14 @@ class Trapezoidal(Prior):
         Raises
         ------
         ValueError
-            If the order ``a[i] < u[i] < v[i] < b[i]`` is not respected, for any `i`.
+            If the order ``a[i] < u[i] < v[i] < b[i]`` is not respected, or if
+            any of them is not finite, for any `i`.
         """
         self.a, self.u, self.v, self.b = tile_inputs(
             a, u, v, b, size=D, squeeze=True
         )
+        if not np.all(np.isfinite([self.a, self.u, self.v, self.b])):
+            raise ValueError("Bounds and pivots should be finite.")
         if np.any(
             (self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)
         ):
diff --git a/pyvbmc/priors/uniform_box.py b/pyvbmc/priors/uniform_box.py
index 763ae6f..8ad4379 100644
--- a/pyvbmc/priors/uniform_box.py
+++ b/pyvbmc/priors/uniform_box.py
@@ -37,9 +37,11 @@ class UniformBox(Prior):
         Raises
         ------
         ValueError
-            If ``a[i] >= b[i]``, for any `i`.
+            If ``a[i] >= b[i]``, or if either is not finite, for any `i`.
         """
         self.a, self.b = tile_inputs(a, b, size=D, squeeze=True)
+        if not np.all(np.isfinite([self.a, self.b])):
+            raise ValueError("All elements of a and b should be finite.")
         if np.any(self.a >= self.b):
             raise ValueError(
                 f"All elements of a={a} should be strictly less than b={b}."
-- 
2.43.0


From cdd271a90d6728b4b35d66e09e3f7e4728d04536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 45/46] fix: user-defined priors can be marginals of a product
 prior

---
 pyvbmc/priors/product.py       |  2 +-
 pyvbmc/priors/user_function.py | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/priors/product.py b/pyvbmc/priors/product.py
index 13a7a3a..8362dab 100644
--- a/pyvbmc/priors/product.py
+++ b/pyvbmc/priors/product.py
@@ -87,7 +87,7 @@ class Product(Prior):
         n, D = x.shape
         log_pdf = np.zeros((n, D))
         for (m, marginal) in enumerate(self.marginals):
-            log_pdf[:, m] = marginal.log_pdf(x[:, m], keepdims=False)
+            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
         log_pdf = np.sum(log_pdf, axis=1, keepdims=True)
         return log_pdf
 
diff --git a/pyvbmc/priors/user_function.py b/pyvbmc/priors/user_function.py
index b838770..b960410 100644
--- a/pyvbmc/priors/user_function.py
+++ b/pyvbmc/priors/user_function.py
@@ -60,9 +60,23 @@ class UserFunction(Prior):
         """Unused"""
         pass
 
-    def _log_pdf(self):
-        """Unused"""
-        pass
+    def _log_pdf(self, x):
+        """Evaluate the user-provided function at each row of ``x``.
+
+        Parameters
+        ----------
+        x : np.ndarray
+            The array of input point(s), of dimension `(n, D)`.
+
+        Returns
+        -------
+        log_pdf : np.ndarray
+            The log-density of the prior at the input point(s), of dimension
+            `(n, 1)`.
+        """
+        return np.array(
+            [np.asarray(self.log_pdf(x_i)).item() for x_i in x]
+        ).reshape((-1, 1))
 
     def __str__(self):
         """Print a string summary."""
-- 
2.43.0


From 2176ae2dfcbfdb93b3afd431aa4b62470d91984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 46/46] fix: minimize_adam pairs each stored point with its own
 value

---
 pyvbmc/vbmc/minimize_adam.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index c695085..79b5c88 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -84,6 +84,8 @@ def minimize_adam(
     for i in range(0, max_iter):
         is_minibatch_end = math.remainder(i + 1, batch_size) == 0
 
+        # Store x together with its own value, before updating it
+        x_tab[:, i] = x
         y_tab[i], grad = f(x)
 
         m = beta_1 * m + (1 - beta_1) * grad
@@ -97,9 +99,6 @@ def minimize_adam(
         x -= step_size * m_hat / (np.sqrt(v_hat) + fudge_factor)  # update
         x = np.minimum(ub, np.maximum(lb, x))
 
-        # Store x
-        x_tab[:, i] = x
-
         if use_early_stopping and is_minibatch_end and i + 1 >= min_iter:
             xxp = np.linspace(
                 -(batch_size - 1) / 2, (batch_size - 1) / 2, batch_size
-- 
2.43.0

