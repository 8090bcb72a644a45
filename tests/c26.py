V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; VO="vbmc/variational_optimization.py"; G="vbmc/gaussian_process_train.py"; VP="variational_posterior/variational_posterior.py"
L="function_logger/function_logger.py"; VI="acquisition_functions/acq_fcn_viqr.py"; W="whitening/whitening.py"; SB="priors/smooth_box.py"
def m(name,exp,f,*ed): return (name,"C26",exp,[(f,a,b) for a,b in ed])
CASES=[
 m("6-tuple",1,VO,("        return G, dG, varG, dvarG, var_ss, I_sk, J_sjk\n    return G, dG, varG, dvarG, var_ss","        return G, dG, varG, dvarG, var_ss, I_sk\n    return G, dG, varG, dvarG, var_ss")),
 m("arity5",1,VO,("            G, dG, _, _, _ = _gp_log_joint(","            G, dG, _, _ = _gp_log_joint(")),
 m("J unset",1,VO,("        J_sjk = np.zeros((Ns, K, K)) if compute_var else None\n","        if compute_var:\n            J_sjk = np.zeros((Ns, K, K))\n")),
 m("attr typo",1,V,("        if self.function_logger.func_count >= self.options","        if self.function_logger.fun_count >= self.options")),
 m("undefined name",1,VO,("    F = -G - H\n","    F = -G - HH\n")),
 m("method renamed",1,VP,("    def get_parameters(self, raw_flag=True):","    def get_params(self, raw_flag=True):")),
 m("kw renamed",1,VP,("        delta=None,","        eps=None,")) if 0 else m("train_gp arity",1,G,("    return gp, gp_s_N, sn2_hpd, hyp_dict","    return gp, sn2_hpd, hyp_dict")),
 m("early return",1,VO,("    theta_soft_bounds","    theta_soft_bounds")) if 0 else m("hpd early",1,"stats/get_hpd.py",("    N, D = X.shape\n","    N, D = X.shape\n    if N == 1:\n        return X, y\n")),
 m("adam arity",1,"vbmc/minimize_adam.py",("    return x, y, x_tab, y_tab, ","    return x, y, x_tab, ")),
 m("hyp missing",1,G,("    gp, hyp0, gp_s_N = _gp_hyp(","    gp, hyp0, gp_s_N = _gp_hyp(\n        0,")),
 m("guarded unset",1,V,("            self.vp.stats[\"stable\"]","            self.vp.stats[\"stable\"]")) if 0 else m("loop var after",1,VO,("        vp0_vec, vp0_type, elcbo_beta, compute_var, ns_ent_K, _ = _sieve(","        vp0_vec, vp0_type, elcbo_beta, compute_var, ns_ent_K = _sieve(")) if 0 else
   m("sieve arity",1,VO,("    vp0_vec, vp0_type, elcbo_beta, compute_var, ns_ent_K, _ = _sieve(","    vp0_vec, vp0_type, elcbo_beta, compute_var, ns_ent_K = _sieve(")),
 m("override",1,SB,("    def _log_pdf(self, x):","    def _log_pdf(self, x, keepdims):")),
 m("lazy import",1,V,("        # Save state:","        # Save state:")) if 0 else m("moments kw",1,W,("vp.moments(orig_flag=False, cov_flag=True)","vp.moments(origflag=False, cov_flag=True)")),
 m("noop",0,V,("    def determine_best_vp(","    def _helper_noop(self, a, b=2):\n        return a, b\n\n    def determine_best_vp(")),
 m("helper",0,VO,("    F = -G - H\n","    def neg(a, *, b):\n        return -a - b\n\n    F = neg(G, b=H)\n")),
 m("ret var",0,G,("    return gp, gp_s_N, sn2_hpd, hyp_dict","    result = (gp, gp_s_N, sn2_hpd, hyp_dict)\n    return result")),
 m("unpack later",0,VO,("            G, dG, _, _, _ = _gp_log_joint(\n                vp, gp, grad_flags, avg_flag, jacobian_flag, 0\n            )","            res = _gp_log_joint(\n                vp, gp, grad_flags, avg_flag, jacobian_flag, 0\n            )\n            G, dG = res[0], res[1]")),
]
