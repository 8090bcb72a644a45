VP="variational_posterior/variational_posterior.py"; PT="parameter_transformer/parameter_transformer.py"; VO="vbmc/variational_optimization.py"; V="vbmc/vbmc.py"; W="whitening/whitening.py"
A="vbmc/active_sample.py"; AI="vbmc/active_importance_sampling.py"; AC="acquisition_functions/abstract_acq_fcn.py"
def m(name,exp,f,*ed): return (name,"C11",exp,[(f,a,b) for a,b in ed])
CASES=[
 m("log_pdf copy",1,VP,("        x = x.copy()\n","")),
 m("set_params theta copy",1,VP,("        theta = theta.copy()\n","        theta = np.asarray(theta)\n")),
 m("neg_elcbo theta",1,VO,("    theta = theta.copy()\n","    theta = theta.ravel()\n")),
 m("pt call astype",1,PT,("        x = x.astype(float)\n        u = np.copy(x)\n","        u = np.asarray(x)\n")),
 m("pt inverse",0,PT,("        x = np.copy(u)\n","        x = u\n")),
 m("pt logdet",0,PT,("        u_c = np.copy(u)\n","        u_c = u\n")),
 m("gplj w",1,VO,("    w = vp.w.copy()[0, :]\n","    w = vp.w[0, :]\n    w /= np.sum(w)\n")),
 m("gplj mu nocopy ok",0,VO,("    mu = vp.mu.copy()\n    sigma = vp.sigma.copy()\n","    mu = vp.mu\n    sigma = vp.sigma\n")),
 m("warp vp",1,W,("    vp = copy.deepcopy(vp_old)\n","    vp = vp_old\n"),("    vp_old = copy.deepcopy(vp_old)\n","")),
 m("warp logger",1,W,("    function_logger = copy.deepcopy(function_logger)\n","    function_logger = copy.copy(function_logger)\n")),
 m("warp state",0,W,("    optim_state = copy.deepcopy(optim_state)\n","    optim_state = dict(optim_state)\n")),
 m("warp transformer",1,W,("    parameter_transformer = copy.deepcopy(vp.parameter_transformer)\n","    parameter_transformer = vp.parameter_transformer\n")),
 m("warp gp hyp",1,W,("        hyp = gp_old.posteriors[s].hyp.copy()\n","        hyp = gp_old.posteriors[s].hyp\n        hyp[0] += 0.0\n")),
 m("x0 cache",1,A,("    x0 = np.copy(optim_state[\"cache\"][\"x_orig\"])\n","    x0 = optim_state[\"cache\"][\"x_orig\"]\n    x0[0] = 0\n")) if 0 else m("final boost copy",1,V,("        vp = copy.deepcopy(vp)\n","")),
 m("real2int",1,AC,("            X = X.copy()\n","")),
 m("ais vp",1,AI,("            vp_is = copy.deepcopy(vp)\n","            vp_is = copy.copy(vp)\n            vp_is.w[0, 0] = 1\n")),
 m("ais gp",1,AI,("            gp1 = copy.deepcopy(gp)\n","            gp1 = gp\n")),
 m("hpd sort",1,"stats/get_hpd.py",("    hpd_N = round(hpd_frac * N)\n","    hpd_N = round(hpd_frac * N)\n    y.sort(axis=0)\n")),
 m("mvn",1,"stats/kl_div_mvn.py",("    mu2 = mu2.reshape(-1, 1)\n    dmu = mu2 - mu1\n","    mu2 = mu2.reshape(-1, 1)\n    mu2 -= mu1\n    dmu = mu2\n")),
 m("moments",1,VP,("        if orig_flag:\n            x, _ = self.sample(int(N)","        self.w /= np.sum(self.w)\n        if orig_flag:\n            x, _ = self.sample(int(N)")),
 m("entropy",1,"entropy/entlb_vbmc.py",("    ","    ")) if 0 else m("bounds",1,V,("        optim_state[\"lb_orig\"] = self.lower_bounds.copy()\n","        optim_state[\"lb_orig\"] = self.lower_bounds\n        self.lower_bounds[0, 0] += 0.0\n")),
 m("sieve vp0",1,VO,("        copy.deepcopy(vp),\n","        vp,\n")),
 m("vbinit",1,VO,("    mu0 = vp.mu.copy()\n","    mu0 = vp.mu\n    mu0 += 0\n")),
 m("prior",1,"priors/prior.py",("        x = np.atleast_2d(x)\n","        x = np.atleast_2d(x)\n        x[np.isnan(x)] = 0\n")),
 m("helper copy",0,VP,("        x = x.copy()\n","        x = self._own(x)\n"),("    def pdf(","    def _own(self, x):\n        return np.array(x)\n\n    def pdf(")),
 m("helper nocopy",1,VP,("        x = x.copy()\n","        x = self._own(x)\n"),("    def pdf(","    def _own(self, x):\n        return np.asarray(x)\n\n    def pdf(")),
 m("globals",1,"stats/get_hpd.py",("import numpy as np\n","import numpy as np\n\nSEEN = []\n"),("    N, D = X.shape\n","    N, D = X.shape\n    SEEN.append(N)\n")),
]
