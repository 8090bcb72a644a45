A="vbmc/active_sample.py"; V="vbmc/vbmc.py"; W="whitening/whitening.py"; AA="acquisition_functions/abstract_acq_fcn.py"; F="function_logger/function_logger.py"
FX=(V,"            x0=self.x0,\n            parameter_transformer=self.parameter_transformer,","            x0=self.parameter_transformer(self.x0),\n            parameter_transformer=self.parameter_transformer,")
def m(name,exp,f,old,new): return (name,"C03",exp,[(f,old,new)])
CASES=[
 m("start design not transformed",1,A,"        Xs = parameter_transformer(Xs)\n",""),
 m("random design not inverted",1,A,"random_Xs = parameter_transformer.inverse(random_Xs)\n","pass\n"),
 m("narrow start untransformed",1,A,"start_Xs = parameter_transformer(Xs[0])","start_Xs = Xs[0]"),
 m("real2int no back",1,AA,"X_temp = parameter_transformer(X_temp)","X_temp = 1 * X_temp"),
 m("bound check in transformed",1,AA,"X_orig = vp.parameter_transformer.inverse(Xs)","X_orig = Xs"),
 m("plb_tran raw",1,V,"""        optim_state["plb_tran"] = self.parameter_transformer(
            self.plausible_lower_bounds
        )""","""        optim_state["plb_tran"] = self.plausible_lower_bounds.copy()"""),
 m("lb_search vs lb_orig",1,V,"""            optim_state.get("lb_tran"),""","""            optim_state.get("lb_orig"),"""),
 m("warp points with old transform",1,W,"    X = parameter_transformer(X_orig)","    X = vp.parameter_transformer(X_orig)"),
 m("warp logjac minus",1,W,"y = y_orig + dy / T","y = y_orig - dy / T"),
 m("warp y from y",1,W,"y_orig = function_logger.y_orig[X_flag].T","y_orig = function_logger.y[X_flag].T"),
 m("warpfun order",1,W,"        return parameter_transformer(vp.parameter_transformer.inverse(x))","        return vp.parameter_transformer(parameter_transformer.inverse(x))"),
 m("warpfun gp order",1,W,"        return parameter_transformer(vp_old.parameter_transformer.inverse(x))","        return vp_old.parameter_transformer(parameter_transformer.inverse(x))"),
 m("warp dy same transform",1,W,"            dy_old = vp_old.parameter_transformer.log_abs_det_jacobian(xm).T","            dy_old = parameter_transformer.log_abs_det_jacobian(xm).T"),
 m("cache untransformed",1,A,"search_X = parameter_transformer(x0[idx_cache])","search_X = x0[idx_cache]"),
 m("heavy orig",1,A,"N=N_heavy, orig_flag=False,","N=N_heavy, orig_flag=True,"),
 m("mvn orig",1,A,"mubar, sigmabar = vp.moments(orig_flag=False, cov_flag=True)\n            mvn","mubar, sigmabar = vp.moments(cov_flag=True)\n            mvn"),
 m("vp_Xs default orig",1,A,"vp.sample(N=N_vp, orig_flag=False, balance_flag=True)","vp.sample(N=N_vp, balance_flag=True)"),
 m("acq orig_flag",1,"acquisition_functions/acq_fcn_vanilla.py","orig_flag=False","orig_flag=True"),
 m("x0 transformed too early",1,V,"        self.optim_state = self._init_optim_state()\n","        self.x0 = self.parameter_transformer(self.x0)\n        self.optim_state = self._init_optim_state()\n"),
 m("get_bounds X_orig",1,"vbmc/variational_optimization.py","theta_bnd = vp.get_bounds(gp.X, options, K)","theta_bnd = vp.get_bounds(vp.parameter_transformer.inverse(gp.X), options, K)"),
 m("training orig",1,"vbmc/gaussian_process_train.py","x_train = function_logger.X[function_logger.X_flag, :]","x_train = function_logger.X_orig[function_logger.X_flag, :]"),
 m("training y orig",1,"vbmc/gaussian_process_train.py","y_train = function_logger.y[function_logger.X_flag]","y_train = function_logger.y_orig[function_logger.X_flag]"),
 m("logger fun on x",1,F,"x_orig = self.parameter_transformer.inverse(","x_orig = np.array("),
 m("gp X orig",1,"vbmc/gaussian_process_train.py","gp.X = x_train","gp.X = function_logger.parameter_transformer.inverse(x_train)"),
 m("run_mean orig",1,V,"mubar, sigma = self.vp.moments(orig_flag=False, cov_flag=True)","mubar, sigma = self.vp.moments(cov_flag=True)"),
 ("fix ok","C03",0,"vbmc/vbmc.py",None,"\n# nothing\n"),
 m("rf temp",0,A,"        Xs = parameter_transformer(Xs)\n","        Xs_t = parameter_transformer(Xs)\n        Xs = Xs_t\n"),
 ("rf helper","C03",0,[(W,"    X = parameter_transformer(X_orig)\n","    X = _fwd(parameter_transformer, X_orig)\n"),(W,"def warp_input(","def _fwd(pt, z):\n    return pt(z)\n\n\ndef warp_input(")]),
 m("rf lambda warp",0,W,"    def warpfun(x):\n        return parameter_transformer(vp.parameter_transformer.inverse(x))\n","    warpfun = lambda x: parameter_transformer(vp.parameter_transformer.inverse(x))\n"),
 m("rf loop keys",0,V,"""        optim_state["plb_tran"] = self.parameter_transformer(
            self.plausible_lower_bounds
        )
        optim_state["pub_tran"] = self.parameter_transformer(
            self.plausible_upper_bounds
        )""","""        for _k, _v in (("plb_tran", self.plausible_lower_bounds), ("pub_tran", self.plausible_upper_bounds)):
            optim_state[_k] = self.parameter_transformer(_v)"""),
 m("posterior without the transform",1,V,"            x0=self.parameter_transformer(self.x0),\n            parameter_transformer=self.parameter_transformer,\n","            x0=self.parameter_transformer(self.x0),\n"),
 m("recorder with its own transform",1,V,"            parameter_transformer=self.parameter_transformer,\n        )\n\n        self.x0 =","            parameter_transformer=ParameterTransformer(self.D),\n        )\n\n        self.x0 ="),
 m("transform in a local",0,V,"        # Initialize variational posterior\n        self.vp = VariationalPosterior(","        pt = self.parameter_transformer\n        kw = dict(D=self.D)\n        self.vp = VariationalPosterior("),
]
