O="vbmc/options.py"; V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; VO="vbmc/variational_optimization.py"; G="vbmc/gaussian_process_train.py"; W="whitening/whitening.py"
AI="vbmc/active_importance_sampling.py"; AA="acquisition_functions/abstract_acq_fcn.py"; IM="acquisition_functions/acq_fcn_imiqr.py"
def m(name,exp,f,*ed): return (name,"C06",exp,[(f,a,b) for a,b in ed])
CASES=[
 m("n_eff typo",1,A,('optim_state["n_eff"]','optim_state["neff"]')) if 0 else m("lcb_max read typo",1,V,('self.optim_state["lcb_max"]','self.optim_state["lcbmax"]')) if 0 else m("warping count typo",1,V,('self.optim_state["warping_count"]','self.optim_state["warp_count"]')),
 m("read typo get",1,V,('self.optim_state.get("stop_sampling") == 0','self.optim_state.get("stop_samplng") == 0')),
 m("init typo",1,V,('optim_state["entropy_switch"] = self.options','optim_state["entropy_swich"] = self.options')),
 m("run_cov typo",1,V,('self.hyp_dict["run_cov"] = None','self.hyp_dict["runcov"] = None')) if 0 else m("run_cov read",1,G,('return hyp_dict["run_cov"]','return hyp_dict["runcov"]')),
 m("wrong container",1,G,('return hyp_dict["run_cov"]','return options["run_cov"]' if 0 else 'return iteration_history["run_cov"]')),
 m("history undeclared",1,V,('                "sKL_true",\n','')),
 m("history record typo",1,V,('record("r_index"','record("rindex"')),
 m("history unrecorded",1,V,('"gp_hyp_full"] =','"gp_hyp_ful"] =')) if 0 else m("history not recorded",1,V,('                "elbo_sd": elbo_sd,\n','')),
 m("history read typo",1,V,('self.iteration_history["func_count"]','self.iteration_history["funccount"]')) if 0 else m("history read typo2",1,V,('self.iteration_history.get("func_count")','self.iteration_history.get("funccount")')),
 m("stats typo",1,VO,('vp.stats["entropy"] = H','vp.stats["entropi"] = H')),
 m("is table typo",1,"acquisition_functions/acq_fcn_viqr.py",('optim_state["active_importance_sampling"]["','optim_state["active_importance_sampling"]["x')),
 m("temp data typo",1,A,('gp.temporary_data["sn2_new"]','gp.temporary_data["sn2new"]')),
 m("cache typo",1,A,('optim_state["cache"]["y_orig"]','optim_state["cache"]["yorig"]')),
 m("elbo_stats typo",1,VO,('elbo_stats["varG"] =','elbo_stats["varg"] =')),
 m("theta_bnd typo",1,VO,('theta_bnd["tol_con"]','theta_bnd["tolcon"]')),
 m("log_flag typo",1,IM,('self.acq_info["log_flag"]','self.acq_info["logflag"]')) if 0 else m("acq info typo",1,"acquisition_functions/acq_fcn_viqr.py",('self.acq_info["variational_importance_sampling"]','self.acq_info["variational_importance"]')),
 m("self guarded only",1,V,('            self.optim_state["last_warmup"] = self.iteration\n','            if self.optim_state.get("last_warmup_"): self.optim_state["last_warmup_"] = 1\n            self.optim_state["last_warmup"] = self.iteration\n')) if 0 else m("r: helper writes",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        self._put(optim_state)\n'),
   ('    def _init_log_joint(','    def _put(self, st):\n        st["tol_gp_var"] = self.options.get("tol_gp_var")\n\n    def _init_log_joint(')),
 m("r: loop keys",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        for k in ("tol_gp_var",):\n            optim_state[k] = self.options.get(k)\n')),
 m("r: update",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        optim_state.update({"tol_gp_var": self.options.get("tol_gp_var")})\n')),
 m("r: update kw",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        optim_state.update(tol_gp_var=self.options.get("tol_gp_var"))\n')),
 m("r: alias",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        st = optim_state\n        st["tol_gp_var"] = self.options.get("tol_gp_var")\n')),
 m("r: setdefault",0,V,('        optim_state["tol_gp_var"] = self.options.get("tol_gp_var")\n','        optim_state.setdefault("tol_gp_var", self.options.get("tol_gp_var"))\n')),
 m("r: record loop",0,V,('        self.iteration_history.record("r_index"','        for nm, vv in {"r_index": 1}.items():\n            pass\n        self.iteration_history.record("r_index"')),
 m("r: record each",0,V,('            self.iteration_history.record_iteration(\n                iteration_values,\n                self.iteration,\n            )','            for nm, vv in iteration_values.items():\n                self.iteration_history.record(nm, vv, self.iteration)')),
 m("r: names const",0,V,('        self.iteration_history = IterationHistory(\n            [','        names = (\n            ['),('                "random_state",\n            ]\n        )','                "random_state",\n            ]\n        )\n        self.iteration_history = IterationHistory(names)')),
 m("skip flag renamed",1,W,('optim_state["skip_active_sampling"] = True','optim_state["skip_sampling"] = True')),
 m("after warmup renamed",1,V,('self.optim_state["data_trim_list"] = np.append','self.optim_state["trim_list"] = np.append')),
 m("r: handover helper",0,W,('    optim_state["skip_active_sampling"] = True','    _skip(optim_state)'),('def warp_input(','def _skip(st):\n    st["skip_active_sampling"] = True\n\n\ndef warp_input(')),
]
