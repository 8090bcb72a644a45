V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; Q="acquisition_functions/abstract_acq_fcn.py"; W="whitening/whitening.py"; N="acquisition_functions/acq_fcn_noisy.py"; L="acquisition_functions/acq_fcn_log.py"
def m(name,exp,f,*ed): return (name,"C14",exp,[t if len(t)==3 else (f,)+t for t in ed])
FINALCLIP="    search_X = np.minimum((np.maximum(search_X, lb_search)), ub_search)\n"
INF='''        idx_bounds = np.logical_or(
            np.any(X_orig < optim_state.get("lb_eps_orig"), axis=1),
            np.any(X_orig > optim_state.get("ub_eps_orig"), axis=1),
        )
        acq[idx_bounds] = np.inf
'''
BETTER="                if f_val_optim < f_val_old:\n"
LBS='''        optim_state["lb_search"] = np.maximum(
            optim_state.get("plb_tran")
            - prange * self.options.get("active_search_bound"),
            optim_state.get("lb_tran"),
        )'''
CASES=[
 m("no clip",1,A,(FINALCLIP,"")),
 m("clip low only",1,A,(FINALCLIP,"    search_X = np.maximum(search_X, lb_search)\n")),
 m("clip high only",1,A,(FINALCLIP,"    search_X = np.minimum(search_X, ub_search)\n")),
 m("clip swapped",1,A,(FINALCLIP,"    search_X = np.minimum((np.maximum(search_X, ub_search)), lb_search)\n")),
 m("clip only random",1,A,(FINALCLIP,""),("        search_X = np.append(search_X, random_Xs, axis=0)\n","        random_Xs = np.clip(random_Xs, lb_search, ub_search)\n        search_X = np.append(search_X, random_Xs, axis=0)\n")),
 m("clip before vp",1,A,(FINALCLIP,""),("        if N_vp > 0:\n","        search_X = np.clip(search_X, lb_search, ub_search)\n        random_Xs = np.clip(random_Xs, lb_search, ub_search)\n        if N_vp > 0:\n")),
 m("clip conditional",1,A,(FINALCLIP,"    if options.get('box_search_frac') > 0:\n    "+FINALCLIP)),
 m("jitter after clip",1,A,(FINALCLIP,FINALCLIP+"    search_X = search_X + 1e-3 * np.random.randn(*search_X.shape)\n")),
 m("append after clip",1,A,(FINALCLIP,FINALCLIP+"    mode_X, _ = vp.sample(N=1, orig_flag=False)\n    search_X = np.append(search_X, mode_X, axis=0)\n    idx_cache = np.append(idx_cache, np.nan)\n")),
 m("always accept",1,A,(BETTER,"                if True:\n")),
 m("accept worse",1,A,(BETTER,"                if f_val_optim > f_val_old:\n")),
 m("accept finite",1,A,(BETTER,"                if np.all(np.isfinite(xsearch_optim)):\n")),
 m("jitter eval",1,A,("            xnew = X_acq\n","            xnew = X_acq + 1e-6 * np.random.randn(*X_acq.shape)\n")),
 m("objective raw",1,A,("            acq_fun = lambda X: acq_eval(\n                X, gp","            acq_fun = lambda X: acq_eval._compute_acquisition_function(\n                X, gp")),
 m("objective bounded",1,A,('''            acq_fun = lambda X: acq_eval(
                X, gp, vp, function_logger, optim_state
            ).item()''','''            acq_fun = lambda X: np.nan_to_num(acq_eval(
                X, gp, vp, function_logger, optim_state
            )).item()''')),
 m("no reject low",1,Q,('            np.any(X_orig < optim_state.get("lb_eps_orig"), axis=1),\n','            np.any(X_orig > optim_state.get("ub_eps_orig"), axis=1),\n')),
 m("reject and",1,Q,("idx_bounds = np.logical_or(","idx_bounds = np.logical_and(")),
 m("reject all",1,Q,('np.any(X_orig < optim','np.all(X_orig < optim')),
 m("reject xs",1,Q,("        X_orig = vp.parameter_transformer.inverse(Xs)\n","        X_orig = Xs\n")),
 m("reject sign",1,Q,('X_orig > optim_state.get("ub_eps_orig")','X_orig < optim_state.get("ub_eps_orig")')),
 m("reject log only",1,Q,("        acq[idx_bounds] = np.inf\n","        if self.acq_info.get('log_flag'):\n            acq[idx_bounds] = np.inf\n")),
 m("reject realmax",1,Q,("        acq[idx_bounds] = np.inf\n","        acq[idx_bounds] = realmax\n")),
 m("reject -inf",1,Q,("        acq[idx_bounds] = np.inf\n","        acq[idx_bounds] = -np.inf\n")),
 m("early return",1,Q,("        realmax = sys.float_info.max\n","        if acq.size == 1:\n            return acq.reshape(-1)\n        realmax = sys.float_info.max\n")),
 m("before reg",1,Q,("        realmax = sys.float_info.max\n        acq = np.maximum(acq, -realmax)\n",""),(INF,INF+"        realmax = sys.float_info.max\n        acq = np.nan_to_num(acq)\n")),
 m("after overwrite",1,Q,(INF,INF+"        acq[np.isinf(acq)] = sys.float_info.max\n")),
 m("min after",1,Q,(INF,INF+"        acq = np.minimum(acq, sys.float_info.max)\n")),
 m("reject before reg",1,Q,(INF,""),("        # Regularization: penalize","        X_orig = vp.parameter_transformer.inverse(Xs)\n"+INF+"        # Regularization: penalize"),('                if self.acq_info.get("log_flag"):\n','                acq[idx_gp_uncertainty] = tol_var\n                if self.acq_info.get("log_flag"):\n')),
 m("override",1,N,("    def _compute_acquisition_function(","    def __call__(self, Xs, gp, vp, function_logger, optim_state):\n        f_mu, f_s2 = gp.predict(Xs, separate_samples=True)\n        return self._compute_acquisition_function(Xs, vp, gp, function_logger, optim_state, f_mu, f_s2, f_mu.mean(1), f_s2.mean(1))\n\n    def _compute_acquisition_function(")),
 m("override neg",1,L,("    def _compute_acquisition_function(","    def __call__(self, *args, **kwargs):\n        return -super().__call__(*args, **kwargs)\n\n    def _compute_acquisition_function(")),
 m("lb tran dropped",1,V,(LBS,'        optim_state["lb_search"] = (\n            optim_state.get("plb_tran")\n            - prange * self.options.get("active_search_bound")\n        )')),
 m("lb min",1,V,(LBS,LBS.replace("maximum","minimum"))),
 m("lb of plb",1,V,(LBS,LBS.replace('"lb_tran"','"ub_tran"'))),
 m("eps sign",1,V,('self.lower_bounds + eps_orig','self.lower_bounds - eps_orig')),
 m("eps swap",1,V,('optim_state["lb_eps_orig"] = self.lower_bounds + eps_orig','optim_state["lb_eps_orig"] = self.upper_bounds - eps_orig')),
 m("eps range sign",1,V,("eps_orig = (self.upper_bounds - self.lower_bounds)","eps_orig = (self.lower_bounds - self.upper_bounds)")),
 m("eps plausible",1,V,('self.lower_bounds + eps_orig','self.plausible_lower_bounds + eps_orig')),
 m("lb tran wrong",1,V,('optim_state["lb_tran"] = self.parameter_transformer(\n                self.lower_bounds','optim_state["lb_tran"] = self.parameter_transformer(\n                self.lower_bounds - eps_orig')),
 m("growth",1,A,('''            optim_state["lb_search"][idx] = np.maximum(
                optim_state["lb_tran"][idx],
                optim_state["lb_search"][idx] - delta_search[idx],
            )''','''            optim_state["lb_search"][idx] = (
                optim_state["lb_search"][idx] - delta_search[idx]
            )''')),
 m("growth ub max",1,A,('optim_state["ub_search"][idx] = np.minimum(','optim_state["ub_search"][idx] = np.maximum(')),
 m("other writer",1,V,("        optim_state[\"search_cache\"] = []","        optim_state[\"search_cache\"] = []") if 0 else ("    def _check_warmup_end_conditions(self):","    def _widen(self):\n        self.optim_state['lb_search'] -= 1\n\n    def _check_warmup_end_conditions(self):")),
 m("warp swap",1,W,('np.atleast_2d(yyMin - delta / Nrnd)','np.atleast_2d(yyMax - delta / Nrnd)')),
 m("warp draws",1,W,('        * (optim_state["ub_search"] - optim_state["lb_search"])\n        + optim_state["lb_search"]','        * (optim_state["ub_search"] - optim_state["lb_search"])\n        + optim_state["ub_search"]')),
 m("init wide",1,A,("                        * (pub_tran - plb_tran)\n                        + plb_tran\n","                        * (pub_tran - plb_tran)\n                        + pub_tran\n")),
 m("init randn",1,A,("                        np.random.rand(sample_count - provided_sample_count, D)\n                        * (pub_tran","                        np.random.randn(sample_count - provided_sample_count, D)\n                        * (pub_tran")),
 m("narrow unclipped",1,A,("                    random_Xs = np.minimum(\n                        (np.maximum(random_Xs, plb_tran)), pub_tran\n                    )\n","")),
 m("init x0",1,V,('optim_state["cache"]["x_orig"] = self.x0','optim_state["cache"]["x_orig"] = self.x0 + 0.1 * np.random.randn(*self.x0.shape)')),
 # refactors
 m("r np.clip",0,A,(FINALCLIP,"    search_X = np.clip(search_X, lb_search, ub_search)\n")),
 m("r min first",0,A,(FINALCLIP,"    search_X = np.maximum(np.minimum(search_X, ub_search), lb_search)\n")),
 m("r two steps",0,A,(FINALCLIP,"    below = search_X < lb_search\n    search_X = np.where(below, lb_search, search_X)\n    search_X = np.where(search_X > ub_search, ub_search, search_X)\n")),
 m("r helper",0,A,(FINALCLIP,"    search_X = _confine(search_X, optim_state)\n"),("def _get_search_points(","def _confine(X, optim_state):\n    lb = optim_state['lb_search']\n    ub = optim_state['ub_search']\n    return np.minimum(np.maximum(X, lb), ub)\n\n\ndef _get_search_points(")),
 m("r clip each",0,A,(FINALCLIP,""),("        search_X = np.append(search_X, random_Xs, axis=0)\n","        random_Xs = np.clip(random_Xs, lb_search, ub_search)\n        search_X = np.append(np.clip(search_X, lb_search, ub_search), random_Xs, axis=0)\n"),("    return search_X, idx_cache\n","    else:\n        search_X = np.clip(search_X, lb_search, ub_search)\n    return search_X, idx_cache\n")),
 m("r accept flip",0,A,(BETTER,"                if f_val_old > f_val_optim:\n")),
 m("r accept flag",0,A,(BETTER,"                improved = f_val_optim < f_val_old\n                if improved:\n")),
 m("r objective def",0,A,('''            acq_fun = lambda X: acq_eval(
                X, gp, vp, function_logger, optim_state
            ).item()''','''            def acq_fun(X):
                value = acq_eval(X, gp, vp, function_logger, optim_state)
                return value.item()''')),
 m("r mask or",0,Q,(INF,'''        lb = optim_state["lb_eps_orig"]
        ub = optim_state["ub_eps_orig"]
        outside = (X_orig < lb) | (X_orig > ub)
        acq[np.any(outside, axis=1)] = np.inf
''')),
 m("r mask inside",0,Q,(INF,'''        inside = np.all((X_orig >= optim_state["lb_eps_orig"]) & (X_orig <= optim_state["ub_eps_orig"]), axis=1)
        acq[~inside] = np.inf
''')),
 m("r where",0,Q,("        acq[idx_bounds] = np.inf\n","        acq = np.where(idx_bounds, np.inf, acq)\n")),
 m("r guarded",0,Q,("        acq[idx_bounds] = np.inf\n","        if np.any(idx_bounds):\n            acq[idx_bounds] = np.inf\n")),
 m("r reject helper",0,Q,(INF,'        acq[self._outside(X_orig, optim_state)] = np.inf\n'),("    @abstractmethod\n    def _compute","    @staticmethod\n    def _outside(X, optim_state):\n        low = (X < optim_state.get('lb_eps_orig')).any(axis=1)\n        high = (X > optim_state.get('ub_eps_orig')).any(axis=1)\n        return low | high\n\n    @abstractmethod\n    def _compute")),
 m("r max after",0,Q,("        realmax = sys.float_info.max\n        acq = np.maximum(acq, -realmax)\n",""),(INF,INF+"        realmax = sys.float_info.max\n        acq = np.maximum(acq, -realmax)\n")),
 m("r two masks",0,Q,("        acq[idx_bounds] = np.inf\n","        acq[np.any(X_orig < optim_state.get('lb_eps_orig'), axis=1)] = np.inf\n        acq[np.any(X_orig > optim_state.get('ub_eps_orig'), axis=1)] = np.inf\n")),
 m("r override super",0,N,("    def _compute_acquisition_function(","    def __call__(self, *args, **kwargs):\n        return super().__call__(*args, **kwargs)\n\n    def _compute_acquisition_function(")),
 m("r lb locals",0,V,(LBS,'''        wide = prange * self.options.get("active_search_bound")
        lb_wide = optim_state.get("plb_tran") - wide
        optim_state["lb_search"] = np.maximum(optim_state["lb_tran"], lb_wide)''')),
 m("r eps inline",0,V,('self.lower_bounds + eps_orig','self.lower_bounds + self.options.get("tol_bound_x") * (self.upper_bounds - self.lower_bounds)')),
 m("r growth local",0,A,('''            optim_state["lb_search"][idx] = np.maximum(
                optim_state["lb_tran"][idx],
                optim_state["lb_search"][idx] - delta_search[idx],
            )''','''            lb_new = optim_state["lb_search"] - delta_search
            lb_new = np.maximum(optim_state["lb_tran"], lb_new)
            optim_state["lb_search"][idx] = lb_new[idx]''')),
 m("r init uniform",0,A,('''                    random_Xs = (
                        np.random.rand(sample_count - provided_sample_count, D)
                        * (pub_tran - plb_tran)
                        + plb_tran
                    )''','''                    u = np.random.rand(sample_count - provided_sample_count, D)
                    width = pub_tran - plb_tran
                    random_Xs = plb_tran + width * u''')),
]
