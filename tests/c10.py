V="vbmc/vbmc.py"; W="whitening/whitening.py"
def m(name,exp,f,*ed): return (name,"C10",exp,[(f,a,b) for a,b in ed])
SN='''                optim_state_old = copy.deepcopy(self.optim_state)
                gp_old = copy.deepcopy(self.gp)
                function_logger_old = copy.deepcopy(self.function_logger)
'''
HD='''                hyp_dict_old = copy.deepcopy(self.hyp_dict)
'''
UN='''                        self.vp = vp_old
                        self.gp = gp_old
                        self.optim_state = optim_state_old
                        self.function_logger = function_logger_old
                        self.hyp_dict = hyp_dict_old
'''
BK='''                        self.optim_state["warping_count"] += 2
                        self.optim_state["last_warping"] = self.optim_state[
                            "iter"
                        ]
'''
CONDT='''                    if (
                        elbo
                        < (elbo_old + self.options["warp_tol_improvement"])
                    ) or (
                        elbo_sd
                        > (
                            elbo_sd_old
                            * self.options["warp_tol_sd_multiplier"]
                            + self.options["warp_tol_sd_base"]
                        )
                    ):
'''
TRN='''            self.parameter_transformer = self.vp.parameter_transformer
            self.function_logger.parameter_transformer = (
                self.parameter_transformer
            )
'''
AFT='''                self.logging_action.append(warp_action)
'''
CASES=[
 m("shallow optim",1,V,(SN,SN.replace("copy.deepcopy(self.optim_state)","copy.copy(self.optim_state)"))),
 m("alias gp",1,V,(SN,SN.replace("copy.deepcopy(self.gp)","self.gp"))),
 m("alias logger",1,V,(SN,SN.replace("copy.deepcopy(self.function_logger)","self.function_logger"))),
 m("hyp alias",1,V,(HD,"                hyp_dict_old = self.hyp_dict\n")),
 m("hyp shallow",1,V,(HD,"                hyp_dict_old = dict(self.hyp_dict)\n")),
 m("hyp late",1,V,(HD,""),(AFT,AFT+HD)),
 m("vp late",1,V,(AFT,AFT+"                vp_old = copy.deepcopy(self.vp)\n")),
 m("no hyp restore",1,V,(UN,UN.replace("                        self.hyp_dict = hyp_dict_old\n",""))),
 m("no logger restore",1,V,(UN,UN.replace("                        self.function_logger = function_logger_old\n",""))),
 m("no gp restore",1,V,(UN,UN.replace("                        self.gp = gp_old\n",""))),
 m("no vp restore",1,V,(UN,UN.replace("                        self.vp = vp_old\n",""))),
 m("no optim restore",1,V,(UN,UN.replace("                        self.optim_state = optim_state_old\n",""))),
 m("conditional gp",1,V,(UN,UN.replace("                        self.gp = gp_old\n","                        if self.options['warp_tol_sd_base'] > 0:\n                            self.gp = gp_old\n"))),
 m("cross",1,V,(UN,UN.replace("self.vp = vp_old","self.vp = vp_tmp"))),
 m("no undo",1,V,(UN+"\n                        # Still keep track of failed warping (failed warp counts twice)\n"+BK,"")),
 m("bookkeeping first",1,V,(UN+"\n                        # Still keep track of failed warping (failed warp counts twice)\n"+BK,BK+UN)),
 m("no count",1,V,(BK,BK.replace('                        self.optim_state["warping_count"] += 2\n',''))),
 m("no last",1,V,(BK,'                        self.optim_state["warping_count"] += 2\n')),
 m("extra state",1,V,(BK,BK+'                        self.optim_state["last_successful_warping"] = self.iteration\n')),
 m("extra recompute",1,V,(BK,BK+'                        self.optim_state["recompute_var_post"] = True\n')),
 m("and",1,V,(CONDT,CONDT.replace(") or (",") and ("))),
 m("only elbo",1,V,(CONDT,'                    if elbo < (elbo_old + self.options["warp_tol_improvement"]):\n')),
 m("reverse",1,V,(CONDT,CONDT.replace("elbo\n                        <","elbo\n                        >"))),
 m("minus",1,V,(CONDT,CONDT.replace("elbo_old +","elbo_old -"))),
 m("no base",1,V,(CONDT,CONDT.replace('\n                            + self.options["warp_tol_sd_base"]',''))),
 m("old after",1,V,('                elbo_sd_old = self.iteration_history["elbo_sd"][-1]','                elbo_sd_old = self.iteration_history["elbo_sd"][0]')),
 m("cond refactor ok",0,V,(CONDT,'                    improved = elbo >= self.options["warp_tol_improvement"] + elbo_old\n                    max_sd = self.options["warp_tol_sd_base"] + self.options["warp_tol_sd_multiplier"] * elbo_sd_old\n                    if not improved or elbo_sd > max_sd:\n')),
 m("prev iter ok",0,V,('                elbo_old = self.iteration_history["elbo"][-1]','                elbo_old = self.iteration_history["elbo"][self.iteration - 1]')),
 m("dict snapshot ok",0,V,(SN,'                saved = {"gp": copy.deepcopy(self.gp), "optim_state": copy.deepcopy(self.optim_state)}\n                function_logger_old = copy.deepcopy(self.function_logger)\n'),(UN,UN.replace("gp_old","saved['gp']").replace("optim_state_old","saved['optim_state']"))),
 m("helper ok",0,V,(UN,"                        self._restore(vp_old, gp_old, optim_state_old, function_logger_old, hyp_dict_old)\n"),("    def save(self, file,","    def _restore(self, vp, gp, optim_state, function_logger, hyp_dict):\n        self.hyp_dict = hyp_dict\n        self.vp, self.gp = vp, gp\n        self.optim_state = optim_state\n        self.function_logger = function_logger\n\n    def save(self, file,")),
 m("snapshot helper ok",0,V,(SN+"                elbo_old = self.iteration_history[\"elbo\"][-1]\n","                optim_state_old, gp_old, function_logger_old = self._snap()\n                elbo_old = self.iteration_history[\"elbo\"][-1]\n"),("    def save(self, file,","    def _snap(self):\n        return tuple(\n            copy.deepcopy(x)\n            for x in (self.optim_state, self.gp, self.function_logger)\n        )\n\n    def save(self, file,")),
 m("no transform",1,V,(TRN,"")),
 m("no logger transform",1,V,(TRN,"            self.parameter_transformer = self.vp.parameter_transformer\n")),
 m("transform warp",1,V,(TRN,"            if doWarping:\n                self.parameter_transformer = parameter_transformer_warp\n            self.function_logger.parameter_transformer = self.parameter_transformer\n")),
 m("transform order ok",0,V,(TRN,"            self.function_logger.parameter_transformer = (\n                self.vp.parameter_transformer\n            )\n            self.parameter_transformer = self.vp.parameter_transformer\n")),
 m("logger not copied",1,W,("    function_logger = copy.deepcopy(function_logger)\n","")),
 m("optim not copied",1,W,("    optim_state = copy.deepcopy(optim_state)\n","")),
 m("optim shallow ok?",1,W,("    optim_state = copy.deepcopy(optim_state)\n","    optim_state = copy.copy(optim_state)\n")),
 m("transform not copied",1,W,("    parameter_transformer = copy.deepcopy(vp.parameter_transformer)\n","    parameter_transformer = vp.parameter_transformer\n")),
 m("vp not copied",1,W,("    vp_old = copy.deepcopy(vp_old)\n",""),("    vp = copy.deepcopy(vp_old)\n","    vp = vp_old\n")),
 m("vp shallow",1,W,("    vp_old = copy.deepcopy(vp_old)\n",""),("    vp = copy.deepcopy(vp_old)\n","    vp = copy.copy(vp_old)\n")),
 m("one copy ok",0,W,("    vp_old = copy.deepcopy(vp_old)\n","")),
 m("vp transform alias ok",0,W,("    vp.parameter_transformer = copy.deepcopy(parameter_transformer)\n","    vp.parameter_transformer = parameter_transformer\n")),
 m("hyp in place",1,W,("        hyp = gp_old.posteriors[s].hyp.copy()\n","        hyp = gp_old.posteriors[s].hyp\n        hyp[0 : vbmc.D] = np.maximum(hyp[0 : vbmc.D], -20)\n")),
 m("undo key write",1,V,(BK,BK+"                        self.function_logger.parameter_transformer = parameter_transformer_warp\n")),
 m("trial touches options",1,V,(AFT,AFT+"                self.warped = True\n")),
]
