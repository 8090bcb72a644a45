V="vbmc/vbmc.py"; O="vbmc/variational_optimization.py"
def m(name,exp,*ed): return (name,"C27",exp,[(V,a,b) for a,b in ed])
END="""        stop_warmup = (
            (stable_count_flag and no_recent_improvement_flag)
            or no_longterm_improvement_flag
        ) and no_recent_trim_flag
"""
SCF="            stable_count_flag = (max_now - max_before) < stop_warmup_thresh\n"
CONDEND="""            self.iteration_history.get("r_index")[iteration]
            < self.options.get("stop_warmup_reliability")
            or len(self.optim_state.get("data_trim_list")) >= 1
"""
APP="""            self.optim_state["data_trim_list"] = np.append(
                self.optim_state.get("data_trim_list"),
                [self.optim_state.get("N")],
            )
"""
XF="""        self.function_logger.X_flag = np.logical_and(
            idx_keep[:, 0], self.function_logger.X_flag
        )
"""
THR="""            threshold = self.options.get("warmup_keep_threshold") * (
                len(self.optim_state.get("data_trim_list")) + 1
            )
"""
KEEP="        idx_keep = (y_max - self.function_logger.y_orig) < threshold\n"
SETUPCALL="""                if trim_flag:
                    self._setup_vbmc_after_warmup()
                    # Re-update GP after trimming
                    self.gp = reupdate_gp(self.function_logger, self.gp)
"""
LOOPC="            if self.optim_state.get(\"warmup\") and self.iteration > 0:\n"
CASES=[
 m("or to and",1,(END,END.replace("            or no_long","            and no_long"))),
 m("or recent",1,(END,END.replace("stable_count_flag and","stable_count_flag or"))),
 m("no recent trim dropped",1,(END,END.replace("        ) and no_recent_trim_flag","        )"))),
 m("no recent trim moved",1,(END,"        stop_warmup = (\n            stable_count_flag and no_recent_improvement_flag\n        ) or (no_longterm_improvement_flag and no_recent_trim_flag)\n")),
 m("demorgan",0,(END,"        if not no_recent_trim_flag:\n            return False\n        stop_warmup = not (\n            (not stable_count_flag or not no_recent_improvement_flag)\n            and not no_longterm_improvement_flag\n        )\n")),
 m("np logical",0,(END,"        stop_warmup = np.logical_and(\n            np.logical_or(np.logical_and(stable_count_flag, no_recent_improvement_flag), no_longterm_improvement_flag), no_recent_trim_flag)\n")),
 m("trim gt",1,("        ) >= 10\n","        ) > 10\n")),
 m("trim nine ok",0,("        ) >= 10\n","        ) > 9\n")),
 m("trim first",1,("            last_data_trim = self.optim_state.get(\"data_trim_list\")[-1]","            last_data_trim = self.optim_state.get(\"data_trim_list\")[0]")),
 m("trim func_count",1,("            self.optim_state.get(\"N\") - last_data_trim\n","            self.function_logger.func_count - last_data_trim\n")),
 m("trim guard inverted",1,("        if len(self.optim_state.get(\"data_trim_list\")) > 0:\n            last","        if len(self.optim_state.get(\"data_trim_list\")) > 1:\n            last")),
 m("trim inf",1,("            last_data_trim = self.optim_state.get(\"data_trim_list\")[-1]\n","            last_data_trim = -1 * np.inf\n")),
 m("trim ternary",0,("        if len(self.optim_state.get(\"data_trim_list\")) > 0:\n            last_data_trim = self.optim_state.get(\"data_trim_list\")[-1]\n        else:\n            last_data_trim = -1 * np.inf\n","        trims = self.optim_state[\"data_trim_list\"]\n        last_data_trim = -np.inf if len(trims) == 0 else trims[-1]\n")),
 m("sc sign",1,(SCF,SCF.replace("max_now - max_before","max_before - max_now"))),
 m("sc le",1,(SCF,SCF.replace("<","<="))),
 m("sc gt",1,(SCF,SCF.replace("<",">"))),
 m("sc move",0,(SCF,"            stable_count_flag = max_now < max_before + stop_warmup_thresh\n")),
 m("sc not ge",0,(SCF,"            stable_count_flag = not (max_now - max_before >= stop_warmup_thresh)\n")),
 m("sc double thr",1,(SCF,SCF.replace("stop_warmup_thresh","2 * stop_warmup_thresh"))),
 m("thr fe dropped",1,("        stop_warmup_thresh = self.options.get(\n            \"stop_warmup_thresh\"\n        ) * self.options.get(\"fun_evals_per_iter\")\n","        stop_warmup_thresh = self.options.get(\n            \"stop_warmup_thresh\"\n        )\n")),
 m("window floor",1,("        tol_stable_warmup_iters = math.ceil(\n","        tol_stable_warmup_iters = math.floor(\n")),
 m("window stable count",1,("        tol_stable_warmup_iters = math.ceil(\n            self.options.get(\"tol_stable_warmup\")","        tol_stable_warmup_iters = math.ceil(\n            self.options.get(\"tol_stable_count\")")),
 m("window ge",1,("        if iteration > tol_stable_warmup_iters:\n","        if iteration >= tol_stable_warmup_iters:\n")),
 m("window ge plus one",0,("        if iteration > tol_stable_warmup_iters:\n","        if iteration >= tol_stable_warmup_iters + 1:\n")),
 m("elcbo plus",1,("            elcbo_vec = self.iteration_history.get(\"elbo\") - self","            elcbo_vec = self.iteration_history.get(\"elbo\") + self")),
 m("elcbo only elbo",1,("            elcbo_vec = self.iteration_history.get(\"elbo\") - self.options.get(\n                \"elcbo_impro_weight\"\n            ) * self.iteration_history.get(\"elbo_sd\")\n","            elcbo_vec = self.iteration_history.get(\"elbo\")\n")),
 m("elcbo from 0",1,("                elcbo_vec[2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]\n","                elcbo_vec[0 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]\n")),
 m("elcbo overlap",1,("                elcbo_vec[2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]\n","                elcbo_vec[2:]\n")),
 m("elcbo last only",1,("                elcbo_vec[max(3, len(elcbo_vec) - tol_stable_warmup_iters) :]\n","                elcbo_vec[max(3, len(elcbo_vec) - 1) :]\n"),("                elcbo_vec[2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]\n","                elcbo_vec[2 : max(3, len(elcbo_vec) - 1)]\n")),
 m("elcbo cut var",0,("            max_now = np.amax(\n                elcbo_vec[max(3, len(elcbo_vec) - tol_stable_warmup_iters) :]\n            )\n            max_before = np.amax(\n                elcbo_vec[2 : max(3, len(elcbo_vec) - tol_stable_warmup_iters)]\n            )\n","            cut = max(len(elcbo_vec) - tol_stable_warmup_iters, 3)\n            max_now, max_before = elcbo_vec[cut:].max(), np.max(elcbo_vec[2:cut])\n")),
 m("elcbo min",1,("            max_now = np.amax(\n","            max_now = np.amin(\n")),
 m("elcbo swap",1,("            max_now = np.amax(\n","            max_before = np.amax(\n"),("            max_before = np.amax(\n                elcbo_vec[2","            max_now = np.amax(\n                elcbo_vec[2")),
 m("lcb recent inverted",1,("                np.amax(lcb_max_vec[idx_last])\n                - np.amax(lcb_max_vec[~idx_last]),","                np.amax(lcb_max_vec[~idx_last])\n                - np.amax(lcb_max_vec[idx_last]),")),
 m("lcb window",1,("                + 1\n            )\n            idx_last[max(1, recent_past) :] = True","                - 1\n            )\n            idx_last[max(1, recent_past) :] = True")),
 m("lcb slices",0,("            idx_last[max(1, recent_past) :] = True\n            impro_fcn = max(\n                0,\n                np.amax(lcb_max_vec[idx_last])\n                - np.amax(lcb_max_vec[~idx_last]),\n            )","            k = max(1, recent_past)\n            impro_fcn = max(\n                np.max(lcb_max_vec[k:])\n                - np.max(lcb_max_vec[:k]), 0\n            )")),
 m("lcb slices bad",1,("            idx_last[max(1, recent_past) :] = True\n            impro_fcn = max(\n                0,\n                np.amax(lcb_max_vec[idx_last])\n                - np.amax(lcb_max_vec[~idx_last]),\n            )","            k = max(1, recent_past)\n            impro_fcn = max(\n                np.max(lcb_max_vec[k + 1:])\n                - np.max(lcb_max_vec[:k]), 0\n            )")),
 m("check max inverted",1,("        if self.options.get(\"warmup_check_max\"):","        if not self.options.get(\"warmup_check_max\"):")),
 m("check max ignored",1,("        no_recent_improvement_flag = impro_fcn < stop_warmup_thresh","        no_recent_improvement_flag = True")),
 m("lt ge",1,("        no_longterm_improvement_flag = (currentpos - pos) > self","        no_longterm_improvement_flag = (currentpos - pos) >= self")),
 m("lt iterations",1,("        yy = self.iteration_history.get(\"func_count\")[: iteration + 1]","        yy = self.iteration_history.get(\"iter\")[: iteration + 1]")),
 m("lt last",1,("        idx_1st = np.ravel(np.argwhere(lcb_max_vec > max_thresh))[0]","        idx_1st = np.ravel(np.argwhere(lcb_max_vec > max_thresh))[-1]")),
 m("lt argmax",0,("        idx_1st = np.ravel(np.argwhere(lcb_max_vec > max_thresh))[0]","        idx_1st = np.argmax(lcb_max_vec > max_thresh)")),
 m("lt flatnonzero",0,("        idx_1st = np.ravel(np.argwhere(lcb_max_vec > max_thresh))[0]","        idx_1st = np.flatnonzero(lcb_max_vec > max_thresh)[0]")),
 m("lt far",1,("        idx_1st = np.ravel(np.argwhere(lcb_max_vec > max_thresh))[0]","        idx_1st = np.ravel(np.argwhere(lcb_max_vec < max_thresh))[0]")),
 m("lt tol plus",1,("        max_thresh = np.amax(lcb_max_vec) - self.options","        max_thresh = np.amax(lcb_max_vec) + self.options")),
 m("lt tol other",1,("        max_thresh = np.amax(lcb_max_vec) - self.options.get(\"tol_improvement\")","        max_thresh = np.amax(lcb_max_vec) - self.options.get(\"tol_sd\")")),
 m("lt optim N",1,("        currentpos = self.function_logger.func_count\n","        currentpos = self.optim_state[\"N\"]\n")),
 # end or trim
 m("rel and",1,(CONDEND,CONDEND.replace("            or len","            and len"))),
 m("rel gt",1,(CONDEND,CONDEND.replace("            < self","            > self"))),
 m("rel prev",1,(CONDEND,CONDEND.replace("[iteration]","[iteration - 1]"))),
 m("rel two trims",1,(CONDEND,CONDEND.replace(">= 1",">= 2"))),
 m("rel no trims",1,(CONDEND,CONDEND.replace("            or len(self.optim_state.get(\"data_trim_list\")) >= 1\n",""))),
 m("rel gt 0",0,(CONDEND,CONDEND.replace(">= 1","> 0"))),
 m("rel inverted branches",0,("        if (\n"+CONDEND+"        ):\n","        unreliable = self.iteration_history[\"r_index\"][iteration] >= self.options[\"stop_warmup_reliability\"]\n        first = len(self.optim_state[\"data_trim_list\"]) == 0\n        if not (unreliable and first):\n")),
 m("last warmup missing",1,("            self.optim_state[\"last_warmup\"] = iteration\n","")),
 m("last warmup off",1,("            self.optim_state[\"last_warmup\"] = iteration\n","            self.optim_state[\"last_warmup\"] = iteration + 1\n")),
 m("not ended",1,("            self.optim_state[\"warmup\"] = False\n            self.logging_action.append(\"end warm-up\")","            self.logging_action.append(\"end warm-up\")")),
 m("ended always",1,(APP,APP+"            self.optim_state[\"warmup\"] = False\n")),
 m("trim not recorded",1,(APP,"")),
 m("trim recorded iter",1,(APP,APP.replace("self.optim_state.get(\"N\")","iteration"))),
 m("trim overwrite",1,(APP,"            self.optim_state[\"data_trim_list\"] = np.array([self.optim_state[\"N\"]])\n")),
 m("trim concat",0,(APP,"            self.optim_state[\"data_trim_list\"] = np.concatenate([self.optim_state[\"data_trim_list\"], [self.optim_state[\"N\"]]])\n")),
 m("thr no growth",1,(THR,"            threshold = self.options.get(\"warmup_keep_threshold\")\n")),
 m("thr no plus one",1,(THR,THR.replace(" + 1",""))),
 m("thr false alarm at end",1,(THR,THR.replace("warmup_keep_threshold\"","warmup_keep_threshold_false_alarm\""))),
 m("thr alarm none",1,("            if self.options.get(\"warmup_keep_threshold_false_alarm\") is None:","            if self.options.get(\"warmup_keep_threshold_false_alarm\") is not None:")),
 m("thr after append",1,("            threshold = warmup_keep_threshold_false_alarm * (\n                len(self.optim_state.get(\"data_trim_list\")) + 1\n            )\n\n"+APP,APP+"            threshold = warmup_keep_threshold_false_alarm * (\n                len(self.optim_state.get(\"data_trim_list\")) + 1\n            )\n\n")),
 m("thr after append ok",0,("            threshold = warmup_keep_threshold_false_alarm * (\n                len(self.optim_state.get(\"data_trim_list\")) + 1\n            )\n\n"+APP,APP+"            threshold = warmup_keep_threshold_false_alarm * (\n                len(self.optim_state.get(\"data_trim_list\"))\n            )\n\n")),
 m("thr shared",0,(THR,"            keep = self.options[\"warmup_keep_threshold\"]\n            threshold = keep + keep * len(self.optim_state[\"data_trim_list\"])\n")),
 m("keep far",1,(KEEP,KEEP.replace("<",">"))),
 m("keep flipped sub",0,(KEEP,"        idx_keep = self.function_logger.y_orig > y_max - threshold\n")),
 m("keep min",1,("        y_max = max(self.function_logger.y_orig[: self.function_logger.Xn + 1])","        y_max = min(self.function_logger.y_orig[: self.function_logger.Xn + 1])")),
 m("keep nanmax",0,("        y_max = max(self.function_logger.y_orig[: self.function_logger.Xn + 1])","        y_max = np.nanmax(self.function_logger.y_orig)")),
 m("max short",1,("        y_max = max(self.function_logger.y_orig[: self.function_logger.Xn + 1])","        y_max = max(self.function_logger.y_orig[: self.function_logger.Xn])")),
 m("D not D+1",1,("        n_keep_min = self.D + 1\n","        n_keep_min = self.D\n")),
 m("lt to le",0,("        if np.sum(idx_keep) < n_keep_min:\n","        if np.sum(idx_keep) <= n_keep_min:\n")),
 m("cond minus one",1,("        if np.sum(idx_keep) < n_keep_min:\n","        if np.sum(idx_keep) < n_keep_min - 1:\n")),
 m("cond inverted",1,("        if np.sum(idx_keep) < n_keep_min:\n","        if np.sum(idx_keep) > n_keep_min:\n")),
 m("no minimum",1,("            idx_keep[\n                order[: min(n_keep_min, self.function_logger.Xn + 1)]\n            ] = True\n","            pass\n")),
 m("ascending",1,("            order = np.argsort(y_temp * -1, axis=0)\n","            order = np.argsort(y_temp, axis=0)\n")),
 m("argsort neg",0,("            order = np.argsort(y_temp * -1, axis=0)\n","            order = np.argsort(-y_temp, axis=0)\n")),
 m("argsort rev",0,("            order = np.argsort(y_temp * -1, axis=0)\n","            order = np.argsort(y_temp, axis=0)[::-1]\n")),
 m("argsort rev bad",1,("            order = np.argsort(y_temp * -1, axis=0)\n","            order = np.argsort(-y_temp, axis=0)[::-1]\n")),
 m("readmit",1,(XF,"        self.function_logger.X_flag = idx_keep[:, 0]\n")),
 m("readmit or",1,(XF,XF.replace("logical_and","logical_or"))),
 m("amp",0,(XF,"        self.function_logger.X_flag = idx_keep.ravel() & self.function_logger.X_flag\n")),
 m("inplace",0,(XF,"        self.function_logger.X_flag[~idx_keep[:, 0]] = False\n")),
 m("inplace wrong",1,(XF,"        self.function_logger.X_flag[idx_keep[:, 0]] = True\n")),
 m("no trim at end",1,(XF,"        if self.optim_state[\"warmup\"]:\n"+XF.replace("\n        ","\n            ").replace("        self","            self",1))),
 m("skip const",1,("        self.optim_state[\"skip_active_sampling\"] = self.options.get(\n            \"skip_active_sampling_after_warmup\"\n        )\n","        self.optim_state[\"skip_active_sampling\"] = True\n")),
 m("no recompute",1,("        # Fully recompute variational posterior\n        self.optim_state[\"recompute_var_post\"] = True\n\n    def _check_term","\n    def _check_term")),
 # loop
 m("outside warmup",1,(LOOPC,"            if self.iteration > 0:\n")),
 m("verdict ignored",1,(SETUPCALL,SETUPCALL.replace("if trim_flag:","if True:"))),
 m("verdict inverted",1,(SETUPCALL,SETUPCALL.replace("if trim_flag:","if not trim_flag:"))),
 m("inline verdict",0,("                trim_flag = self._check_warmup_end_conditions()\n                if trim_flag:\n","                if self._check_warmup_end_conditions():\n")),
 m("no reupdate",1,(SETUPCALL,SETUPCALL.replace("                    self.gp = reupdate_gp(self.function_logger, self.gp)\n",""))),
 m("reupdate only still warm",1,(SETUPCALL,SETUPCALL.replace("                    self.gp =","                    if self.optim_state[\"warmup\"]:\n                        self.gp ="))),
 m("loop nested",0,(LOOPC,"            still = self.optim_state[\"warmup\"]\n            if self.iteration > 0 and still:\n")),
 m("mu not freed",1,("                    self.vp.optimize_mu = self.options.get(\"variable_means\")\n                    self.vp.optimize_weights = self.options.get(\n                        \"variable_weights\"\n                    )\n\n                    # Switch","                    # Switch")),
 m("weights true",1,("                    self.vp.optimize_weights = self.options.get(\n                        \"variable_weights\"\n                    )\n\n                    # Switch","                    self.vp.optimize_weights = True\n\n                    # Switch")),
 m("restart",1,(LOOPC,"            if self.optim_state[\"recompute_var_post\"]:\n                self.optim_state[\"warmup\"] = True\n"+LOOPC)),
 m("boost warm",1,("            # End warmup\n            self.optim_state[\"warmup\"] = False\n","")),
 m("init const",1,("        optim_state[\"warmup\"] = self.options.get(\"warmup\")\n","        optim_state[\"warmup\"] = True\n")),
 m("helper for trim",0,(XF,"        self._trim(idx_keep[:, 0])\n"),("    def _check_termination_conditions(self):","    def _trim(self, keep):\n        self.function_logger.X_flag = np.logical_and(self.function_logger.X_flag, keep)\n\n    def _check_termination_conditions(self):")),
 m("helper for improvement",0,(SCF,"            stable_count_flag = self._flat(max_now, max_before, stop_warmup_thresh)\n"),("    def _setup_vbmc_after_warmup(self):","    @staticmethod\n    def _flat(now, before, thresh):\n        return (now - before) < thresh\n\n    def _setup_vbmc_after_warmup(self):")),
 m("noop",0,("        iteration = self.optim_state.get(\"iter\")\n\n        # First requirement","        iteration = self.optim_state.get(\"iter\")\n        _ = len(self.options)\n        # First requirement")),
]
