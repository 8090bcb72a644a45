V="vbmc/vbmc.py"
def m(name,exp,*ed): return (name,"C09",exp,[(V,a,b) for a,b in ed])
ST="                        >= tol_stable_iters / 3\n"
CASES=[
 m("max evals strict",1,("        if self.function_logger.func_count >= self.options.get(\n            \"max_fun_evals\"","        if self.function_logger.func_count > self.options.get(\n            \"max_fun_evals\"")),
 m("max evals wrong counter",1,("        if self.function_logger.func_count >= self.options.get(\n            \"max_fun_evals\"","        if self.optim_state[\"N\"] >= self.options.get(\n            \"max_fun_evals\"")),
 m("max iter off",1,("        if iteration + 1 >= self.options.get(\"max_iter\")","        if iteration >= self.options.get(\"max_iter\")")),
 m("max iter gt",0,("        if iteration + 1 >= self.options.get(\"max_iter\")","        if iteration + 2 > self.options.get(\"max_iter\")")),
 m("elif max iter",0,("        iteration = self.optim_state.get(\"iter\")\n        if iteration + 1 >=","        iteration = self.optim_state[\"iter\"]\n        if iteration + 1 >=")),
 m("min and",1,("        ) or iteration < self.options.get(\"min_iter\"):","        ) and iteration < self.options.get(\"min_iter\"):")),
 m("min iter plus one ok",0,("        ) or iteration < self.options.get(\"min_iter\"):","        ) or iteration + 1 < self.options.get(\"min_iter\"):")),
 m("min iter bad",1,("        ) or iteration < self.options.get(\"min_iter\"):","        ) or iteration + 2 < self.options.get(\"min_iter\"):")),
 m("min only stable",1,("        # Prevent early termination\n        if self","        # Prevent early termination\n        if stableflag and self")),
 m("no min",1,("        ) or iteration < self.options.get(\"min_iter\"):\n            is_finished_flag = False","        ) or iteration < self.options.get(\"min_iter\"):\n            pass")),
 m("r le",1,("            and r_index < 1\n","            and r_index <= 1\n")),
 m("impro le",0,("ELCBO_improvement < self.options.get(\"tol_improvement\")","ELCBO_improvement <= self.options.get(\"tol_improvement\")")),
 m("impro wrong",1,("ELCBO_improvement < self.options.get(\"tol_improvement\")","ELCBO_improvement < self.options.get(\"tol_sd\")")),
 m("warp div",1,(ST,"                        >= tol_stable_iters / 2\n")),
 m("warp gt",1,(ST,"                        > tol_stable_iters / 3\n")),
 m("warp omitted",1,("                        - self.optim_state.get(\"last_successful_warping\", 0)\n","")),
 m("window",1,("iteration - tol_stable_iters + 1 : iteration\n","iteration - tol_stable_iters : iteration\n")),
 m("window incl eq",0,("iteration - tol_stable_iters + 1 : iteration\n","iteration - tol_stable_iters + 1 : iteration + 1\n"),("                )\n                - 1\n            ):","                )\n            ):")),
 m("window incl bad",1,("iteration - tol_stable_iters + 1 : iteration\n","iteration - tol_stable_iters + 1 : iteration + 1\n")),
 m("count",1,("                )\n                - 1\n            ):","                )\n            ):")),
 m("switch ignored",1,("                if self.optim_state.get(\"entropy_switch\"):\n                    # If","                if self.optim_state.get(\"entropy_switch\") and iteration < 0:\n                    # If")),
 m("stable under switch",1,("                    self.logging_action.append(\"entropy switch\")\n                else:","                    self.logging_action.append(\"entropy switch\")\n                    stableflag = True\n                else:")),
 m("stable only when away",1,("                            + \"fcn evaluations.\"\n                        )\n                    stableflag = True\n","                            + \"fcn evaluations.\"\n                        )\n                        stableflag = True\n")),
 m("messages swapped",1,("                + \"of iterations options.max_iter.\"","                + \"of function evaluations options.max_fun_evals.\"")),
 m("no message",1,("            termination_message = (\n                \"Inference terminated: reached maximum number \"\n                + \"of iterations options.max_iter.\"\n            )\n","")),
 m("message first wins",0,("            is_finished_flag = True\n            termination_message = (\n                \"Inference terminated: reached maximum number \"\n                + \"of iterations options.max_iter.\"\n            )\n","            is_finished_flag = True\n            termination_message = termination_message or (\n                \"Inference terminated: reached maximum number \"\n                + \"of iterations options.max_iter.\"\n            )\n")),
 m("other condition",1,("        # Prevent early termination\n","        if self.vp.K >= 50:\n            is_finished_flag = True\n            termination_message = \"Inference terminated: stable\"\n\n        # Prevent early termination\n")),
 m("tol swap",1,("tol_stable_iters = self.options.get(\"tol_stable_entropy_iters\")","tol_stable_iters = self.options.get(\"tol_stable_count\")")),
 m("tol floor",1,("                math.ceil(\n                    self.options.get(\"tol_stable_count\")","                math.floor(\n                    self.options.get(\"tol_stable_count\")")),
 m("tol ternary",0,("        if self.optim_state.get(\"entropy_switch\"):\n            tol_stable_iters = self.options.get(\"tol_stable_entropy_iters\")\n        else:\n            tol_stable_iters = int(\n                math.ceil(\n                    self.options.get(\"tol_stable_count\")\n                    / self.options.get(\"fun_evals_per_iter\")\n                )\n            )\n","        tol_stable_iters = (\n            self.options[\"tol_stable_entropy_iters\"]\n            if self.optim_state[\"entropy_switch\"]\n            else int(np.ceil(self.options[\"tol_stable_count\"] / self.options[\"fun_evals_per_iter\"]))\n        )\n")),
 m("guard in return",0,("        # Prevent early termination\n        if self.function_logger.func_count < self.options.get(\n            \"min_fun_evals\"\n        ) or iteration < self.options.get(\"min_iter\"):\n            is_finished_flag = False\n\n        return (\n            is_finished_flag,","        enough = self.function_logger.func_count >= self.options[\"min_fun_evals\"] and not iteration < self.options[\"min_iter\"]\n\n        return (\n            is_finished_flag and enough,")),
 m("flag expr",0,("        if self.function_logger.func_count >= self.options.get(\n            \"max_fun_evals\"\n        ):\n            is_finished_flag = True\n","        is_finished_flag = not self.function_logger.func_count < self.options[\"max_fun_evals\"]\n        if is_finished_flag:\n")),
 m("helper guard",0,("        if self.function_logger.func_count < self.options.get(\n            \"min_fun_evals\"\n        ) or iteration < self.options.get(\"min_iter\"):\n","        if self._too_early(iteration):\n"),("    def _compute_reliability_index(","    def _too_early(self, iteration):\n        if self.function_logger.func_count < self.options[\"min_fun_evals\"]:\n            return True\n        return iteration < self.options[\"min_iter\"]\n\n    def _compute_reliability_index(")),
 m("helper all",0,("            stable_count = np.sum(","            stable_count = np.count_nonzero("),),
 m("rel ELBO",1,("iteration_history.get(\"elbo\")[iteration_idx - 1]\n            )\n            / tol_sd","iteration_history.get(\"elbo\")[iteration_idx - 2]\n            )\n            / tol_sd")),
 m("rel noabs",1,("            np.abs(\n                self.iteration_history.get(\"elbo\")[iteration_idx]","            (\n                self.iteration_history.get(\"elbo\")[iteration_idx]")),
 m("rel skl",1,("        ] / self.options.get(\"tol_skl\")","        ] / self.options.get(\"tol_sd\")")),
 m("rel max tol",1,("        tol_sd = min(\n            max(self.","        tol_sd = max(\n            max(self.")),
 m("rel clip",0,("        tol_sd = min(\n            max(self.options.get(\"tol_sd\"), tol_sn),\n            self.options.get(\"tol_sd\") * 10,\n        )","        tol_sd = np.clip(tol_sn, self.options[\"tol_sd\"], 10 * self.options[\"tol_sd\"])")),
 m("rel list",0,("        return np.mean(r_index_vec), ELCBO_improvement","        return np.mean([r_index_vec[1], r_index_vec[0], r_index_vec[2]]), ELCBO_improvement")),
 m("rel min",0,("        return np.mean(r_index_vec), ELCBO_improvement","        r_index = np.mean(r_index_vec)\n        return r_index, ELCBO_improvement")),
 m("rel early",1,("            r_index = np.inf\n","            r_index = 0.0\n")),
 m("slope idx",1,("            list(map(float, xx)), list(map(float, yy)), 1\n        )[0]","            list(map(float, xx)), list(map(float, yy)), 1\n        )[1]")),
 m("slope sign",0,("            list(map(float, xx)), list(map(float, yy)), 1\n","            [float(z) for z in xx], [float(z) for z in yy], 1\n")),
 m("slope window",1,("            * self.iteration_history.get(\"elbo_sd\")[idx0 : iteration_idx + 1]","            * self.iteration_history.get(\"elbo_sd\")[idx0 : iteration_idx]"),("xx = self.iteration_history.get(\"func_count\")[idx0 : iteration_idx + 1]","xx = self.iteration_history.get(\"func_count\")[idx0 : iteration_idx + 1]")),
 m("loop cond",1,("        while not self.is_finished:\n","        while not self.is_finished and self.iteration < 100:\n")),
 m("loop break",1,("            # Save stability\n","            if self.vp.K == 1:\n                break\n            # Save stability\n")),
 m("loop while true",0,("        while not self.is_finished:\n","        while True:\n"),("        # Pick \"best\" variational solution to return\n        best_vp","            if self.is_finished:\n                break\n        # Pick \"best\" variational solution to return\n        best_vp")),
 m("check not in warmup",1,("            (\n                self.is_finished,\n                termination_message,\n            ) = self._check_termination_conditions()\n","            if not self.optim_state[\"warmup\"]:\n                (\n                    self.is_finished,\n                    termination_message,\n                ) = self._check_termination_conditions()\n")),
 m("local verdict",0,("            (\n                self.is_finished,\n                termination_message,\n            ) = self._check_termination_conditions()\n","            done, termination_message = self._check_termination_conditions()\n            self.is_finished = done\n")),
 m("message fixed",1,("            idx_best, termination_message, success_flag\n        )","            idx_best, \"finished\", success_flag\n        )")),
 m("flag elsewhere",1,("                trim_flag = self._check_warmup_end_conditions()\n","                trim_flag = self._check_warmup_end_conditions()\n                self.is_finished = trim_flag and self.vp.K > 10\n")),
 m("result msg",1,("        output[\"message\"] = termination_message","        output[\"message\"] = \"ok\"")),
]
