V="vbmc/vbmc.py"; O="vbmc/variational_optimization.py"
def m(name,exp,f,*ed): return (name,"C08",exp,[(f,a,b) for a,b in ed])
PR="                vp = vp_pruned\n                elbo = elbo_pruned\n                elbo_sd = elbo_pruned_sd\n"
CASES=[
 m("no copy",1,V,("        return copy.deepcopy(self.vp), results\n","        return self.vp, results\n")),
 m("return best",1,V,("        return copy.deepcopy(self.vp), results\n","        return copy.deepcopy(self.iteration_history[\"vp\"][-1]), results\n")),
 m("alias ok",0,V,("        return copy.deepcopy(self.vp), results\n","        final = self.vp\n        out = copy.deepcopy(final)\n        return out, results\n")),
 m("idx last",1,V,("            idx_best, termination_message, success_flag\n        )","            self.iteration, termination_message, success_flag\n        )")),
 m("gp last",1,V,("                self.vp, self.iteration_history[\"gp\"][idx_best]\n","                self.vp, self.gp\n")),
 m("gp get ok",0,V,("                self.vp, self.iteration_history[\"gp\"][idx_best]\n","                gp=self.iteration_history.get(\"gp\")[idx_best], vp=self.vp\n")),
 m("success cur",1,V,("        if self.vp.stats[\"stable\"]:\n            success_flag","        if self.iteration_history[\"stable\"][-1]:\n            success_flag")),
 m("success hist ok",0,V,("        if self.vp.stats[\"stable\"]:\n            success_flag = True\n        else:\n            success_flag = False\n","        success_flag = bool(self.iteration_history[\"stable\"][idx_best])\n")),
 m("success bool ok",0,V,("        if self.vp.stats[\"stable\"]:\n            success_flag = True\n        else:\n            success_flag = False\n","        success_flag = bool(self.vp.stats[\"stable\"])\n")),
 m("success inv",1,V,("        if self.vp.stats[\"stable\"]:\n            success_flag = True\n","        if not self.vp.stats[\"stable\"]:\n            success_flag = True\n")),
 m("n_eff last",1,V,("self.iteration_history[\"n_eff\"][idx_best]","self.optim_state[\"n_eff\"]")),
 m("r last",1,V,("        output[\"r_index\"] = self.iteration_history[\"r_index\"][idx_best]","        output[\"r_index\"] = self.optim_state[\"R\"]")),
 m("components",1,V,("        output[\"components\"] = self.vp.K","        output[\"components\"] = self.optim_state[\"vp_K\"]")),
 m("elbo hist",1,V,("        output[\"elbo\"] = self.vp.stats[\"elbo\"]","        output[\"elbo\"] = self.iteration_history[\"elbo\"][idx_best]")),
 m("elbo_sd",1,V,("        output[\"elbo_sd\"] = self.vp.stats[\"elbo_sd\"]","        output[\"elbo_sd\"] = self.vp.stats[\"entropy_sd\"]")),
 m("func_count",1,V,("        output[\"func_count\"] = self.function_logger.func_count","        output[\"func_count\"] = self.optim_state[\"N\"]")),
 m("iterations",1,V,("        output[\"iterations\"] = self.optim_state[\"iter\"] + 1","        output[\"iterations\"] = self.optim_state[\"iter\"]")),
 m("iterations2",0,V,("        output[\"iterations\"] = self.optim_state[\"iter\"] + 1","        output[\"iterations\"] = 1 + self.iteration")),
 m("conv swapped",1,V,("            output[\"convergence_status\"] = \"probable\"\n        else:\n            output[\"convergence_status\"] = \"no\"","            output[\"convergence_status\"] = \"no\"\n        else:\n            output[\"convergence_status\"] = \"probable\"")),
 m("conv last",1,V,("        if self.iteration_history[\"stable\"][idx_best]:\n            output","        if self.iteration_history[\"stable\"][-1]:\n            output")),
 m("conv ternary",0,V,("        if self.iteration_history[\"stable\"][idx_best]:\n            output[\"convergence_status\"] = \"probable\"\n        else:\n            output[\"convergence_status\"] = \"no\"","        output[\"convergence_status\"] = \"probable\" if self.iteration_history[\"stable\"][idx_best] else \"no\"")),
 m("literal dict",0,V,("        output = {}\n        output[\"function\"] = str(self.function_logger.fun)\n","        output = {\"function\": str(self.function_logger.fun), \"components\": self.vp.K}\n"),("        output[\"components\"] = self.vp.K\n","")),
 m("problem",1,V,("self.optim_state[\"lb_orig\"])) and np.all(\n            np.isinf(self.optim_state[\"ub_orig\"])","self.optim_state[\"lb_tran\"])) and np.all(\n            np.isinf(self.optim_state[\"ub_tran\"])")),
 m("boost stable lost",1,V,("            vp.stats[\"stable\"] = stable_flag\n            changed_flag","            changed_flag")),
 m("boost stable true",1,V,("            vp.stats[\"stable\"] = stable_flag\n","            vp.stats[\"stable\"] = True\n")),
 m("boost stable after",1,V,("            stable_flag = np.copy(vp.stats[\"stable\"])\n",""),("            vp.stats[\"stable\"] = stable_flag\n","            stable_flag = np.copy(vp.stats[\"stable\"])\n            vp.stats[\"stable\"] = stable_flag\n")),
 m("boost flag",1,V,("            changed_flag = True\n","")),
 m("boost elbo stale",1,V,("        elbo = vp.stats[\"elbo\"]\n        elbo_sd = vp.stats[\"elbo_sd\"]\n        return vp, elbo, elbo_sd, changed_flag","        return vp, elbo, elbo_sd, changed_flag"),("        changed_flag = False\n\n        K_new","        changed_flag = False\n        elbo = vp.stats[\"elbo\"]\n        elbo_sd = vp.stats[\"elbo_sd\"]\n\n        K_new")),
 m("boost self gp",1,V,("                vp,\n                gp,\n                n_fast_opts,\n                n_slow_opts,\n                K_new,","                vp,\n                self.gp,\n                n_fast_opts,\n                n_slow_opts,\n                K_new,")),
 m("boost keep",0,V,("            stable_flag = np.copy(vp.stats[\"stable\"])\n            vp, __, __ = optimize_vp(","            was_stable = vp.stats[\"stable\"]\n            boosted, _, _ = optimize_vp("),("            vp.stats[\"stable\"] = stable_flag\n","            boosted.stats[\"stable\"] = was_stable\n            vp = boosted\n")),
 m("record elbo",1,V,("                \"elbo_sd\": elbo_sd,\n                \"var_ss\"","                \"elbo_sd\": self.vp.stats[\"entropy_sd\"],\n                \"var_ss\"")),
 m("argmin nelbo",1,O,("    idx = np.argmin(elbo_stats[\"nelcbo\"])","    idx = np.argmin(elbo_stats[\"nelbo\"])")),
 m("sign",1,O,("    elbo = -elbo_stats[\"nelbo\"][idx]","    elbo = -elbo_stats[\"nelcbo\"][idx]")),
 m("varG",1,O,("    elbo_sd = np.sqrt(elbo_stats[\"varF\"][idx])","    elbo_sd = np.sqrt(elbo_stats[\"varG\"][idx])")),
 m("nosqrt",1,O,("    vp.stats[\"entropy_sd\"] = np.sqrt(varH)","    vp.stats[\"entropy_sd\"] = varH")),
 m("theta row",1,O,("    vp.set_parameters(elbo_stats[\"theta\"][idx, :])","    vp.set_parameters(elbo_stats[\"theta\"][-1, :])")),
 m("fine row",1,O,("    vp = vp0_fine[idx]\n","    vp = vp0_fine[1]\n")),
 m("prune elbo not updated",1,O,(PR,"                vp = vp_pruned\n                elbo_sd = elbo_pruned_sd\n")),
 m("prune eval unpruned",1,O,("                theta_pruned,\n                vp_pruned,\n","                theta_pruned,\n                vp,\n")),
 m("prune entropy",1,O,("                H = elbo_stats[\"H\"][0]\n","")),
 m("prune G H",1,O,("                G = elbo_stats[\"G\"][0]\n                H = elbo_stats[\"H\"][0]\n","                G = elbo_stats[\"H\"][0]\n                H = elbo_stats[\"G\"][0]\n")),
 m("eval swap",1,O,("    elbo_stats[\"G\"][idx] = G\n    elbo_stats[\"H\"][idx] = H\n","    elbo_stats[\"G\"][idx] = H\n    elbo_stats[\"H\"][idx] = G\n")),
 m("eval nelcbo",1,O,("    nelcbo = nelbo + beta * np.sqrt(varF)","    nelcbo = nelbo - beta * np.sqrt(varF)")),
 m("eval beta",1,O,("        theta,\n        gp,\n        vp,\n        0,\n        ns_ent_fine_K,","        theta,\n        gp,\n        vp,\n        beta,\n        ns_ent_fine_K,")),
 m("neg sign",1,O,("    F = -G - H\n","    F = -G + H\n")),
 m("neg ok",0,O,("    F = -G - H\n","    F = -(H + G)\n")),
 m("helper tail",0,V,("        # Set exit_flag based on stability\n        if self.vp.stats[\"stable\"]:\n            success_flag = True\n        else:\n            success_flag = False\n","        success_flag = self._is_success()\n"),("    def _create_result_dict(","    def _is_success(self):\n        if self.vp.stats[\"stable\"]:\n            return True\n        return False\n\n    def _create_result_dict(")),
 m("prune helper vars",0,O,("                H = elbo_stats[\"H\"][0]\n                var_ss","                slot = 0\n                H = elbo_stats[\"H\"][slot]\n                var_ss")),
]
