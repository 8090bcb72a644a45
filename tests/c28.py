V="vbmc/vbmc.py"; O="vbmc/variational_optimization.py"
def m(name,exp,*ed): return (name,"C28",exp,[(O,a,b) for a,b in ed])
def v(name,exp,*ed): return (name,"C28",exp,[(V,a,b) for a,b in ed])
W="    if not optim_state[\"warmup\"] and optim_state[\"iter\"] > 0:\n"
RES="        K_new = max(optim_state[\"vp_K\"], min(K_new, K_max))\n"
ADD="        if iteration_history[\"pruned\"][-1] == 0 and improving_flag:\n            K_new += 1\n"
BON="""            iteration_history["r_index"][-1] < 1
            and not optim_state["recompute_var_post"]
            and improving_flag
"""
PA="            if np.all(iteration_history[\"pruned\"][new_lower_end:] == 0):\n                K_new += K_bonus\n"
IMP="""        improving_flag = elcbos_after[-1] >= elcbo_max and np.isfinite(
            elcbos_after[-1]
        )
"""
SEL="""            idx = np.argwhere(
                (vp.w < options["tol_weight"]).ravel() & ~already_checked
            ).ravel()
"""
DE="            if delta_elcbo < pruning_threshold:\n"
CASES=[
 m("in warmup",1,(W,"    if optim_state[\"iter\"] > 0:\n")),
 m("only warmup",1,(W,W.replace("not ",""))),
 m("iter 1",1,(W,W.replace("> 0","> 1"))),
 m("iter ge",1,(W,W.replace("> 0",">= 0"))),
 m("iter ge1 ok",0,(W,W.replace("> 0",">= 1"))),
 m("early return",0,(W,"    if optim_state[\"warmup\"] or optim_state[\"iter\"] == 0:\n        return K_new\n    else:\n")),
 m("no cap",1,(RES,"        K_new = max(optim_state[\"vp_K\"], K_new)\n")),
 m("can shrink",1,(RES,"        K_new = min(K_new, K_max)\n")),
 m("swap",1,(RES,"        K_new = min(optim_state[\"vp_K\"], max(K_new, K_max))\n")),
 m("clip",0,(RES,"        K_new = int(np.clip(K_new, optim_state[\"vp_K\"], max(K_max, optim_state[\"vp_K\"])))\n")),
 m("min of max",0,(RES,"        K_new = min(K_new, max(K_max, optim_state[\"vp_K\"]))\n")),
 m("cap floor",1,("    K_max = math.ceil(options","    K_max = math.floor(options")),
 m("cap N",1,("{\"N\": optim_state[\"n_eff\"]}","{\"N\": optim_state[\"N\"]}")),
 m("np ceil",0,("    K_max = math.ceil(options.eval(\"k_fun_max\", {\"N\": optim_state[\"n_eff\"]}))","    K_max = int(np.ceil(options.eval(\"k_fun_max\", {\"N\": optim_state[\"n_eff\"]})))")),
 m("bonus unrounded",1,("    K_bonus = round(options.eval(\"adaptive_k\", {\"unkn\": K_new}))","    K_bonus = options.eval(\"adaptive_k\", {\"unkn\": K_new})")),
 m("add two",1,(ADD,ADD.replace("+= 1","+= 2"))),
 m("add not improving",1,(ADD,ADD.replace(" and improving_flag",""))),
 m("add although pruned",1,(ADD,ADD.replace("iteration_history[\"pruned\"][-1] == 0 and ",""))),
 m("add or",1,(ADD,ADD.replace("and","or"))),
 m("add pruned first",1,(ADD,ADD.replace("[-1]","[0]"))),
 m("add arithmetic",0,(ADD,"        K_new += int(iteration_history[\"pruned\"][-1] == 0 and improving_flag)\n")),
 m("add ternary",0,(ADD,"        K_new = K_new + 1 if improving_flag and not iteration_history[\"pruned\"][-1] > 0 else K_new\n")),
 m("bonus r le",1,(BON,BON.replace("< 1","<= 1"))),
 m("bonus r other",1,(BON,BON.replace("< 1","< 5"))),
 m("bonus recompute",1,(BON,BON.replace("            and not optim_state[\"recompute_var_post\"]\n",""))),
 m("bonus recompute inverted",1,(BON,BON.replace("and not optim","and optim"))),
 m("bonus not improving",1,(BON,BON.replace("            and improving_flag\n",""))),
 m("bonus nested",0,("        if (\n"+BON+"        ):\n            # No bonus","        stable = iteration_history[\"r_index\"][-1] < 1\n        if improving_flag and stable and not optim_state[\"recompute_var_post\"]:\n            # No bonus")),
 m("bonus any",1,(PA,PA.replace("np.all","np.any"))),
 m("bonus not any ok",0,(PA,PA.replace("if np.all(iteration_history[\"pruned\"][new_lower_end:] == 0)","if not np.any(iteration_history[\"pruned\"][new_lower_end:] > 0)"))),
 m("bonus any truth ok",0,(PA,PA.replace("if np.all(iteration_history[\"pruned\"][new_lower_end:] == 0)","if not np.any(iteration_history[\"pruned\"][new_lower_end:])"))),
 m("bonus whole",1,(PA,PA.replace("[new_lower_end:]","[lower_end:]"))),
 m("bonus unconditional",1,(PA,"            K_new += K_bonus\n")),
 m("bonus replaces",1,(PA,PA.replace("+= K_bonus","= K_bonus"))),
 m("imp gt",1,(IMP,IMP.replace(">=",">"))),
 m("imp no finite",1,(IMP,"        improving_flag = elcbos_after[-1] >= elcbo_max\n")),
 m("imp first",1,(IMP,IMP.replace("elcbos_after[-1] >=","elcbos_after[0] >="))),
 m("imp isfinite first",0,(IMP,"        last = elcbos_after[-1]\n        improving_flag = bool(np.isfinite(last) and not last < elcbo_max)\n")),
 m("elcbo plus",1,("        elcbos = elbos - options","        elcbos = elbos + options")),
 m("elcbo unweighted",1,("        elcbos = elbos - options[\"elcbo_impro_weight\"] * elboSDs","        elcbos = elbos - elboSDs")),
 m("warmups not inverted",1,("elcbos[~warmups]","elcbos[warmups]")),
 m("logical not",0,("elcbos[~warmups]","elcbos[np.logical_not(warmups)]")),
 m("one ignored",1,("        elcbos_after[0 : min(2, optim_state[\"iter\"] + 1)] = -np.inf","        elcbos_after[0 : min(1, optim_state[\"iter\"] + 1)] = -np.inf")),
 m("none ignored",1,("        elcbos_after[0 : min(2, optim_state[\"iter\"] + 1)] = -np.inf\n","")),
 m("two ignored ok",0,("        elcbos_after[0 : min(2, optim_state[\"iter\"] + 1)] = -np.inf\n","        elcbos_after[:2] = -np.inf\n")),
 m("plus inf",1,("        elcbos_after[0 : min(2, optim_state[\"iter\"] + 1)] = -np.inf\n","        elcbos_after[:2] = np.inf\n")),
 m("elcbo min",1,("        elcbo_max = np.max(elcbos_after)","        elcbo_max = np.min(elcbos_after)")),
 m("window full",1,("            0.5 * options[\"tol_stable_count\"]","            options[\"tol_stable_count\"]")),
 m("window half ok",0,("            0.5 * options[\"tol_stable_count\"] / options","            options[\"tol_stable_count\"] / 2 / options")),
 m("sd other window",1,("        elboSDs = iteration_history[\"elbo_sd\"][lower_end:]","        elboSDs = iteration_history[\"elbo_sd\"][lower_end - 1 :]")),
 m("rename",0,("        recent_iters = math.ceil(\n","        span = recent_iters = math.ceil(\n")),
 m("helper imp",0,(IMP,"        improving_flag = _improves(elcbos_after, elcbo_max)\n"),("def update_K(\n","def _improves(x, best):\n    return x[-1] >= best and np.isfinite(x[-1])\n\n\ndef update_K(\n")),
 # pruning
 m("prune heavy",1,(SEL,SEL.replace("<",">"))),
 m("prune again",1,(SEL,SEL.replace(" & ~already_checked",""))),
 m("prune fixed weights",1,("    if vp.optimize_weights:\n        already","    if True:\n        already")),
 m("prune min",0,(SEL,SEL.replace("np.argwhere(","np.flatnonzero(").replace("            ).ravel()\n","            )\n"))),
 m("prune inverse",1,(DE,DE.replace("<",">"))),
 m("prune signed",1,("            delta_elcbo = np.abs(\n                (elbo_pruned","            delta_elcbo = (\n                (elbo_pruned")),
 m("prune thr",1,("            pruning_threshold = options[\"tol_improvement\"] * options.eval(","            pruning_threshold = options.eval(")),
 m("prune elbo only",1,("                - (elbo - options[\"elcbo_impro_weight\"] * elbo_sd)\n","                - elbo\n")),
 m("prune inline",0,(DE,"            if not delta_elcbo >= pruning_threshold:\n")),
 m("prune always",1,(DE,"            if True:\n")),
 # wiring
 v("K of vp",1,("                N_fastopts,\n                N_slowopts,\n                Knew,\n            )\n\n            self","                N_fastopts,\n                N_slowopts,\n                self.vp.K,\n            )\n\n            self")),
 v("K omitted",1,("                N_fastopts,\n                N_slowopts,\n                Knew,\n            )\n\n            self","                N_fastopts,\n                N_slowopts,\n            )\n\n            self")),
 v("K kw",0,("                N_fastopts,\n                N_slowopts,\n                Knew,\n            )\n\n            self","                N_fastopts,\n                N_slowopts,\n                K=Knew,\n            )\n\n            self")),
 v("recorded wanted",1,("            )\n\n            self.optim_state[\"vp_K\"] = self.vp.K\n","            )\n\n            self.optim_state[\"vp_K\"] = Knew\n")),
 v("not recorded",1,("            )\n\n            self.optim_state[\"vp_K\"] = self.vp.K\n","            )\n\n")),
 v("recorded minus pruned",0,("            )\n\n            self.optim_state[\"vp_K\"] = self.vp.K\n","            )\n            n_comp = self.vp.K\n            self.optim_state[\"vp_K\"] = n_comp\n")),
 v("start",1,("        optim_state[\"vp_K\"] = self.options.get(\"k_warmup\")","        optim_state[\"vp_K\"] = self.options.get(\"min_final_components\")")),
 v("boost K",1,("        K_new = max(vp.K, self.options.get(\"min_final_components\"))","        K_new = self.options.get(\"min_final_components\")")),
 v("boost min",1,("        K_new = max(vp.K, self.options.get(\"min_final_components\"))","        K_new = min(vp.K, self.options.get(\"min_final_components\"))")),
 v("boost prunes",1,("            options.__setitem__(\"tol_weight\", 0, force=True)\n","")),
 v("boost npmax",0,("        K_new = max(vp.K, self.options.get(\"min_final_components\"))","        K_new = int(np.maximum(self.options[\"min_final_components\"], vp.K))")),
]
