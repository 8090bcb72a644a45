V="vbmc/vbmc.py"; H="vbmc/iteration_history.py"; FL="function_logger/function_logger.py"; O="vbmc/options.py"
def m(name,exp,f,*ed): return (name,"C07",exp,[(f,a,b) for a,b in ed])
CASES=[
 m("record nocopy",1,H,("            self[key][iteration] = copy.deepcopy(value)","            self[key][iteration] = value")),
 m("record shallow",1,H,("            self[key][iteration] = copy.deepcopy(value)","            self[key][iteration] = copy.copy(value)")),
 m("setitem nocopy",1,H,("dict.__setitem__(self, key, copy.deepcopy(val))","dict.__setitem__(self, key, val)")),
 m("neg ok",1,H,("""        if iteration < 0:
            raise ValueError("The iteration must be >= 0.")
        if key""","""        if iteration < -1:
            raise ValueError("The iteration must be >= 0.")
        if key""")),
 m("names unlocked",1,H,("        self.check_keys = True\n","")),
 m("setitem check",1,H,("if self.check_keys and key not in self:","if self.check_keys and key is None:")),
 m("index off",1,H,("self[key][iteration] = copy","self[key][iteration - 1] = copy")),
 m("continue nocopy",1,V,("            self.vp = copy.deepcopy(self.iteration_history[\"vp\"][-1])","            self.vp = self.iteration_history[\"vp\"][-1]")),
 m("best nocopy",1,V,("        self.vp = copy.deepcopy(best_vp)","        self.vp = best_vp")),
 m("warp nocopy",0,V,("                vp_tmp = copy.deepcopy(vp_tmp)\n","")),
 m("optim state nocopy",1,V,("            self.optim_state = copy.deepcopy(\n                self.iteration_history[\"optim_state\"][-1]\n            )","            self.optim_state = self.iteration_history[\"optim_state\"][-1]")),
 m("load no cut",1,V,("""            for k, v in vbmc.iteration_history.items():
                if v is not None:
                    vbmc.iteration_history[k] = vbmc.iteration_history[k][
                        : (iteration + 1)
                    ]
""","")),
 m("gp recorded sometimes",1,V,("                \"gp\": self.gp,\n",""),("            # Check warmup\n","            if self.iteration % 2 == 0:\n                self.iteration_history.record('gp', self.gp, self.iteration)\n            # Check warmup\n")),
 m("rs cond",1,V,("            self.random_state = np.random.get_state()\n            self.iteration_history.record_iteration(","            self.random_state = np.random.get_state()\n            if not self.is_finished: self.iteration_history.record_iteration(")),
 m("warmup cond",1,V,("            self.iteration_history.record(\n                \"warmup\", self.optim_state.get(\"warmup\"), self.iteration\n            )","            if self.iteration > 0:\n                self.iteration_history.record(\n                    \"warmup\", self.optim_state.get(\"warmup\"), self.iteration\n                )")),
 m("stable early return",1,V,("        # Store stability flag\n        self.iteration_history.record(\"stable\", stableflag, iteration)\n\n        # Prevent early termination\n","        if self.function_logger.func_count < self.options.get(\"min_fun_evals\"):\n            return False, ''\n        self.iteration_history.record(\"stable\", stableflag, iteration)\n")),
 m("rindex index",1,V,("self.iteration_history.record(\"r_index\", r_index, iteration)","self.iteration_history.record(\"r_index\", r_index, iteration - 1)")),
 m("elbo swap",1,V,("                \"elbo_sd\": elbo_sd,\n                \"var_ss\"","                \"elbo_sd\": elbo,\n                \"var_ss\"")),
 m("logger shallow",1,FL,("setattr(result, k, deepcopy(v, memo))","setattr(result, k, v)")),
 m("logger dictupdate",1,FL,("        for k, v in self.__dict__.items():","        result.__dict__.update(self.__dict__)\n        return result\n        for k, v in self.__dict__.items():")),
 m("record direct write",1,V,("            self.optim_state[\"R\"] = r_index\n" if 0 else "        self.optim_state[\"R\"] = r_index\n","        self.optim_state[\"R\"] = r_index\n        self.iteration_history[\"optim_state\"][-1][\"R\"] = r_index\n")),
 m("gp prev mutated",1,V,("                    previous_gp = self.iteration_history[\"gp\"][\n                        self.iteration - 1\n                    ]\n","                    previous_gp = self.iteration_history[\"gp\"][\n                        self.iteration - 1\n                    ]\n                    previous_gp.clean()\n")),
 # refactors
 m("helper record",0,V,("            self.iteration_history.record_iteration(\n                iteration_values,\n                self.iteration,\n            )","            self._rec(iteration_values)"),("    def _check_termination_conditions(self):","    def _rec(self, values):\n        self.iteration_history.record_iteration(values, iteration=self.iteration)\n\n    def _check_termination_conditions(self):")),
 m("dict stepwise",0,V,("                \"function_logger\": self.function_logger,\n            }\n","            }\n            iteration_values[\"function_logger\"] = self.function_logger\n")),
 m("loop record",0,V,("""            self.iteration_history.record_iteration(
                {
                    "optim_state": self.optim_state,
                    "random_state": self.random_state,
                },
                self.iteration,
            )""","""            for name, val in (("optim_state", self.optim_state), ("random_state", self.random_state)):
                self.iteration_history.record(name, val, self.iteration)""")),
 m("load deepcopy",0,V,("                        vbmc, attr, vbmc.iteration_history[attr][iteration]","                        vbmc, attr, copy.deepcopy(vbmc.iteration_history[attr][iteration])")),
 m("record via local",0,H,("            self[key][iteration] = copy.deepcopy(value)","            row = self[key]\n            row[iteration] = copy.deepcopy(value)")),
 m("record nested",0,H,("        if iteration < 0:\n            raise ValueError(\"The iteration must be >= 0.\")\n        if key","        self._chk(iteration)\n        if key"),("    def _expand_array","    def _chk(self, iteration):\n        if not iteration >= 0:\n            raise ValueError(\"The iteration must be >= 0.\")\n\n    def _expand_array")),
 m("recit keys",0,H,("        for key, value in key_value.items():\n            if key","        for key in key_value:\n            value = key_value[key]\n            if key")),
 m("setitem invert",0,H,("""        if self.check_keys and key not in self:
            raise""","""        if not self.check_keys or key in self:
            dict.__setitem__(self, key, copy.deepcopy(val))
            return
        if self.check_keys and key not in self:
            raise""")),
 m("dcopy comp",0,FL,("                setattr(result, k, deepcopy(v, memo))","                result.__dict__[k] = deepcopy(v, memo)")),
]
