CASES = globals().get("CASES", [])
F = "function_logger/function_logger.py"
CASES += [
 ("c01-nofinite", "C01", 1, F, "            or not np.isfinite(f_val_orig)\n            or not np.isreal(f_val_orig)\n        ):", "            or not np.isreal(f_val_orig)\n        ):"),
 ("c01-and", "C01", 1, F, "not np.isscalar(f_val_orig)\n            or not np.isfinite(f_val_orig)", "not np.isscalar(f_val_orig)\n            and not np.isfinite(f_val_orig)"),
 ("c01-sd0", "C01", 1, F, "or f_sd <= 0.0", "or f_sd < 0.0"),
 ("c01-doublecount", "C01", 1, F, "        self.func_count += 1\n", "        self.func_count += 1\n        if self.noise_flag:\n            self.func_count += 1\n"),
 ("c01-count-early", "C01", 1, F, [][0:0] or "        timer.start_timer(\"fun_time\")\n", "        self.func_count += 1\n        timer.start_timer(\"fun_time\")\n"),
 ("c01-swallow", "C01", 1, F, "                + str(x_orig),\n            )\n            raise\n", "                + str(x_orig),\n            )\n            f_val_orig, f_sd = -1e10, 1.0\n"),
 ("c01-record-x", "C01", 1, F, "f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, funtime)", "f_val, idx = self._record(x, x, f_val_orig, f_sd, funtime)"),
 ("c01-fun-x", "C01", 1, F, "f_val_orig = self.fun(x_orig)", "f_val_orig = self.fun(x)"),
 ("c01-clip", "C01", 1, F, "        self.func_count += 1\n", "        f_val_orig = max(f_val_orig, -1e300)\n        self.func_count += 1\n"),
 ("c01-add-sd-skip", "C01", 1, F, "        # Check returned function SD\n        if self.noise_flag and (", "        # Check returned function SD\n        if self.uncertainty_handling_level == 2 and (", "all"),
 ("c01-add-count", "C01", 1, F, "self.cache_count += 1", "self.func_count += 1"),
 ("c01-outside", "C01", 1, "vbmc/vbmc.py", "        # Pick \"best\" variational solution to return\n", "        self.function_logger.fun(self.x0)\n        # Pick \"best\" variational solution to return\n"),
 ("c01-outside2", "C01", 1, "vbmc/active_sample.py", "                # Set initial x0 for function evaluation", "                # Set initial x0 for function evaluation") if False else
 ("c01-outside2", "C01", 1, "vbmc/vbmc.py", "        # Pick \"best\" variational solution to return\n", "        fl = self.function_logger\n        g = fl.fun\n        g(self.x0)\n        # Pick \"best\" variational solution to return\n"),
 ("c01-write", "C01", 1, "vbmc/vbmc.py", "        # Pick \"best\" variational solution to return\n", "        self.function_logger.func_count -= 1\n        # Pick \"best\" variational solution to return\n"),
 # refactorings
 ("c01-R-helper", "C01", 0, [(F, """        # Check function value
        if (
            not np.isscalar(f_val_orig)
            or not np.isfinite(f_val_orig)
            or not np.isreal(f_val_orig)
        ):
            error_message = \"\"\"FunctionLogger:InvalidFuncValue:
            The returned function value must be a finite real-valued scalar
            (returned value {})\"\"\"
            raise ValueError(error_message.format(str(f_val_orig)))

        # Check returned function SD
        if self.noise_flag and (
            not np.isscalar(f_sd)
            or not np.isfinite(f_sd)
            or not np.isreal(f_sd)
            or f_sd <= 0.0
        ):
            error_message = \"\"\"FunctionLogger:InvalidNoiseValue
                The returned estimated SD (second function output)
                must be a finite, positive real-valued scalar
                (returned SD: {})\"\"\"
            raise ValueError(error_message.format(str(f_sd)))

        # record timer stats
""", "        self._validate(f_val_orig, f_sd)\n"),
  (F, "    def finalize(self):", """    def _validate(self, value, sd):
        for chk in (np.isscalar, np.isfinite, np.isreal):
            if not chk(value):
                raise ValueError("bad " + str(value))
        if not self.noise_flag:
            return
        ok = np.isscalar(sd) and np.isfinite(sd) and np.isreal(sd)
        if not ok:
            raise ValueError("bad SD")
        if not (sd > 0):
            raise ValueError("bad SD")

    def finalize(self):""")]),
 ("c01-R-evalhelper", "C01", 0, [(F, """            if self.noise_flag and self.uncertainty_handling_level == 2:
                f_val_orig, f_sd = self.fun(x_orig)
            else:
                f_val_orig = self.fun(x_orig)
                if self.noise_flag:
                    f_sd = 1
                else:
                    f_sd = None
""", "            f_val_orig, f_sd = self._evaluate(x_orig)\n"),
  (F, "    def finalize(self):", """    def _evaluate(self, point):
        if self.noise_flag and self.uncertainty_handling_level == 2:
            out = self.fun(point)
            return out[0], out[1]
        return self.fun(point), (1 if self.noise_flag else None)

    def finalize(self):""")]),
 ("c01-R-order", "C01", 0, F, "        self.func_count += 1\n        f_val, idx = self._record(x_orig, x, f_val_orig, f_sd, funtime)", "        f_val, idx = self._record(\n            x_orig=x_orig, x=x, f_val_orig=f_val_orig, f_sd=f_sd, fun_eval_time=funtime\n        )\n        self.func_count = 1 + self.func_count"),
 ("c01-R-allgen", "C01", 0, F, """        if (
            not np.isscalar(f_val_orig)
            or not np.isfinite(f_val_orig)
            or not np.isreal(f_val_orig)
        ):""", """        valid = all(
            chk(f_val_orig) for chk in (np.isscalar, np.isfinite, np.isreal)
        )
        if not valid:""", "all"),
]
