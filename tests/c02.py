CASES = globals().get("CASES", [])
F = "function_logger/function_logger.py"; W = "whitening/whitening.py"
CASES += [
 ("c02-view", "C02", 1, F, "self.y_orig[idx].copy()", "self.y_orig[idx]"),
 ("c02-grow-S", "C02", 1, F, "        if self.noise_flag:\n            self.S = np.append(\n                self.S, np.full([resize_amount, 1], np.nan), axis=0\n            )\n", ""),
 ("c02-grow-n", "C02", 1, F, "self.n_evals, np.full([resize_amount, 1], 0), axis=0", "self.n_evals, np.full([resize_amount + 1, 1], 0), axis=0"),
 ("c02-flag-true", "C02", 1, F, "self.X_flag, np.full((resize_amount,), False, dtype=bool)", "self.X_flag, np.full((resize_amount,), True, dtype=bool)"),
 ("c02-cap", "C02", 1, F, "if self.Xn > self.X_orig.shape[0] - 1:", "if self.Xn > self.X_orig.shape[0]:"),
 ("c02-trim", "C02", 1, F, "self.y = self.y[: self.Xn + 1]", "self.y = self.y[: self.Xn]"),
 ("c02-dup-x", "C02", 1, F, "            self.y[idx] = f_val\n            self.fun", "            self.y[idx] = f_val\n            self.X_orig[idx] = x_orig\n            self.fun"),
 ("c02-dup-nevals", "C02", 1, F, "            self.n_evals[idx] += 1\n            return", "            self.n_evals[idx] = N\n            return"),
 ("c02-dup-y", "C02", 1, F, "            self.y[idx] = f_val\n            self.fun", "            self.y[idx] = f_val_orig\n            self.fun"),
 ("c02-new-yorig", "C02", 1, F, "            self.y_orig[self.Xn] = f_val_orig\n            f_val = f_val_orig\n            if self.transform_parameters:\n                f_val += self.parameter_transformer.log_abs_det_jacobian(\n                    np.reshape(x, (1, x.shape[0]))\n                )[0]\n", "            f_val = f_val_orig\n            if self.transform_parameters:\n                f_val += self.parameter_transformer.log_abs_det_jacobian(\n                    np.reshape(x, (1, x.shape[0]))\n                )[0]\n            self.y_orig[self.Xn] = f_val\n"),
 ("c02-new-minus", "C02", 1, F, "                f_val += self.parameter_transformer.log_abs_det_jacobian(\n                    np", "                f_val -= self.parameter_transformer.log_abs_det_jacobian(\n                    np"),
 ("c02-new-jacorig", "C02", 1, F, "np.reshape(x, (1, x.shape[0]))\n                )[0]\n            self.y", "np.reshape(x_orig, (1, x.shape[0]))\n                )[0]\n            self.y"),
 ("c02-noS", "C02", 1, F, "            if f_sd is not None:\n                self.S[self.Xn] = f_sd\n", "            if f_sd:\n                if self.Xn < 100:\n                    self.S[self.Xn] = f_sd\n"),
 ("c02-weights", "C02", 1, F, "self.y_orig[idx] = (N * self.y_orig[idx] + f_val_orig) / (\n                    N + 1\n                )", "self.y_orig[idx] = (N * self.y_orig[idx] + f_val_orig) / N"),
 ("c02-warp-all", "C02", 1, W, "function_logger.y[X_flag] = y.T", "function_logger.y[: len(y.T)] = y.T"),
 ("c02-warp-y", "C02", 1, W, "y_orig = function_logger.y_orig[X_flag].T", "y_orig = function_logger.y[X_flag].T"),
 ("c02-warp-X", "C02", 1, W, "dy = parameter_transformer.log_abs_det_jacobian(X)\n", "dy = vp.parameter_transformer.log_abs_det_jacobian(X)\n"),
 ("c02-ctor", "C02", 1, F, "self.fun_eval_time = np.full([cache_size, 1], np.nan)", "self.fun_eval_time = np.full([500, 1], np.nan)"),
 # behaviour-preserving
 ("c02-R-loop", "C02", 0, F, """        self.X_orig = self.X_orig[: self.Xn + 1]
        self.y_orig = self.y_orig[: self.Xn + 1]
""", """        n_rows = 1 + self.Xn
        for name in ("X_orig", "y_orig"):
            setattr(self, name, getattr(self, name)[:n_rows])
"""),
 ("c02-R-helper", "C02", 0, [(F, """            self.X_orig[self.Xn] = x_orig
            self.X[self.Xn] = x
            self.y_orig[self.Xn] = f_val_orig
            f_val = f_val_orig
""", """            f_val = self._fill(self.Xn, x_orig, x, f_val_orig)
"""), (F, "    def __deepcopy__(self, memo):", """    def _fill(self, row, x_orig, x, f_val_orig):
        self.y_orig[row] = f_val_orig
        self.X[row, :] = x
        self.X_orig[row] = x_orig
        return f_val_orig

    def __deepcopy__(self, memo):""")]),
 ("c02-R-cap", "C02", 0, F, "if self.Xn > self.X_orig.shape[0] - 1:", "if len(self.X) <= self.Xn:"),
 ("c02-R-grow", "C02", 0, F, "self.y = np.append(self.y, np.full([resize_amount, 1], np.nan), axis=0)", "new_rows = np.full([resize_amount, 1], np.nan)\n        self.y = np.concatenate((self.y, new_rows), axis=0)"),
 ("c02-R-dup", "C02", 0, F, """            f_val = self.y_orig[idx].copy()
            if self.transform_parameters:
                f_val += self.parameter_transformer.log_abs_det_jacobian(x)
            self.y[idx] = f_val
""", """            if self.transform_parameters:
                log_jac = self.parameter_transformer.log_abs_det_jacobian(x)
                f_val = self.y_orig[idx] + log_jac
            else:
                f_val = self.y_orig[idx].copy()
            self.y[idx] = f_val
"""),
 ("c02-R-warp", "C02", 0, W, "    dy = parameter_transformer.log_abs_det_jacobian(X)\n    y = y_orig + dy / T\n    function_logger.X[X_flag, :] = X\n    function_logger.y[X_flag] = y.T\n", "    function_logger.X[X_flag] = X\n    dy = parameter_transformer.log_abs_det_jacobian(X)\n    function_logger.y[X_flag] = (dy / T + y_orig).T\n"),
]
