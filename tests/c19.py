P = "priors/"
UB, TR, SP, SB, SC, PR, UF, BA, TI = [P + x + ".py" for x in ("uniform_box", "trapezoidal", "spline_trapezoidal", "smooth_box", "scipy", "product", "user_function", "prior", "tile_inputs")]
CASES = []


def m(name, exp, f, *pairs):
    CASES.append((name, "C19", exp, [(f, a, b) for a, b in zip(pairs[::2], pairs[1::2])]))


# construction
m("box: equal accepted", 1, UB, "self.a >= self.b", "self.a > self.b")
m("box: all", 1, UB, "np.any(self.a >= self.b)", "np.all(self.a >= self.b)")
m("box: not all less (same)", 0, UB, "np.any(self.a >= self.b)", "not np.all(self.a < self.b)")
m("box: flipped (same)", 0, UB, "np.any(self.a >= self.b)", "(self.b <= self.a).any()")
m("box: difference (same)", 0, UB, "np.any(self.a >= self.b)", "np.any(self.b - self.a <= 0)")
m("box: check dropped", 1, UB, '''        if np.any(self.a >= self.b):
            raise ValueError(
                f"All elements of a={a} should be strictly less than b={b}."
            )
''', "")
m("box: finite dropped", 1, UB, '''        if not np.all(np.isfinite([self.a, self.b])):
            raise ValueError("All elements of a and b should be finite.")
''', "")
m("box: any finite", 1, UB, "not np.all(np.isfinite([self.a, self.b]))", "not np.any(np.isfinite([self.a, self.b]))")
m("box: b only", 1, UB, "np.all(np.isfinite([self.a, self.b]))", "np.all(np.isfinite(self.b))")
m("box: isnan only", 1, UB, "not np.all(np.isfinite([self.a, self.b]))", "np.any(np.isnan([self.a, self.b]))")
m("box: finite two calls", 0, UB, "not np.all(np.isfinite([self.a, self.b]))", "not (np.all(np.isfinite(self.a)) and np.all(np.isfinite(self.b)))")
m("box: swapped storage", 1, UB, "self.a, self.b = tile_inputs(a, b,", "self.b, self.a = tile_inputs(a, b,")
m("box: tolerance", 1, UB, "np.any(self.a >= self.b)", "np.any(self.a >= self.b - 1e-8)")
m("box: helper check", 0, UB, '''        if np.any(self.a >= self.b):
            raise ValueError(
                f"All elements of a={a} should be strictly less than b={b}."
            )
''', "        _check(self.a, self.b)\n", "class UniformBox(Prior):", '''def _check(lo, hi):
    if np.any(lo >= hi):
        raise ValueError(
            f"All elements of a={lo} should be strictly less than b={hi}."
        )


class UniformBox(Prior):''')
for nm, f in (("trap", TR), ("spline", SP)):
    m(nm + ": no middle check", 1, f, "(self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)", "(self.a >= self.u) | (self.v >= self.b)")
    m(nm + ": and", 1, f, "(self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)", "(self.a >= self.u) & (self.u >= self.v) & (self.v >= self.b)")
    m(nm + ": u > v", 1, f, "(self.u >= self.v)", "(self.u > self.v)")
    m(nm + ": reordered (same)", 0, f, "(self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)", "(self.v >= self.b) | (self.v <= self.u) | (self.a >= self.u)")
    m(nm + ": any or any (same)", 0, f, '''np.any(
            (self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)
        )''', "np.any(self.a >= self.u) or np.any(self.u >= self.v) or np.any(self.v >= self.b)")
    m(nm + ": all positive (same)", 0, f, '''np.any(
            (self.a >= self.u) | (self.u >= self.v) | (self.v >= self.b)
        )''', "not np.all((self.a < self.u) & (self.u < self.v) & (self.v < self.b))")
    m(nm + ": tile order", 1, f, "            a, u, v, b, size=D, squeeze=True", "            a, v, u, b, size=D, squeeze=True")
    m(nm + ": fill 0", 1, f, "np.full_like(x, -np.inf, dtype=float)", "np.zeros_like(x, dtype=float)")
    m(nm + ": int type", 1, f, "np.full_like(x, -np.inf, dtype=float)", "np.full_like(x, -np.inf)")
    m(nm + ": right tail unbounded", 1, f, "mask = (x[:, d] >= self.v[d]) & (x[:, d] < self.b[d])", "mask = x[:, d] >= self.v[d]")
    m(nm + ": left tail unbounded", 1, f, "mask = (x[:, d] >= self.a[d]) & (x[:, d] < self.u[d])", "mask = x[:, d] < self.u[d]")
    m(nm + ": plateau or", 1, f, "mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.v[d])", "mask = (x[:, d] >= self.u[d]) | (x[:, d] < self.v[d])")
    m(nm + ": plateau to b (same)", 0, f, "mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.v[d])", "mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.b[d])")
    m(nm + ": plateau missing", 1, f, "mask = (x[:, d] >= self.u[d]) & (x[:, d] < self.v[d])", "mask = (x[:, d] >= self.v[d]) & (x[:, d] < self.v[d])")
    m(nm + ": closed masks (same)", 0, f, "(x[:, d] < self.b[d])", "(x[:, d] <= self.b[d])")
    m(nm + ": column temp (same)", 0, f, "                mask = (x[:, d] >= self.a[d]) & (x[:, d] < self.u[d])\n" if f == SP else "            mask = (x[:, d] >= self.a[d]) & (x[:, d] < self.u[d])\n",
      "                xd = x[:, d]\n                mask = (self.a[d] <= xd) & (xd < self.u[d])\n" if f == SP else "            xd = x[:, d]\n            mask = (self.a[d] <= xd) & (xd < self.u[d])\n")
    m(nm + ": no keepdims", 1, f, "return np.sum(log_pdf, axis=1, keepdims=True)", "return np.sum(log_pdf, axis=1)")
    m(nm + ": newaxis (same)", 0, f, "return np.sum(log_pdf, axis=1, keepdims=True)", "return np.sum(log_pdf, axis=1)[:, np.newaxis]")
    m(nm + ": support pivots", 1, f, "        return self.a, self.b\n", "        return self.u, self.v\n")
    m(nm + ": samples transposed", 1, f, "rvs = np.zeros((n, self.D))", "rvs = np.zeros((self.D, n))")
m("smooth: scale zero", 1, SB, "self.scale <= 0.0", "self.scale < 0.0")
m("smooth: scale flipped (same)", 0, SB, "np.any(self.scale <= 0.0)", "not np.all(self.scale > 0)")
m("smooth: order unchecked", 1, SB, "np.any(self.a >= self.b)", "np.any(self.a > self.b)")
m("smooth: left tail lost", 1, SB, "mask = x[:, d] < self.a[d]", "mask = x[:, d] > self.a[d]")
m("smooth: plateau lost", 1, SB, "mask = (x[:, d] >= self.a[d]) & (x[:, d] <= self.b[d])", "mask = (x[:, d] > self.b[d]) & (x[:, d] <= self.b[d])")
m("smooth: swapped args", 1, SB, "            a, b, scale, size=D, squeeze=True", "            a, scale, b, size=D, squeeze=True")
m("smooth: D of one path", 1, SB, "        self.D = self.a.size\n", "        if D is None:\n            self.D = self.a.size\n")
m("box: mask and", 1, UB, "(x < self.a) | (x > self.b)", "(x < self.a) & (x > self.b)")
m("box: mask all", 0, UB, "np.any((x < self.a) | (x > self.b), axis=1)", "~np.all((x >= self.a) & (x <= self.b), axis=1)")
m("box: one side", 1, UB, "(x < self.a) | (x > self.b)", "(x > self.b)")
m("box: where (same)", 0, UB, "        log_pdf[mask] = -np.inf\n\n        return log_pdf\n", "        return np.where(mask[:, np.newaxis], -np.inf, log_pdf)\n")
m("box: logical_or", 0, UB, "(x < self.a) | (x > self.b)", "np.logical_or(x < self.a, x > self.b)")
m("box: flat", 1, UB, "np.full((n, 1), -log_norm_factor)", "np.full((n,), -log_norm_factor)")
m("box: sample n", 1, UB, "size=(n, self.D)", "size=n")
# SciPy
m("scipy: standardized support", 1, SC, "a, b = distribution.support()", "a, b = distribution.a, distribution.b")
m("scipy: ends exchanged", 1, SC, "a, b = distribution.support()", "b, a = distribution.support()")
m("scipy: index (same)", 0, SC, '''            a, b = distribution.support()
            self.a = np.atleast_1d(a)
            self.b = np.atleast_1d(b)
''', '''            bounds = distribution.support()
            self.a = np.atleast_1d(bounds[0])
            self.b = np.atleast_1d(bounds[1])
''')
m("scipy: pdf", 1, SC, "self.distribution.logpdf(x)", "self.distribution.logcdf(x)")
m("scipy: flat", 1, SC, ".reshape((n, 1))", ".reshape((n,))")
m("scipy: sample shape", 1, SC, ".reshape((n, self.D))", ".reshape((self.D, n))")
m("scipy: temp", 0, SC, "        log_pdf = self.distribution.logpdf(x).reshape((n, 1))\n", "        dist = self.distribution\n        values = dist.logpdf(x)\n        log_pdf = np.reshape(values, (n, 1))\n")
m("scipy: no D", 1, SC, "            self.D = 1\n", "")
m("scipy: reversed support", 1, SC, "        return self.a, self.b\n", "        return self.b, self.a\n")
# product
m("product: neighbour", 1, PR, "marginal._log_pdf(x[:, [m]])", "marginal._log_pdf(x[:, [m - 1]])")
m("product: keepdims", 1, PR, "marginal._log_pdf(x[:, [m]]).ravel()", "marginal.log_pdf(x[:, m], keepdims=False)")
m("product: slice (same)", 0, PR, "marginal._log_pdf(x[:, [m]]).ravel()", "marginal._log_pdf(x[:, m : m + 1]).ravel()")
m("product: first column", 1, PR, "log_pdf[:, m] = marginal", "log_pdf[:, 0] = marginal")
m("product: prod", 1, PR, "np.sum(log_pdf, axis=1, keepdims=True)", "np.prod(log_pdf, axis=1, keepdims=True)")
m("product: sum over points", 1, PR, "np.sum(log_pdf, axis=1, keepdims=True)", "np.sum(log_pdf, axis=0, keepdims=True)")
m("product: range loop", 0, PR, '''        for (m, marginal) in enumerate(self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
''', '''        for m in range(self.D):
            log_pdf[:, m] = self.marginals[m]._log_pdf(x[:, [m]]).ravel()
''')
m("product: accumulate", 0, PR, '''        log_pdf = np.zeros((n, D))
        for (m, marginal) in enumerate(self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
        log_pdf = np.sum(log_pdf, axis=1, keepdims=True)
''', '''        log_pdf = np.zeros((n, 1))
        for (m, marginal) in enumerate(self.marginals):
            log_pdf = log_pdf + marginal._log_pdf(x[:, [m]])
''')
m("product: any dimension", 1, PR, "if marginal.D != 1:", "if marginal.D < 1:")
m("product: sample column", 1, PR, "rvs[:, m] = marginal.sample(n).ravel()", "rvs[:, -1] = marginal.sample(n).ravel()")
m("product: sample size", 1, PR, "marginal.sample(n).ravel()", "marginal.sample(self.D).ravel()")
m("product: types unchecked", 1, PR, "            elif not isinstance(marginal, Prior):", "            elif marginal is None:")
# user function
m("user: uncallable sampler", 1, UF, "(sample_prior is not None) and (not callable(sample_prior))", "(log_prior is not None) and (not callable(log_prior))")
m("user: nested check", 0, UF, '''        if (sample_prior is not None) and (not callable(sample_prior)):
            raise TypeError(
                f"Optional keyword `sample_prior` must be callable."
            )
''', '''        if sample_prior is not None:
            if not callable(sample_prior):
                raise TypeError(
                    "Optional keyword `sample_prior` must be callable."
                )
''')
m("user: arguments", 1, UF, "    def _log_pdf(self, x):", "    def _log_pdf(self, x, extra):")
# base
m("base: transposes always", 1, BA, "if self.D == 1 and n == 1:", "if self.D == 1 or n == 1:")
m("base: no dimension check", 1, BA, "elif D != self.D:", "elif D < self.D:")
m("base: swapped test", 0, BA, "if self.D == 1 and n == 1:", "if n == 1 and self.D == 1:")
m("base: early", 0, BA, '''        if keepdims:
            return log_pdf
        else:
            return log_pdf.ravel()
''', '''        return log_pdf if keepdims else log_pdf.ravel()
''')
m("base: keepdims inverted", 1, BA, "        if keepdims:\n", "        if not keepdims:\n")
m("base: no transpose", 1, BA, "            x = x.T\n", "            pass\n")
m("base: pdf is log", 1, BA, "return np.exp(self.log_pdf(x, keepdims=keepdims))", "return self.log_pdf(x, keepdims=keepdims)")
m("base: pdf keepdims", 1, BA, "return np.exp(self.log_pdf(x, keepdims=keepdims))", "return np.exp(self.log_pdf(x))")
m("base: support", 1, BA, "return np.full(self.D, -np.inf), np.full(self.D, np.inf)", "return np.full(self.D, np.inf), np.full(self.D, -np.inf)")
m("base: n D order (same)", 0, BA, "        n, D = x.shape\n", "        n = x.shape[0]\n        D = x.shape[1]\n")
m("tile: shapes unchecked", 1, TI, '''            elif arg.shape != shape:
                raise ValueError(
                    f"All inputs should have the same shape, but found inputs with shapes {shape} and {arg.shape}."
                )
''', "")
m("smooth: attr override", 1, SB, "        self.D = self.a.size\n", "        self.D = self.a.size\n        self.pdf = lambda x: np.exp(self._log_pdf(x))\n")
m("box: sample arg", 1, UB, "    def sample(self, n):", "    def sample(self, n, seed):")

m("product: sample column by search", 1, PR, """        for (m, marginal) in enumerate(self.marginals):
            rvs[:, m] = marginal.sample(n).ravel()
""", """        for marginal in self.marginals:
            rvs[:, self.marginals.index(marginal)] = marginal.sample(n).ravel()
""")
m("product: own counter", 0, PR, """        for (m, marginal) in enumerate(self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
""", """        m = 0
        for marginal in self.marginals:
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
            m += 1
""")
m("product: zip", 0, PR, """        for (m, marginal) in enumerate(self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
""", """        for m, marginal in zip(range(D), self.marginals):
            log_pdf[:, m] = marginal._log_pdf(x[:, [m]]).ravel()
""")
