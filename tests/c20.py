V="vbmc/vbmc.py"; P="priors/convert_to_prior.py"; U="priors/user_function.py"; F="function_logger/function_logger.py"
def m(name,exp,f,*ed): return (name,"C20",exp,[t if len(t)==3 else (f,)+t for t in ed])
NZ='''                    ll, noise_est = log_likelihood(theta)
                    return ll + log_prior(theta), noise_est
'''
EX="                    return log_likelihood(theta) + log_prior(theta)\n"
DIM='''            if prior.D != self.D:
                raise ValueError(
                    f"Dimension of `prior` ({prior.D}) does not match dimension of model ({self.D})."
                )
'''
BLOCK='''            if self.optim_state["uncertainty_handling_level"] == 2:

                def log_joint(theta):
                    ll, noise_est = log_likelihood(theta)
                    return ll + log_prior(theta), noise_est

            else:

                def log_joint(theta):
                    return log_likelihood(theta) + log_prior(theta)
'''
LEV='''        if self.options.get("specify_target_noise"):
            optim_state["uncertainty_handling_level"] = 2
        elif len(self.options.get("uncertainty_handling")) > 0:
            optim_state["uncertainty_handling_level"] = 1
        else:
            optim_state["uncertainty_handling_level"] = 0
'''
SPC='''    if (sample_prior) is not None and (sample_prior != prior.sample):
        raise ValueError(
            "If `prior` is provided then `sample_prior` should be `None` or `prior.sample`."
        )
'''
LPC='''    if (log_prior is not None) and (log_prior != prior.log_pdf):
        raise ValueError(
            "If `prior` is provided then `log_prior` should be `None` or `prior.log_pdf`."
        )
'''
FL='''            noise_flag=self.optim_state.get("uncertainty_handling_level") > 0,
'''
CASES=[
 m("noisy without prior",1,V,(NZ,NZ.replace("ll + log_prior(theta)","ll"))),
 m("noisy prior twice",1,V,(NZ,NZ.replace("ll + log_prior(theta)","ll + log_prior(theta) + log_prior(theta)"))),
 m("noisy halved noise",1,V,(NZ,NZ.replace("), noise_est","), noise_est / 2"))),
 m("noisy noise sqrt",1,V,(NZ,NZ.replace("), noise_est","), np.sqrt(noise_est)"))),
 m("noisy noise clip",1,V,(NZ,NZ.replace("), noise_est","), np.maximum(noise_est, 1e-3)"))),
 m("noisy second call",1,V,(NZ,NZ.replace("return ll +","return log_likelihood(theta)[0] +"))),
 m("noisy swapped",1,V,(NZ,NZ.replace("ll, noise_est = ","noise_est, ll = "))),
 m("noisy minus",1,V,(NZ,NZ.replace("ll +","ll -"))),
 m("exact minus",1,V,(EX,EX.replace("+","-"))),
 m("exact no prior",1,V,(EX,"                    return log_likelihood(theta)\n")),
 m("exact clip",1,V,(EX,"                    return np.maximum(log_likelihood(theta) + log_prior(theta), -1e10)\n")),
 m("exact prior only if finite",1,V,(EX,"                    lp = log_prior(theta)\n                    if not np.isfinite(lp):\n                        return lp\n                    return log_likelihood(theta) + lp\n")),
 m("exact nan_to_num",1,V,(EX,"                    return log_likelihood(theta) + np.nan_to_num(log_prior(theta))\n")),
 m("exact shifted point",1,V,(EX,"                    return log_likelihood(theta) + log_prior(theta + 1e-8)\n")),
 m("exact transformed point",1,V,(EX,"                    return log_likelihood(theta) + log_prior(self.parameter_transformer(theta))\n")),
 m("exact prior at x0",1,V,(EX,"                    return log_likelihood(theta) + log_prior(self.x0)\n")),
 m("exact twice",1,V,(EX,"                    ll = log_likelihood(theta)\n                    if ll > 0:\n                        ll = log_likelihood(theta)\n                    return ll + log_prior(theta)\n")),
 m("exact weighted",1,V,(EX,"                    return log_likelihood(theta) + self.options.get('temperature') * log_prior(theta)\n")),
 m("level > 0",1,V,('            if self.optim_state["uncertainty_handling_level"] == 2:\n\n','            if self.optim_state["uncertainty_handling_level"] > 0:\n\n')),
 m("level == 1",1,V,('            if self.optim_state["uncertainty_handling_level"] == 2:\n\n','            if self.optim_state["uncertainty_handling_level"] == 1:\n\n')),
 m("level uncertainty option",1,V,('            if self.optim_state["uncertainty_handling_level"] == 2:\n\n','            if len(self.options.get("uncertainty_handling")) > 0:\n\n')),
 m("prior ignored",1,V,("        if prior is not None and prior.log_pdf is not None:\n","        if prior is not None and log_prior is not None:\n")),
 m("prior only no sampler",1,V,("        if prior is not None and prior.log_pdf is not None:\n","        if prior is not None and sample_prior is None and prior.log_pdf is not None:\n")),
 m("no dim check",1,V,(DIM,"")),
 m("dim check less",1,V,("            if prior.D != self.D:","            if prior.D < self.D:")),
 m("dim check skipped 1",1,V,("            if prior.D != self.D:","            if prior.D != self.D and prior.D != 1:")),
 m("dim check warn",1,V,("                raise ValueError(\n                    f\"Dimension of `prior`","                self.logger.warning(\n                    f\"Dimension of `prior`")),
 m("convert drops sampler",1,V,("convert_to_prior(prior, log_prior, sample_prior, self.D)","convert_to_prior(prior, log_prior, None, self.D)")),
 m("convert swapped",1,V,("convert_to_prior(prior, log_prior, sample_prior, self.D)","convert_to_prior(prior, sample_prior, log_prior, self.D)")),
 m("convert no D",1,V,("convert_to_prior(prior, log_prior, sample_prior, self.D)","convert_to_prior(prior, log_prior, sample_prior)")),
 m("sample_prior ignored",1,V,("            or sample_prior is not None\n        ):\n            prior = ","        ):\n            prior = ")),
 m("no sample check",1,P,(SPC,"")),
 m("no log check",1,P,(LPC,"")),
 m("and check",1,P,(SPC,""),(LPC,LPC.replace("(log_prior is not None) and (log_prior != prior.log_pdf)","(log_prior is not None) and (log_prior != prior.log_pdf) and sample_prior is not None"))),
 m("any object",1,P,("    elif isinstance(prior, Prior):\n        pass\n","    elif isinstance(prior, Prior) or hasattr(prior, 'log_pdf'):\n        pass\n")),
 m("any frozen",1,P,("    elif is_valid_scipy_dist(prior):","    elif hasattr(prior, 'logpdf'):")),
 m("last else accepts",1,P,("    else:\n        raise TypeError(\n            f\"Optional keyword `prior` should be a subclass of `pyvbmc.priors.Prior`, an appropriate `scipy.stats` distribution, or a list of these. Optional keyword `log_prior` should be a function.\"\n        )","    else:\n        prior = UserFunction(log_prior, sample_prior, D)")),
 m("user drops sampler",1,P,("UserFunction(log_prior, sample_prior, D)","UserFunction(log_prior, None, D)")),
 m("user drops D",1,P,("UserFunction(log_prior, sample_prior, D)","UserFunction(log_prior, sample_prior)")),
 m("wrapper swapped",1,U,("self.log_pdf = log_prior","self.log_pdf = sample_prior")),
 m("record likelihood",1,V,("            fun=self.log_joint,","            fun=log_density,")),
 m("record self.log_likelihood",1,V,("            fun=self.log_joint,","            fun=self.log_likelihood or self.log_joint,")),
 m("flag == 2",1,V,(FL,FL.replace("> 0","== 2"))),
 m("flag >= 0",1,V,(FL,FL.replace("> 0",">= 0"))),
 m("flag > 1",1,V,(FL,FL.replace("> 0","> 1"))),
 m("flag opt",1,V,(FL,'            noise_flag=self.options.get("specify_target_noise"),\n')),
 m("unpack swapped",1,V,("            self.log_joint,\n            self.log_likelihood,\n            self.prior,\n        ) = self","            self.log_likelihood,\n            self.log_joint,\n            self.prior,\n        ) = self")),
 m("construct swapped",1,V,("self._init_log_joint(log_density, prior, log_prior, sample_prior)","self._init_log_joint(log_density, prior, sample_prior, log_prior)")),
 m("rewire",1,V,("        if self.is_finished:\n","        self.function_logger.noise_flag = False\n        if self.is_finished:\n")),
 m("rewire fun",1,V,("        if self.is_finished:\n","        self.function_logger.fun = self.log_likelihood\n        if self.is_finished:\n")),
 m("level order",1,V,(LEV,LEV.replace('if self.options.get("specify_target_noise"):\n            optim_state["uncertainty_handling_level"] = 2\n        elif len(self.options.get("uncertainty_handling")) > 0:\n            optim_state["uncertainty_handling_level"] = 1','if len(self.options.get("uncertainty_handling")) > 0:\n            optim_state["uncertainty_handling_level"] = 1\n        elif self.options.get("specify_target_noise"):\n            optim_state["uncertainty_handling_level"] = 2'))),
 m("level both",1,V,(LEV,LEV.replace('if self.options.get("specify_target_noise"):','if self.options.get("specify_target_noise") and len(self.options.get("uncertainty_handling")) > 0:'))),
 m("level len > 1",1,V,(LEV,LEV.replace('> 0','> 1'))),
 m("noise fun swapped",1,V,('optim_state["gp_noise_fun"] = [1, 2, 0]','optim_state["gp_noise_fun"] = [1, 1, 0]')),
 m("noise fun 2",1,V,('optim_state["gp_noise_fun"] = [1, 1, 0]','optim_state["gp_noise_fun"] = [1, 0, 0]')),
 m("shaping overwrites",1,V,('            self.options.get("noise_shaping")\n            and optim_state["gp_noise_fun"][1] == 0\n','            self.options.get("noise_shaping")\n')),
 m("recorder mode 1 sd",1,F,("                    f_sd = 1\n","                    f_sd = 0.1\n")),
 m("recorder mode",1,F,("if self.noise_flag and self.uncertainty_handling_level == 2:","if self.noise_flag and self.uncertainty_handling_level > 2:")),
 m("recorder ignores noise",1,F,("                f_val_orig, f_sd = self.fun(x_orig)\n","                f_val_orig, _ = self.fun(x_orig)\n                f_sd = 1\n")),
 # refactors
 m("R one closure",0,V,(BLOCK,'''            noisy = self.optim_state["uncertainty_handling_level"] == 2

            def log_joint(theta):
                if noisy:
                    ll, noise_est = log_likelihood(theta)
                    return ll + log_prior(theta), noise_est
                return log_likelihood(theta) + log_prior(theta)
''')),
 m("R index",0,V,(NZ,"                    res = log_likelihood(theta)\n                    return res[0] + log_prior(theta), res[1]\n")),
 m("R reorder",0,V,(EX,"                    lp = log_prior(theta)\n                    ll = log_likelihood(theta)\n                    return lp + ll\n")),
 m("R lambda",0,V,('''
                def log_joint(theta):
                    return log_likelihood(theta) + log_prior(theta)
''','''                log_joint = lambda t: prior.log_pdf(t) + log_density(t)
''')),
 m("R helper",0,V,(BLOCK,'''            log_joint = self._combine(log_likelihood, prior)
'''),("    def __str__(self):\n        \"\"\"Construct a string summary.\"\"\"\n",'''    def _combine(self, log_likelihood, prior):
        if self.optim_state["uncertainty_handling_level"] == 2:

            def log_joint(theta):
                ll, noise_est = log_likelihood(theta)
                return ll + prior.log_pdf(theta), noise_est

            return log_joint

        def log_joint(theta):
            return log_likelihood(theta) + prior.log_pdf(theta)

        return log_joint

    def __str__(self):
        """Construct a string summary."""
''')),
 m("R option for level",0,V,('            if self.optim_state["uncertainty_handling_level"] == 2:\n\n','            if self.options.get("specify_target_noise"):\n\n')),
 m("R early return",0,V,('''        if (
            prior is not None
            or log_prior is not None
            or sample_prior is not None
        ):
            prior =''','''        if prior is None and log_prior is None and sample_prior is None:
            return log_density, None, None
        else:
            prior =''')),
 m("R dim in conversion",0,V,(DIM,""),(P,SPC,'''    if D is not None and prior.D != D:
        raise ValueError("dimension mismatch")
'''+SPC)),
 m("R dim flipped",0,V,(DIM,"            if not (self.D == prior.D):\n                raise ValueError('dimension')\n")),
 m("R getattr pdf",0,V,("        if prior is not None and prior.log_pdf is not None:\n","        has_pdf = prior is not None and prior.log_pdf is not None\n        if has_pdf:\n")),
 m("R nested",0,V,("        if prior is not None and prior.log_pdf is not None:\n","        if not (prior is None or prior.log_pdf is None):\n")),
 m("R flag bool",0,V,(FL,'            noise_flag=self.optim_state["uncertainty_handling_level"] in (1, 2),\n')),
 m("R flag ne",0,V,(FL,'            noise_flag=self.optim_state["uncertainty_handling_level"] != 0,\n')),
 m("R level var",0,V,(LEV,'''        if self.options.get("specify_target_noise"):
            level = 2
        else:
            level = 1 if len(self.options.get("uncertainty_handling")) > 0 else 0
        optim_state["uncertainty_handling_level"] = level
''')),
 m("R noise dict",0,V,('''        if optim_state.get("uncertainty_handling_level") == 0:
            # Observation noise for stability
            optim_state["gp_noise_fun"] = [1, 0, 0]
        elif optim_state.get("uncertainty_handling_level") == 1:
            # Infer noise
            optim_state["gp_noise_fun"] = [1, 2, 0]
        elif optim_state.get("uncertainty_handling_level") == 2:
            # Provided heteroskedastic noise
            optim_state["gp_noise_fun"] = [1, 1, 0]
''','''        optim_state["gp_noise_fun"] = {0: [1, 0, 0], 1: [1, 2, 0], 2: [1, 1, 0]}[optim_state["uncertainty_handling_level"]]
''')),
 m("R result var",0,V,('''        (
            self.log_joint,
            self.log_likelihood,
            self.prior,
        ) = self._init''','''        res = self._init'''),("        self.function_logger = FunctionLogger(\n","        self.log_joint = res[0]\n        self.log_likelihood = res[1]\n        self.prior = res[2]\n        self.function_logger = FunctionLogger(\n")),
 m("R guards first",0,P,(SPC+LPC,LPC+SPC)),
 m("R conv returns",0,P,("        prior = Product(prior)\n","        prior = Product(prior)\n        assert prior is not None\n")),
 m("R conv keyword",0,V,("convert_to_prior(prior, log_prior, sample_prior, self.D)","convert_to_prior(prior, log_prior=log_prior, sample_prior=sample_prior, D=self.D)")),
 m("R recorder",0,F,('''            if self.noise_flag and self.uncertainty_handling_level == 2:
                f_val_orig, f_sd = self.fun(x_orig)
            else:
                f_val_orig = self.fun(x_orig)
                if self.noise_flag:
                    f_sd = 1
                else:
                    f_sd = None
''','''            result = self.fun(x_orig)
            if self.noise_flag and self.uncertainty_handling_level == 2:
                f_val_orig, f_sd = result[0], result[1]
            else:
                f_val_orig = result
                f_sd = 1 if self.noise_flag else None
''')),
]
