V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; VO="vbmc/variational_optimization.py"; G="vbmc/gaussian_process_train.py"; E="entropy/entmc_vbmc.py"
VP="variational_posterior/variational_posterior.py"; S="priors/smooth_box.py"; IM="vbmc/active_importance_sampling.py"; SC="priors/scipy.py"; PR="priors/product.py"; FL="function_logger/function_logger.py"; OP="vbmc/options.py"
def m(name,exp,f,*ed): return (name,"C13",exp,[(f,a,b) if len(t)==2 else t for t in ed for a,b in [t[-2:]]])
EPS="epsilon[: Ns // 2, :] = np.random.randn(Ns // 2, D)"
CASES=[
 m("own rng",1,E,(EPS,"epsilon[: Ns // 2, :] = np.random.default_rng().standard_normal((Ns // 2, D))")),
 m("const rng",1,E,(EPS,"epsilon[: Ns // 2, :] = np.random.RandomState(0).randn(Ns // 2, D)")),
 m("stdlib",1,A,("idx_acq = np.random.randint(len(SearchAcqFcn))","import random\n                idx_acq = random.randrange(len(SearchAcqFcn))")),
 m("from import",1,E,("import numpy as np","import numpy as np\nfrom numpy.random import default_rng"),(EPS,"epsilon[: Ns // 2, :] = default_rng().standard_normal((Ns // 2, D))")),
 m("alias",1,E,(EPS,"npr = np.random\n        epsilon[: Ns // 2, :] = npr.default_rng(1).standard_normal((Ns // 2, D))")),
 m("seed",1,E,(EPS,"np.random.seed(0)\n        "+EPS)),
 m("save restore",1,E,(EPS,"st = np.random.get_state()\n        "+EPS+"\n        np.random.set_state(st)")),
 m("cma no seed",1,A,('                        "seed": np.nan,\n','')),
 m("cma seed 0",1,A,('"seed": np.nan','"seed": 0')),
 m("cma seed from iter",1,A,('"seed": np.nan','"seed": optim_state["iter"]')),
 m("rvs random_state",1,SC,("self.distribution.rvs(n)","self.distribution.rvs(n, random_state=0)")),
 m("qmc",1,G,("import numpy as np","import numpy as np\nfrom scipy.stats import qmc"),("np.random.choice(","qmc.Sobol(2).random(4) if 0 else np.random.choice(")),
 m("load always",1,V,("        if set_random_state:\n","        if set_random_state or iteration is not None:\n")),
 m("load inverted",1,V,("        if set_random_state:\n","        if not set_random_state:\n")),
 m("import-time draw",1,E,("import numpy as np","import numpy as np\n_E = np.random.randn(1000, 50)")),
 m("cached draws",1,E,("def entmc_vbmc(","_C = {}\n\n\ndef entmc_vbmc("),(EPS,"if (Ns, D) not in _C:\n            _C[(Ns, D)] = np.random.randn(Ns // 2, D)\n        epsilon[: Ns // 2, :] = _C[(Ns, D)]")),
 m("function attr",1,E,(EPS,"if not hasattr(entmc_vbmc, 'e'):\n            entmc_vbmc.e = np.random.randn(Ns // 2, D)\n        epsilon[: Ns // 2, :] = entmc_vbmc.e")),
 m("clock decision",1,A,('if options["update_random_alpha"]:','if options["update_random_alpha"] and timer.get_duration("gp_train") > 1:')),
 m("clock decision 2",1,V,('            if self.optim_state.get("skip_active_sampling"):','            t_gp = timer.get_duration("gp_train")\n            if t_gp is not None and t_gp > 5:\n                pass\n            if self.optim_state.get("skip_active_sampling"):')),
 m("funtime",1,V,('            if self.optim_state.get("skip_active_sampling"):','            if self.function_logger.total_fun_eval_time > 3 or self.optim_state.get("skip_active_sampling"):')),
 m("time loop",1,A,("import cma\n","import time\nimport cma\n"),('if options["update_random_alpha"]:','if time.time() % 2 > 1:')),
 m("set order",1,PR,("            rvs[:, m] = marginal","            rvs[:, m] = marginal") if 0 else ("np.random.choice(","list({1, 2, 3}) and np.random.choice(")),
 m("set loop",1,OP,("        for key in self.keys():","        for key in set(self.keys()):\n            print(key)\n        for key in self.keys():")),
 m("hash",1,A,("idx_acq = np.random.randint(len(SearchAcqFcn))","idx_acq = hash(str(optim_state['iter'])) % len(SearchAcqFcn)")),
 m("id",1,A,("idx_acq = np.random.randint(len(SearchAcqFcn))","idx_acq = id(gp) % len(SearchAcqFcn)")),
 m("listdir",1,OP,("        for key in self.keys():","        import os\n        fs = os.listdir('.')\n        for key in self.keys():")),
 m("r alias np.random",0,E,(EPS,"draw = np.random.randn\n        epsilon[: Ns // 2, :] = draw(Ns // 2, D)")),
 m("r from import",0,E,("import numpy as np","import numpy as np\nfrom numpy.random import randn"),(EPS,"epsilon[: Ns // 2, :] = randn(Ns // 2, D)")),
 m("r cma const",0,A,('                    cma_options = {','                    no_seed = {"seed": float("nan")}\n                    cma_options = {\n                        **no_seed,'),('                        "seed": np.nan,\n','')),
 m("r cma later",0,A,('                        "seed": np.nan,\n',''),("                    res = cma.fmin(",'                    cma_options["seed"] = np.nan\n                    res = cma.fmin(')),
 m("r load helper",0,V,("            np.random.set_state(random_state)\n","            cls._restore(random_state)\n"),("    @classmethod\n    def load(","    @staticmethod\n    def _restore(state):\n        np.random.set_state(state)\n\n    @classmethod\n    def load(")),
 m("r load flip",0,V,("        if set_random_state:\n            random_state = vbmc.iteration_history[\"random_state\"][iteration]\n            np.random.set_state(random_state)\n","        if not set_random_state:\n            pass\n        else:\n            np.random.set_state(vbmc.iteration_history[\"random_state\"][iteration])\n")),
 m("r sorted set",0,OP,("        for key in self.keys():","        for key in sorted(set(self.keys())):")),
 m("r set membership",0,OP,("        for key in self.keys():","        known = set(self.keys())\n        assert all(k in known for k in known)\n        for key in self.keys():")),
 m("r timer report",0,V,("            timer.stop_timer(\"finalize\")","            timer.stop_timer(\"finalize\")\n            d = timer.get_duration(\"finalize\")\n            self.logger.debug(\"%s\", d)")),
]
