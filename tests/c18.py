V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; FL="function_logger/function_logger.py"; PT="parameter_transformer/parameter_transformer.py"; K="stats/kde_1d.py"; VO="vbmc/variational_optimization.py"; G="vbmc/gaussian_process_train.py"; T="priors/spline_trapezoidal.py"; E="entropy/entmc_vbmc.py"; P="priors/product.py"
def m(name,exp,f,*ed): return (name,"C18",exp,[t if len(t)==3 else (f,)+t for t in ed])
EVAL="                ynew, _, idx_new = function_logger(xnew)\n"
FIT="            (gp, gp_s_N, ) = x"
RERAISE='''                + str(x_orig),
            )
            raise
'''
BC="            x0,\n            lower_bounds,\n            upper_bounds,\n            plausible_lower_bounds,\n            plausible_upper_bounds,\n        )\n\n        # starting point"
CASES=[
 m("swallow fun",1,FL,(RERAISE,RERAISE.replace("raise\n","return np.nan, None, None\n"))),
 m("swallow fun cond",1,FL,(RERAISE,RERAISE.replace("            raise\n","            if self.noise_flag:\n                raise\n            f_val_orig, f_sd = np.nan, None\n"))),
 m("swallow fun loop",1,FL,(RERAISE,RERAISE.replace("            raise\n","            f_val_orig, f_sd = -np.inf, None\n"))),
 m("skip failed eval",1,A,(EVAL,"                try:\n                    ynew, _, idx_new = function_logger(xnew)\n                except ValueError:\n                    continue\n")),
 m("except exc eval",1,A,(EVAL,"                try:\n                    ynew, _, idx_new = function_logger(xnew)\n                except Exception as e:\n                    logger.warning(str(e))\n                    continue\n")),
 m("suppress eval",1,A,("import copy\n","import contextlib\nimport copy\n"),(EVAL,"                with contextlib.suppress(FloatingPointError):\n                    ynew, _, idx_new = function_logger(xnew)\n")),
 m("finally return",1,FL,(RERAISE,RERAISE+"        finally:\n            if f_val_orig is None:\n                return np.nan, None, None\n"),("        timer.start_timer(\"fun_time\")\n        try:","        timer.start_timer(\"fun_time\")\n        f_val_orig = None\n        try:")),
 m("finally break",1,A,(EVAL,"                try:\n                    ynew, _, idx_new = function_logger(xnew)\n                finally:\n                    break\n")),
 m("bare",1,K,("        except ValueError:","        except:")),
 m("broad kde",1,K,("        except ValueError:","        except Exception:")),
 m("bounds swallowed",1,V,("            self.plausible_upper_bounds,\n        ) = self._bounds_check(\n            x0,\n            lower_bounds,\n            upper_bounds,\n            plausible_lower_bounds,\n            plausible_upper_bounds,\n        )","            self.plausible_upper_bounds,\n        ) = (x0, lower_bounds, upper_bounds, plausible_lower_bounds, plausible_upper_bounds)\n        try:\n            self.x0, self.lower_bounds, self.upper_bounds, self.plausible_lower_bounds, self.plausible_upper_bounds = self._bounds_check(x0, lower_bounds, upper_bounds, plausible_lower_bounds, plausible_upper_bounds)\n        except ValueError as err:\n            self.logger.warning(str(err))")),
 m("transform ignored",1,PT,('                raise ValueError(\n                    f"Unrecognized bounded transform {transform_type}."\n                ) from exc','                bounded_type = 3')) if 0 else m("linalg ignored",1,V,("                self.vp, elbo, elbo_sd","                self.vp, elbo, elbo_sd")) if 0 else m("exit true",1,V,("class VBMC:","class _Quiet:\n    def __enter__(self):\n        return self\n\n    def __exit__(self, *exc):\n        return True\n\n\nclass VBMC:")),
 m("linalg pass",1,A,("                        gp = reupdate_gp(function_logger, gp)\n                    timer.stop","                        try:\n                            gp = reupdate_gp(function_logger, gp)\n                        except np.linalg.LinAlgError:\n                            pass\n                    timer.stop")),
 m("seterr",1,T,('        with np.errstate(divide="ignore"):\n','        np.seterr(divide="ignore")\n        if True:\n')),
 m("seterr restore no finally",1,T,('        with np.errstate(divide="ignore"):\n','        old = np.seterr(divide="ignore")\n        np.seterr(**old)\n        if True:\n')),
 m("seterr late",1,V,('        with np.errstate(invalid="ignore"):\n','        old = np.seterr(invalid="ignore")\n        if True:\n'),('        # Transform variables (Transform','        np.seterr(**old)\n        # Transform variables (Transform')),
 m("filterwarnings",1,E,("def entmc_vbmc(",'import warnings\nwarnings.filterwarnings("ignore")\n\n\ndef entmc_vbmc(')),
 m("simplefilter in func",1,V,('        # Before first iteration\n','        import warnings\n        warnings.simplefilter("ignore")\n        # Before first iteration\n')),
 m("catch then outside",1,V,('        # Before first iteration\n','        import warnings\n        with warnings.catch_warnings():\n            pass\n        warnings.simplefilter("ignore")\n        # Before first iteration\n')),
 m("printoptions",1,V,('        # Before first iteration\n','        np.set_printoptions(precision=4)\n        # Before first iteration\n')),
 m("environ",1,V,('        # Before first iteration\n','        import os\n        os.environ["OMP_NUM_THREADS"] = "1"\n        # Before first iteration\n')),
 m("seterr finally wrong order",1,T,('        with np.errstate(divide="ignore"):\n','        old = np.seterr(divide="ignore")\n        x = np.asarray(x)\n        try:\n            pass\n        finally:\n            np.seterr(**old)\n        if True:\n')),
 m("errstate enter",1,T,('        with np.errstate(divide="ignore"):\n','        np.errstate(divide="ignore").__enter__()\n        if True:\n')),
 # refactors
 m("r raise err",0,FL,(RERAISE,RERAISE.replace("raise\n","raise err\n"))),
 m("r raise helper",0,FL,(RERAISE,RERAISE.replace("raise\n","self._fail(err)\n")),("    def add(","    @staticmethod\n    def _fail(err):\n        raise err\n\n    def add(")),
 m("r raise if else",0,FL,(RERAISE,RERAISE.replace("            raise\n","            if self.noise_flag:\n                raise\n            else:\n                raise err\n"))),
 m("r try finally",0,FL,(RERAISE+"        timer.stop_timer(\"fun_time\")\n",RERAISE+"        finally:\n            timer.stop_timer(\"fun_time\")\n")),
 m("r try eval finally",0,A,(EVAL,"                try:\n                    ynew, _, idx_new = function_logger(xnew)\n                finally:\n                    logger.debug('done')\n")),
 m("r keyerror local",0,PT,('''            try:
                bounded_type = transform_types[transform_type]
            except KeyError as exc:
                raise ValueError(
                    f"Unrecognized bounded transform {transform_type}."
                ) from exc''','''            bounded_type = None
            try:
                bounded_type = transform_types[transform_type]
            except KeyError:
                pass
            if bounded_type is None:
                raise ValueError(
                    f"Unrecognized bounded transform {transform_type}."
                )''')),
 m("r linalg fallback",0,A,("                        gp = reupdate_gp(function_logger, gp)\n                    timer.stop","                        try:\n                            gp = reupdate_gp(function_logger, gp)\n                        except np.linalg.LinAlgError:\n                            gp = copy.deepcopy(gp)\n                    timer.stop")),
 m("r seterr finally",0,T,('        with np.errstate(divide="ignore"):\n','        old = np.seterr(divide="ignore")\n        try:\n            pass\n        finally:\n            np.seterr(**old)\n        with np.errstate(divide="ignore"):\n')),
 m("r catch warnings",0,V,('        # Before first iteration\n','        import warnings\n        with warnings.catch_warnings():\n            warnings.simplefilter("ignore")\n            pass\n        # Before first iteration\n')),
 m("r errstate helper",0,V,('        with np.errstate(divide="ignore"):\n            optim_state["lb_tran"]','        quiet = np.errstate\n        with quiet(divide="ignore"):\n            optim_state["lb_tran"]')),
 m("r float",0,V,('        # Before first iteration\n','        try:\n            v = float(self.options.get("tol_bound_x"))\n        except ValueError:\n            v = 0.0\n        # Before first iteration\n')),
 m("r cm generator",0,T,("def ","def ") if 0 else ('        with np.errstate(divide="ignore"):\n','        with _quiet():\n'),("class SplineTrapezoidal","import contextlib\n\n\n@contextlib.contextmanager\ndef _quiet():\n    old = np.seterr(divide=\"ignore\")\n    try:\n        yield\n    finally:\n        np.seterr(**old)\n\n\nclass SplineTrapezoidal")),
]
