G="vbmc/gaussian_process_train.py"; A="vbmc/active_sample.py"; P="parameter_transformer/parameter_transformer.py"; O="vbmc/variational_optimization.py"; V="vbmc/vbmc.py"; W="whitening/whitening.py"
B="vbmc/option_configs/basic_vbmc_options.ini"; AD="vbmc/option_configs/advanced_vbmc_options.ini"; Q="acquisition_functions/"
def m(name,exp,f,*ed): return (name,"C23",exp,[t if len(t)==3 else (f,)+t for t in ed])
MF='''    elif name == "negquad":
        mean_f = gpr.mean_functions.NegativeQuadratic()
    else:
        raise ValueError("Unknown mean function!")
'''
VM='''            "zero",
            "const",
            "negquad",
'''
GS='''        if self.options.get("gp_hyp_sampler") != "slicesample":
            raise ValueError(
                """vbmc:UnknownGPsampler:Unknown/unsupported sampler for GP
            hyperparameters. Supported samplers are slicesample"""
            )
'''
NM='''                elif search_optimizer == "Nelder-Mead":
                    from scipy.optimize import minimize
'''
SE='''                else:
                    raise NotImplementedError("Not implemented yet")
'''
SO='''            else:
                raise ValueError("Unknown stochastic optimizer!")
'''
ID='''                else:
                    raise ValueError(
                        "Unknown initial design for VBMC. "'''
LL='''            elif log_file_level in [0, 10, 20, 30, 40, 50]:
                file_handler.setLevel(log_file_level)
            else:
                raise ValueError(
                    "Log file logging level is not a recognized"
                    + "string or logging level."
                )
'''
src=open('/repo/pyvbmc/vbmc/vbmc.py').read()
i=src.index('        if not optim_state["gp_mean_fun"] in valid_gp_mean_funs:'); j=src.index('            )\n',i)+len('            )\n'); GM=src[i:j]
psrc=open('/repo/pyvbmc/parameter_transformer/parameter_transformer.py').read()
i=psrc.index('        if type(transform_type) == str:'); j=psrc.index('        # Setup bounded transforms:'); PT=psrc[i:j]
gsrc=open('/repo/pyvbmc/vbmc/gaussian_process_train.py').read()
i=gsrc.index('    if name == "zero":'); j=gsrc.index('    return mean_f'); MFA=gsrc[i:j]
CASES=[
 m("mean else default",1,G,(MF,MF.replace('raise ValueError("Unknown mean function!")','mean_f = gpr.mean_functions.NegativeQuadratic()'))),
 m("mean valid more",1,V,(VM,VM+'            "se",\n')),
 m("mean valid less",1,V,(VM,VM.replace('            "negquad",\n',''))),
 m("mean not validated and lenient",1,V,(GM,""),(G,MF,MF.replace('raise ValueError("Unknown mean function!")','mean_f = None'))),
 m("mean swapped",1,G,("mean_f = gpr.mean_functions.ZeroMean()","mean_f = gpr.mean_functions.ConstantMean()")),
 m("mean extra",1,G,(MF,'    elif name == "se":\n        mean_f = gpr.mean_functions.SE()\n'+MF),(V,VM,VM+'            "se",\n')),
 m("sampler unvalidated",1,V,(GS,"")),
 m("sampler warn only",1,V,(GS,GS.replace("raise ValueError(","logging.warning("))),
 m("sampler extra",1,V,(GS,GS.replace('!= "slicesample"','not in ("slicesample", "npv")'))),
 m("sampler dispatch lacks",1,G,('    if options["gp_hyp_sampler"] == "slicesample":','    if options["gp_hyp_sampler"] == "slice":')),
 m("search default",1,A,(SE,"                else:\n                    xsearch_optim, f_val_optim = x0, f_val_old\n")),
 m("search swapped names",1,A,('if search_optimizer == "cmaes"','if search_optimizer == "nm"'),(NM,NM.replace("Nelder-Mead","cmaes"))),
 m("search guarded refusal",1,A,(SE,'                elif options["acq_hedge"]:\n                    raise NotImplementedError("Not implemented yet")\n                else:\n                    xsearch_optim, f_val_optim = x0, f_val_old\n')),
 m("search default ini",1,AD,('search_optimizer = "cmaes"','search_optimizer = "cma"')),
 m("adam default",1,O,(SO,"            else:\n                pass\n")),
 m("adam renamed",1,AD,('stochastic_optimizer = "adam"','stochastic_optimizer = "sgd"')),
 m("init lenient",1,A,('elif options.get("init_design") == "narrow":','else:'),(ID,"                if False:\n                    raise ValueError(\n                        \"Unknown initial design for VBMC. \"")),
 m("init renamed",1,A,('options.get("init_design") == "plausible"','options.get("init_design") == "box"')),
 m("loglevel lenient",1,V,(LL,LL.replace('raise ValueError(\n                    "Log file logging level is not a recognized"\n                    + "string or logging level."\n                )','file_handler.setLevel(logging.INFO)'))),
 m("loglevel doc",1,B,('one of ("iter", "full", or "off"), or','one of ("iter", "notify", "full", or "off"), or')),
 m("loglevel drop full",1,V,('elif log_file_level == "full":','elif log_file_level == "debug":')),
 m("display drop full",1,V,('elif self.options.get("display") == "full":','elif self.options.get("display") == "debug":'),(A,'options.get("display") == "full"','options.get("display") == "debug"')),
 m("transform lenient name",1,P,(PT,PT.replace("bounded_type = transform_types[transform_type]","bounded_type = transform_types.get(transform_type, 12)"))),
 m("transform lenient code",1,P,("            if transform_type not in transform_types.values():","            if transform_type not in transform_types.values() and transform_type < 0 and False:")),
 m("transform wrong code",1,P,('"student4": 13','"student4": 12')),
 m("transform swapped",1,P,('"logit": 3','"logit": 12')),
 m("transform no jac",1,P,('                self._bounded_transforms[t]["jacobian"] = bounded_jacobian\n\n            elif t == 12:','                self._bounded_transforms[t]["jac"] = bounded_jacobian\n\n            elif t == 12:')) if '\n\n            elif t == 12:' in psrc else m("transform code missing",1,P,("t == 13","t == 14")),
 m("transform code missing",1,P,("t == 13","t == 14")),
 m("transform extra",1,P,('"student4": 13','"student4": 13,\n            "loglog": 14')),
 m("warp zero",1,W,("if isinstance(gp_old.mean, gpr.mean_functions.ZeroMean):","if False:")),
 m("warp const",1,W,("elif isinstance(gp_old.mean, gpr.mean_functions.ConstantMean):","elif isinstance(gp_old.mean, gpr.mean_functions.SE):")),
 m("hyp zero",1,G,("    if isinstance(gp.mean, gpr.mean_functions.ZeroMean):","    if isinstance(gp.mean, gpr.mean_functions.ConstantMean) and False:")),
 m("cov lenient",1,G,('raise ValueError("Unknown covariance function")','cov_f = gpr.covariance_functions.SquaredExponential()')),
 m("cov swap",1,G,("if identifier == 1:","if identifier == 2:")),
 m("acq not exported",1,Q+"__init__.py",("from .acq_fcn_noisy import AcqFcnNoisy\n","")),
 m("acq viqr no base",1,Q+"acq_fcn_viqr.py",("def is_log_base(","def log_base(")),
 m("mean set const renamed",1,V,('self.optim_state["gp_mean_fun"] = "const"','self.optim_state["gp_mean_fun"] = "constant"')),
 # behaviour-preserving
 m("r mean dict",0,G,(MFA,'''    kinds = {
        "zero": gpr.mean_functions.ZeroMean,
        "const": gpr.mean_functions.ConstantMean,
        "negquad": gpr.mean_functions.NegativeQuadratic,
    }
    if name not in kinds:
        raise ValueError("Unknown mean function!")
    mean_f = kinds[name]()

''')),
 m("r mean early",0,G,(MFA,'''    if name not in ("zero", "const", "negquad"):
        raise ValueError("Unknown mean function!")
    if name == "zero":
        return gpr.mean_functions.ZeroMean()
    if name == "const":
        return gpr.mean_functions.ConstantMean()
    mean_f = gpr.mean_functions.NegativeQuadratic()
''')),
 m("r mean reorder",0,G,(MFA,'''    if name == "negquad":
        mean_f = gpr.mean_functions.NegativeQuadratic()
    elif name == "const":
        mean_f = gpr.mean_functions.ConstantMean()
    elif name == "zero":
        mean_f = gpr.mean_functions.ZeroMean()
    else:
        raise ValueError("Unknown mean function!")
''')),
 m("r mean match",0,G,(MFA,'''    match name:
        case "zero":
            mean_f = gpr.mean_functions.ZeroMean()
        case "const":
            mean_f = gpr.mean_functions.ConstantMean()
        case "negquad":
            mean_f = gpr.mean_functions.NegativeQuadratic()
        case _:
            raise ValueError("Unknown mean function!")
''')),
 m("r valid set",0,V,('            "negquad",\n        ]\n','            "negquad",\n        ]\n        valid_gp_mean_funs = tuple(valid_gp_mean_funs)\n')),
 m("r valid or",0,V,("if not optim_state[\"gp_mean_fun\"] in valid_gp_mean_funs:","name = optim_state[\"gp_mean_fun\"]\n        if name not in valid_gp_mean_funs:")),
 m("r valid helper",0,V,(GS,"        _check_sampler(self.options)\n"),("class VBMC:",'''def _check_sampler(options):
    if options.get("gp_hyp_sampler") != "slicesample":
        raise ValueError("vbmc:UnknownGPsampler")


class VBMC:''')),
 m("r sampler eq",0,V,(GS,GS.replace('self.options.get("gp_hyp_sampler") != "slicesample"','not (self.options["gp_hyp_sampler"] == "slicesample")'))),
 m("r search else first",0,A,(NM,NM.replace('elif search_optimizer == "Nelder-Mead":','elif not search_optimizer != "Nelder-Mead":'))),
 m("r adam guard first",0,O,('            if options["stochastic_optimizer"] == "adam":','            if options["stochastic_optimizer"] != "adam":\n                raise ValueError("Unknown stochastic optimizer!")\n            else:'),(SO,"")),
 m("r transform in",0,P,(PT,'''        if isinstance(transform_type, str):
            if transform_type not in transform_types:
                raise ValueError(
                    f"Unrecognized bounded transform {transform_type}."
                )
            bounded_type = transform_types[transform_type]
        elif transform_type in transform_types.values():
            bounded_type = transform_type
        else:
            raise ValueError(
                f"Unrecognized bounded transform {transform_type}."
            )

''')),
 m("r transform get none",0,P,(PT,PT.replace('''            try:
                bounded_type = transform_types[transform_type]
            except KeyError as exc:
                raise ValueError(
                    f"Unrecognized bounded transform {transform_type}."
                ) from exc
''','''            bounded_type = transform_types.get(transform_type)
            if bounded_type is None:
                raise ValueError(
                    f"Unrecognized bounded transform {transform_type}."
                )
'''))),
 m("r warp merge",0,W,('''        if isinstance(gp_old.mean, gpr.mean_functions.ZeroMean):
            # Nothing to warp
            pass

        elif isinst''','''        zero_mean = isinstance(gp_old.mean, gpr.mean_functions.ZeroMean)
        if zero_mean:
            # Nothing to warp
            pass

        elif isinst''')),
 m("r loglevel dict",0,V,(LL,LL.replace("[0, 10, 20, 30, 40, 50]","(0, 10, 20, 30, 40, 50)"))),
 m("r loglevel var",0,V,('            if log_file_level == "off":','            level_name = log_file_level\n            if level_name == "off":')),
 m("r cov",0,G,("if identifier == 1:","if identifier in (1,):")),
 m("r new modifier",0,O,('            if options["stochastic_optimizer"] == "adam":','            use_adam = options["stochastic_optimizer"] == "adam"\n            if use_adam:')),
]
