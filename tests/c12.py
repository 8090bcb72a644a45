V="vbmc/vbmc.py"; P="variational_posterior/variational_posterior.py"
def m(name,exp,f,*ed): return (name,"C12",exp,[(f,a,b) for a,b in ed])
MODE='''        if overwrite:
            mode = "wb"
        else:
            mode = "xb"
        with open(filepath, mode=mode) as f:
            dill.dump(self, f, recurse=True)
'''
SUF='''        filepath = Path(file)
        if filepath.suffix == "":
            filepath = filepath.with_suffix(".pkl")

        if overwrite'''
LSUF='''        filepath = Path(file)
        if filepath.suffix == "":
            filepath = filepath.with_suffix(".pkl")

        with open'''
CHECK='''        else:
            if not (0 <= iteration <= last_iteration):
                raise ValueError('''
LOOP='''            for attr in ["gp", "vp", "function_logger", "optim_state"]:
                if vbmc.iteration_history[attr] is not None:
                    setattr(
                        vbmc, attr, vbmc.iteration_history[attr][iteration]
                    )
'''
CUT='''            for k, v in vbmc.iteration_history.items():
                if v is not None:
                    vbmc.iteration_history[k] = vbmc.iteration_history[k][
                        : (iteration + 1)
                    ]
'''
HYP='''            if vbmc.optim_state.get("hyp_dict") is not None:
                vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
'''
TR='''            vbmc.parameter_transformer = vbmc.vp.parameter_transformer
'''
OPT='''            for key in new_options:
                if key not in vbmc.options:
                    raise ValueError(f"The option {key} does not exist.")
'''
RND='''        if set_random_state:
            random_state = vbmc.iteration_history["random_state"][iteration]
            np.random.set_state(random_state)
'''
CASES=[
 m("always wb",1,V,(MODE,MODE.replace('"xb"','"wb"'))),
 m("swap",1,P,(MODE,MODE.replace("if overwrite","if not overwrite"))),
 m("append",1,P,(MODE,MODE.replace('"xb"','"ab"'))),
 m("overwrite none",1,V,(MODE,MODE.replace("        if overwrite:","        if overwrite is not False:").replace('"xb"','"wb"'))),
 m("ternary ok",0,V,(MODE,'        mode = "wb" if overwrite else "xb"\n        with open(filepath, mode) as f:\n            dill.dump(self, f, recurse=True)\n')),
 m("exists ok",0,V,(MODE,'        if filepath.exists() and not overwrite:\n            raise FileExistsError(filepath)\n        with open(filepath, "wb") as f:\n            dill.dump(self, f, recurse=True)\n')),
 m("path open ok",0,P,(MODE,'        mode = "wb" if overwrite else "xb"\n        with filepath.open(mode) as f:\n            dill.dump(self, f, recurse=True)\n')),
 m("helper ok",0,V,(SUF,'        filepath = _with_ext(file)\n\n        if overwrite'),(LSUF,'        filepath = _with_ext(file)\n\n        with open'),("class VBMC:",'def _with_ext(file):\n    path = Path(file)\n    if not path.suffix:\n        path = path.with_suffix(".pkl")\n    return path\n\n\nclass VBMC:')),
 m("not suffix ok",0,V,(SUF,SUF.replace('filepath.suffix == ""','not filepath.suffix'))),
 m("load no suffix",1,V,(LSUF,'        filepath = Path(file)\n\n        with open')),
 m("load no suffix P",1,P,(LSUF,'        filepath = Path(file)\n\n        with open')),
 m("save other suffix",1,P,(SUF,SUF.replace(".pkl",".dill"))),
 m("save always suffix",1,V,(SUF,'        filepath = Path(file).with_suffix(".pkl")\n\n        if overwrite')),
 m("dump dict",1,P,(MODE,MODE.replace("dill.dump(self,","dill.dump(self.__dict__,"))),
 m("load other",1,P,("            vp = dill.load(f)\n\n        return vp","            vp = dill.load(f)\n\n        return cls(vp.D, vp.K)")),
 m("no range",1,V,(CHECK,CHECK.replace("0 <= iteration <= last_iteration","iteration <= last_iteration"))),
 m("no upper",1,V,(CHECK,CHECK.replace("0 <= iteration <= last_iteration","0 <= iteration"))),
 m("upper +1",1,V,(CHECK,CHECK.replace("<= last_iteration","<= last_iteration + 1"))),
 m("upper lt",1,V,(CHECK,CHECK.replace("<= last_iteration","< last_iteration"))),
 m("lower -1",1,V,(CHECK,CHECK.replace("0 <=","-1 <="))),
 m("split ok",0,V,(CHECK,CHECK.replace("not (0 <= iteration <= last_iteration)","iteration < 0 or iteration > last_iteration"))),
 m("late check",1,V,("            if not (0 <= iteration <= last_iteration):\n                raise ValueError(\n","            vbmc.vp = vbmc.iteration_history['vp'][iteration]\n            if not (0 <= iteration <= last_iteration):\n                raise ValueError(\n")),
 m("default counter",1,V,("            iteration = last_iteration\n        else","            iteration = vbmc.iteration\n        else")),
 m("default len",1,V,("-1 if optim_states is None else len(optim_states) - 1","-1 if optim_states is None else len(optim_states)")),
 m("default 0",1,V,("            iteration = last_iteration\n        else","            iteration = 0\n        else")),
 m("gp last",1,V,(LOOP,LOOP+'            vbmc.gp = vbmc.iteration_history["gp"][-1]\n')),
 m("no logger",1,V,(LOOP,LOOP.replace('"function_logger", ',''))),
 m("no vp",1,V,(LOOP,LOOP.replace('"vp", ',''))),
 m("prev",1,V,(LOOP,LOOP.replace('[attr][iteration]','[attr][iteration - 1]'))),
 m("unrolled ok",0,V,(LOOP,''.join(f'            if vbmc.iteration_history["{a}"] is not None:\n                vbmc.{a} = vbmc.iteration_history["{a}"][iteration]\n' for a in ("vp","gp","optim_state","function_logger")))),
 m("unrolled wrong",1,V,(LOOP,''.join(f'            if vbmc.iteration_history["{a}"] is not None:\n                vbmc.{a} = vbmc.iteration_history["{a}"][{i}]\n' for a,i in (("vp","iteration"),("gp","iteration"),("optim_state","iteration"),("function_logger","-1"))))),
 m("get ok",0,V,(LOOP,LOOP.replace("vbmc.iteration_history[attr] is not None","vbmc.iteration_history.get(attr) is not None"))),
 m("hist var ok",0,V,(LOOP,'            history = vbmc.iteration_history\n            for name in ("optim_state", "gp", "vp", "function_logger"):\n                records = history[name]\n                if records is not None:\n                    setattr(vbmc, name, records[iteration])\n')),
 m("no hyp",1,V,(HYP,'')),
 m("hyp before",1,V,(HYP,''),("            # Handle instances saved before running vbmc.optimize()\n","            # Handle\n"+HYP)),
 m("no transform",1,V,(TR,'')),
 m("transform logger ok",0,V,(TR,TR.replace("vbmc.vp.","vbmc.function_logger."))),
 m("no counter",1,V,("            vbmc.iteration = iteration\n","")),
 m("counter +1",1,V,("            vbmc.iteration = iteration\n","            vbmc.iteration = iteration + 1\n")),
 m("no cut",1,V,(CUT,'')),
 m("cut short",1,V,(CUT,CUT.replace("(iteration + 1)","iteration"))),
 m("cut long",1,V,(CUT,CUT.replace("(iteration + 1)","(iteration + 2)"))),
 m("cut v ok",0,V,(CUT,'            for k, v in vbmc.iteration_history.items():\n                if v is not None:\n                    vbmc.iteration_history[k] = v[: iteration + 1]\n')),
 m("cut keys ok",0,V,(CUT,'            n_keep = 1 + iteration\n            for k in list(vbmc.iteration_history.keys()):\n                v = vbmc.iteration_history[k]\n                if v is not None:\n                    vbmc.iteration_history[k] = v[0:n_keep]\n')),
 m("cut first ok",0,V,(CUT,''),(LOOP,CUT+LOOP)),
 m("opt unchecked",1,V,(OPT,'')),
 m("opt late",1,V,(OPT,''),("            vbmc.options.update(new_options)\n            vbmc.options.is_initialized = True\n","            vbmc.options.update(new_options)\n            vbmc.options.is_initialized = True\n"+OPT)),
 m("opt open",1,V,("            vbmc.options.update(new_options)\n            vbmc.options.is_initialized = True\n","            vbmc.options.update(new_options)\n")),
 m("opt ignored",1,V,("            vbmc.options.update(new_options)\n","")),
 m("rnd always",1,V,(RND,RND.replace("if set_random_state","if set_random_state is not None"))),
 m("rnd last",1,V,(RND,RND.replace('vbmc.iteration_history["random_state"][iteration]','vbmc.random_state'))),
 m("rnd first",1,V,(RND,RND.replace('[iteration]','[0]'))),
 m("rnd -1 ok",0,V,(RND,RND.replace('[iteration]','[-1]'))),
 m("rnd seed",1,V,(RND,RND+"        else:\n            np.random.seed(0)\n")),
 m("rnd none",1,V,(RND,'')),
 m("rnd inline ok",0,V,(RND,'        if set_random_state:\n            np.random.set_state(\n                vbmc.iteration_history["random_state"][vbmc.iteration]\n            )\n')),
]
