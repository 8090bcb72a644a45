O="vbmc/options.py"; V="vbmc/vbmc.py"; A="vbmc/active_sample.py"; VO="vbmc/variational_optimization.py"; G="vbmc/gaussian_process_train.py"
def m(name,exp,f,*ed): return (name,"C05",exp,[(f,a,b) for a,b in ed])
CASES=[
 m("setitem guard weakened",1,O,("            and self.is_initialized\n            and not force\n        ):\n            raise AttributeError(\n                \"Warning: Cannot set","            and self.is_initialized\n            and not force\n            and key in self\n        ):\n            raise AttributeError(\n                \"Warning: Cannot set")),
 m("del unguarded",1,O,("        dict.__delitem__(self, key)\n","        dict.__delitem__(self, key)\n\n    def pop(self, key, *args):\n        return dict.pop(self, key, *args)\n")),
 m("dict first",1,O,("class Options(MutableMapping, dict)","class Options(dict, MutableMapping)")),
 m("update raw",1,O,("    def __getitem__(self, key):","    def update(self, *a, **k):\n        dict.update(self, *a, **k)\n\n    def __getitem__(self, key):")),
 m("no ior",1,O,("    def __ior__(self","    def _ior(self")),
 m("load ignores useroptions",1,O,('if key not in self.get("useroptions") and key != "useroptions":','if key != "useroptions":')),
 m("update_defaults override",1,O,('                if key not in self["useroptions"]:\n                    self[key] = val','                self[key] = val')),
 m("user not registered",1,O,('            self["useroptions"].update(user_options.keys())\n','')),
 m("user before defaults",1,O,('        self.load_options_file(default_options_path, evaluation_parameters)\n','        if user_options is not None:\n            self.update(user_options)\n        self.load_options_file(default_options_path, evaluation_parameters)\n'),
   ('            self.update(user_options)\n            self["useroptions"]','            self["useroptions"]')),
 m("no freeze",1,O,("        self.is_initialized = True\n","        pass\n")),
 m("validate only non-user",1,O,("            if key != \"useroptions\" and key not in file_option_names:",'            if key != "useroptions" and key not in file_option_names and key not in self["useroptions"]:')),
 m("validate prefix",1,O,("            if key != \"useroptions\" and key not in file_option_names:",'            if key != "useroptions" and key not in file_option_names and not key.startswith("_"):')),
 m("validate warns",1,O,('                raise ValueError("The option {} does not exist.".format(key))','                import warnings\n\n                warnings.warn("The option {} does not exist.".format(key))')),
 m("validate before file",1,V,("""            self.options.validate_option_names(
                [basic_options_path, advanced_options_path]""","""            self.options.validate_option_names(
                [basic_options_path]""")),
 m("update_defaults early",1,V,("        self.options.update_defaults()\n",""),("        advanced_options_path = \"option","        self.options.update_defaults()\n        advanced_options_path = \"option")),
 m("boost no copy",1,V,("            options = copy.deepcopy(self.options)\n","            options = self.options\n")),
 m("active no copy",1,A,("            options_update = copy.deepcopy(options)\n","            options_update = options\n")),
 m("typo option",1,A,('options["search_max_fun_evals"]','options["search_max_funevals"]')),
 m("typo get",1,V,('self.options.get("separate_search_gp")','self.options.get("separate_searchgp")')),
 m("typo eval",1,V,('self.options.eval("ns_elbo", {"K": self.vp.K})\n                    )\n                    if self.iter','self.options.eval("ns_elboo", {"K": self.vp.K})\n                    )\n                    if self.iter')) if 0 else m("typo eval",1,VO,('options.eval("adaptive_k"','options.eval("adaptivek"')),
 m("typo force",1,V,('options.__setitem__("tol_weight", 0, force=True)','options.__setitem__("tolweight", 0, force=True)')),
 m("search opt override",1,A,('search_optimizer = "Nelder-Mead"\n','options.__setitem__("search_optimizer", "Nelder-Mead", force=True)\n')),
 m("unfreeze in optimize",1,V,("        # Initialize main logger with potentially new options:\n","        self.options.is_initialized = False\n        # Initialize main logger with potentially new options:\n")),
 m("load unfrozen",1,V,("            vbmc.options.is_initialized = True\n","")),
 m("load unchecked",1,V,("                if key not in vbmc.options:\n","                if key is None:\n")),
 m("user opts not passed",1,V,("            user_options=options,\n","            user_options=None,\n")),
 m("forced in train gp",1,G,("    # Initial design for GP optimization\n","    # Initial design for GP optimization\n")) if 0 else
 m("raw set in vbmc",1,V,("        # Initialize main logger with potentially new options:\n",'        dict.__setitem__(self.options, "display", "off")\n')),
 # refactors
 m("R: guard helper",0,O,('''        if (
            hasattr(self, "is_initialized")
            and self.is_initialized
            and not force
        ):
            raise AttributeError(
                "Warning: Cannot set options after initialization. Please re-initialize with `options = {...}`"
            )
        else:
            dict.__setitem__(self, key, val)
''','''        self._check_frozen(force)
        dict.__setitem__(self, key, val)

    def _check_frozen(self, force):
        if force or not getattr(self, "is_initialized", False):
            return
        raise AttributeError("frozen")
''')),
 m("R: guard nested",0,O,('''        if (
            hasattr(self, "is_initialized")
            and self.is_initialized
            and not force
        ):
            raise AttributeError(
                "Warning: Cannot set options after initialization. Please re-initialize with `options = {...}`"
            )
        else:
            dict.__setitem__(self, key, val)
''','''        if not force and hasattr(self, "is_initialized"):
            if self.is_initialized:
                raise AttributeError("frozen")
        super().__setitem__(key, val) if False else dict.__setitem__(self, key, val)
''')),
 m("R: load continue",0,O,('''            if key not in self.get("useroptions") and key != "useroptions":
                self[key] =''','''            if key in self["useroptions"] or key == "useroptions":
                continue
            else:
                self[key] =''')),
 m("R: defaults skip",0,O,('''                if key not in self["useroptions"]:
                    self[key] = val''','''                if key in self["useroptions"]:
                    continue
                self[key] = val''')),
 m("R: user loop",0,O,('            self.update(user_options)\n            self["useroptions"].update(user_options.keys())','            for name, value in user_options.items():\n                self[name] = value\n                self["useroptions"].add(name)')),
 m("R: validate set difference",0,O,('''        for key in self.keys():
            if key != "useroptions" and key not in file_option_names:
                raise ValueError("The option {} does not exist.".format(key))''','''        unknown = set(self.keys()) - file_option_names - {"useroptions"}
        if unknown:
            raise ValueError("The option {} does not exist.".format(sorted(unknown)[0]))''')),
 m("R: validate names list",0,V,("""        if options_path is not None:
            self.options""","""        if options_path is not None and options_path:
            self.options""")) if 0 else m("R: alias",0,A,("    parameter_transformer = function_logger.parameter_transformer\n","    opts = options\n    parameter_transformer = function_logger.parameter_transformer\n")),
 m("R: boost helper",0,V,("            options = copy.deepcopy(self.options)\n","            options = self._private_options()\n"),("    def final_boost","    def _private_options(self):\n        opts = copy.deepcopy(self.options)\n        return opts\n\n    def final_boost")),
 m("R: load check via helper",0,V,("""            for key in new_options:
                if key not in vbmc.options:
                    raise ValueError(f"The option {key} does not exist.")
""","""            unknown = [key for key in new_options if key not in vbmc.options]
            if unknown:
                raise ValueError(f"The option {unknown[0]} does not exist.")
""")),
 m("option ignored",1,"vbmc/vbmc.py",('            transform_type=self.options["bounded_transform"],\n','')),
 m("option hard-coded",1,V,('self.options.get("stop_warmup_reliability")','100')),
 m("option key in a local",0,"vbmc/vbmc.py",('        self.parameter_transformer = ParameterTransformer(\n','        key = "bounded_transform"\n        self.parameter_transformer = ParameterTransformer(\n'),('transform_type=self.options["bounded_transform"]','transform_type=self.options[key]')),
 m("options through a dict",0,"vbmc/vbmc.py",('        self.parameter_transformer = ParameterTransformer(\n','        chosen = dict(self.options.items())\n        self.parameter_transformer = ParameterTransformer(\n'),('transform_type=self.options["bounded_transform"]','transform_type=chosen["bounded_transform"]')),
]
