V="vbmc/vbmc.py"
def m(name,exp,*ed,f=V): return (name,"C21",exp,[(f,a,b) for a,b in ed])
XIN="if np.any(x0 < lower_bounds) or np.any(x0 > upper_bounds):"
FIN='''        if np.any(np.invert(np.isfinite(plausible_lower_bounds))) or np.any(
            np.invert(np.isfinite(plausible_upper_bounds))
        ):'''
FINAL='''        ordidx = (
            (lower_bounds < plausible_lower_bounds)
            & (plausible_lower_bounds < plausible_upper_bounds)
            & (plausible_upper_bounds < upper_bounds)
        )
        if np.any(np.invert(ordidx)):
            raise ValueError(
                """vbmc:StrictBounds: For each variable, hard and
            plausible bounds should respect the ordering LB < PLB < PUB < UB."""
            )
'''
HALF='''        if np.any(
            (np.isfinite(lower_bounds) & np.isinf(upper_bounds))
            | (np.isinf(lower_bounds) & np.isfinite(upper_bounds))
        ):'''
CALL='''            x0,
            lower_bounds,
            upper_bounds,
            plausible_lower_bounds,
            plausible_upper_bounds,
        )

        # starting point'''
ADJ="            plausible_lower_bounds = np.maximum(plausible_lower_bounds, LB_eff)\n            plausible_upper_bounds = np.minimum(plausible_upper_bounds, UB_eff)\n"
WID='''            plausible_lower_bounds = np.minimum(
                plausible_lower_bounds, x0.min(0)
            )
            plausible_upper_bounds = np.maximum(
                plausible_upper_bounds, x0.max(0)
            )
'''
CASES=[
 m("no lower x0",1,(XIN,"if np.any(x0 > upper_bounds):")),
 m("no upper x0",1,(XIN,"if np.any(x0 < lower_bounds):")),
 m("x0 and",1,(XIN,"if np.any(x0 < lower_bounds) and np.any(x0 > upper_bounds):")),
 m("x0 all",1,(XIN,"if np.all(x0 < lower_bounds) or np.all(x0 > upper_bounds):")),
 m("x0 first only",1,(XIN,"if np.any(x0[0] < lower_bounds) or np.any(x0[0] > upper_bounds):")),
 m("x0 swapped",1,(XIN,"if np.any(x0 < upper_bounds) and np.any(x0 > lower_bounds):")),
 m("fin only lower",1,(FIN,"        if np.any(np.invert(np.isfinite(plausible_lower_bounds))):")),
 m("fin and",1,(FIN,FIN.replace(" or "," and "))),
 m("fin all",1,(FIN,FIN.replace("np.any(","np.all("))),
 m("fin isnan",1,(FIN,"        if np.any(np.isnan(plausible_lower_bounds)) or np.any(np.isnan(plausible_upper_bounds)):")),
 m("fin isinf",1,(FIN,"        if np.any(np.isinf(plausible_lower_bounds)) or np.any(np.isinf(plausible_upper_bounds)):")),
 m("real x0",1,("            np.any(np.invert(np.isreal(x0)))\n            or ","            ")),
 m("real pub",1,("            or np.any(np.invert(np.isreal(plausible_upper_bounds)))\n","")),
 m("final dropped",1,(FINAL,"")),
 m("final le",1,("            (lower_bounds < plausible_lower_bounds)\n","            (lower_bounds <= plausible_lower_bounds)\n")),
 m("final or",1,("            & (plausible_upper_bounds < upper_bounds)\n","            | (plausible_upper_bounds < upper_bounds)\n")),
 m("final before widening",1,(WID,FINAL+WID),(WID+"\n        # Test order of bounds\n"+FINAL,WID)) if 0 else m("final earlier",1,("        # Test that plausible bounds are reasonably separated from hard bounds\n",FINAL+"        # Test that\n"),(FINAL+"\n        # Check that variables","        # Check that variables")),
 m("final nan",1,("        if np.any(np.invert(ordidx)):\n            raise ValueError(\n                \"\"\"vbmc:StrictBounds: For each variable, hard and\n            plausible bounds should respect the ordering LB < PLB < PUB < UB.\"\"\"\n            )\n\n        # Check that variables","        if np.any(lower_bounds >= plausible_lower_bounds) or np.any(plausible_upper_bounds <= plausible_lower_bounds) or np.any(plausible_upper_bounds >= upper_bounds):\n            raise ValueError('x')\n\n        # Check that variables")),
 m("half lower only",1,(HALF,"        if np.any(np.isfinite(lower_bounds) & np.isinf(upper_bounds)):")),
 m("half all",1,(HALF,HALF.replace("np.any(","np.all("))),
 m("half and",1,(HALF,HALF.replace("            | ","            & "))),
 m("half warn",1,('            raise ValueError(\n                """vbmc:HalfBounds','            self.logger.warning(\n                """vbmc:HalfBounds')),
 m("half x0 gate",1,(HALF,"        if N0 == 1 and np.any(\n"+HALF.split("np.any(\n")[1])),
 m("eff sign",1,("LB_eff = lower_bounds + scale_factor","LB_eff = lower_bounds - scale_factor")),
 m("eff sign ub",1,("UB_eff = upper_bounds - scale_factor","UB_eff = upper_bounds + scale_factor")),
 m("eff zero sign",1,("            -scale_factor * bounds_range","            scale_factor * bounds_range")),
 m("eff cross",1,("LB_eff = lower_bounds + scale_factor","LB_eff = upper_bounds + scale_factor")),
 m("x0 clip",1,("x0 = np.maximum((np.minimum(x0, UB_eff)), LB_eff)","x0 = np.maximum((np.minimum(x0, LB_eff)), UB_eff)")),
 m("range sign",1,("bounds_range = upper_bounds - lower_bounds","bounds_range = lower_bounds - upper_bounds")),
 m("adj swap",1,(ADJ,ADJ.replace("maximum","MM").replace("minimum","maximum").replace("MM","minimum"))),
 m("adj eff swap",1,(ADJ,ADJ.replace("LB_eff","QQ").replace("UB_eff","LB_eff").replace("QQ","UB_eff"))),
 m("wid swap",1,(WID,WID.replace("minimum","MM").replace("maximum","minimum").replace("MM","maximum"))),
 m("wid ext",1,(WID,WID.replace("x0.min(0)","x0.max(0)"))),
 m("shape lb",1,("                lower_bounds = lower_bounds.reshape((1, D))","                pass")),
 m("return raw",1,("        return (\n            x0,\n            lower_bounds,","        lower_bounds = LB_eff\n        return (\n            x0,\n            lower_bounds,")),
 m("order returned",1,("            x0,\n            lower_bounds,\n            upper_bounds,\n            plausible_lower_bounds,\n            plausible_upper_bounds,\n        )\n\n    def","            x0,\n            lower_bounds,\n            upper_bounds,\n            plausible_upper_bounds,\n            plausible_lower_bounds,\n        )\n\n    def")),
 m("call swap",1,(CALL,CALL.replace("lower_bounds,\n            upper_bounds,\n            pl","upper_bounds,\n            lower_bounds,\n            pl",1))),
 m("stored swap",1,("            self.plausible_lower_bounds,\n            self.plausible_upper_bounds,\n        ) =","            self.plausible_upper_bounds,\n            self.plausible_lower_bounds,\n        ) =")),
 m("raw stored",1,("        # starting point\n","        self.plausible_lower_bounds = plausible_lower_bounds\n        # starting point\n")),
 m("raw x0",1,("        # starting point\n","        self.x0 = x0\n        # starting point\n")),
 m("default sign",1,("np.ones((1, self.D)) * np.inf","np.ones((1, self.D)) * -np.inf")),
 m("early eval",1,("        # Check/fix boundaries and starting points\n","        log_density(x0)\n")),
 m("late check",1,("        # Check/fix boundaries and starting points\n","        self.parameter_transformer = ParameterTransformer(self.D, lower_bounds, upper_bounds)\n")),
 m("transformer raw",1,("            self.plausible_lower_bounds,\n            self.plausible_upper_bounds,\n            transform_type","            plausible_lower_bounds,\n            self.plausible_upper_bounds,\n            transform_type")),
 m("try swallowed",1,('''        ) = self._bounds_check(''','''        ) = self._bounds_checked(''' ),("    def _bounds_check(",'''    def _bounds_checked(self, x0, lb, ub, plb, pub):
        try:
            return self._bounds_check(x0, lb, ub, plb, pub)
        except ValueError as e:
            self.logger.warning(str(e))
            return x0, lb, ub, plb, pub

    def _bounds_check(''')),
 # refactors
 m("r method any",0,(XIN,"if (x0 < lower_bounds).any() or (x0 > upper_bounds).any():")),
 m("r not all",0,(XIN,"if not (np.all(lower_bounds <= x0) and np.all(x0 <= upper_bounds)):")),
 m("r split",0,(XIN,"if np.any(x0 < lower_bounds):\n            raise ValueError('low')\n        if np.any(x0 > upper_bounds):")),
 m("r local",0,(XIN,"below = x0 < lower_bounds\n        above = x0 > upper_bounds\n        if np.any(below | above):")),
 m("r logical_or",0,(XIN,"if np.any(np.logical_or(x0 < lower_bounds, x0 > upper_bounds)):")),
 m("r fin tilde",0,(FIN,"        if (~np.isfinite(plausible_lower_bounds)).any() or (~np.isfinite(plausible_upper_bounds)).any():")),
 m("r fin notall",0,(FIN,"        finite = np.isfinite(plausible_lower_bounds) & np.isfinite(plausible_upper_bounds)\n        if not finite.all():")),
 m("r fin naninf",0,(FIN,"        if np.isnan(plausible_lower_bounds).any() or np.isinf(plausible_lower_bounds).any() or np.any(np.isnan(plausible_upper_bounds)) or np.any(np.isinf(plausible_upper_bounds)):")),
 m("r final notall",0,("        if np.any(np.invert(ordidx)):\n            raise ValueError(\n                \"\"\"vbmc:StrictBounds: For each variable, hard and\n            plausible bounds should respect the ordering LB < PLB < PUB < UB.\"\"\"\n            )\n\n        # Check that variables","        if not np.all(ordidx):\n            raise ValueError('x')\n\n        # Check that variables")),
 m("r half xor",0,(HALF,"        if np.any(np.isfinite(lower_bounds) != np.isfinite(upper_bounds)):")),
 m("r half logical_xor",0,(HALF,"        if np.any(np.logical_xor(np.isinf(lower_bounds), np.isinf(upper_bounds))):")),
 m("r half helper",0,(HALF,"        if self._half_bounded(lower_bounds, upper_bounds):"),("    def _bounds_check(","    @staticmethod\n    def _half_bounded(lb, ub):\n        low = np.isfinite(lb) & np.isinf(ub)\n        up = np.isinf(lb) & np.isfinite(ub)\n        return np.any(low | up)\n\n    def _bounds_check(")),
 m("r order helper",0,(FINAL,"        self._check_order(lower_bounds, plausible_lower_bounds, plausible_upper_bounds, upper_bounds)\n"),("    def _bounds_check(","    @staticmethod\n    def _check_order(lb, plb, pub, ub):\n        ok = (lb < plb) & (plb < pub) & (pub < ub)\n        if not np.all(ok):\n            raise ValueError('vbmc:StrictBounds')\n\n    def _bounds_check(")),
 m("r clip",0,("x0 = np.maximum((np.minimum(x0, UB_eff)), LB_eff)","x0 = np.clip(x0, LB_eff, UB_eff)")),
 m("r where eff",0,("        LB_eff[np.isinf(lower_bounds)] = lower_bounds[np.isinf(lower_bounds)]\n","        LB_eff = np.where(np.isinf(lower_bounds), lower_bounds, LB_eff)\n")),
 m("r kwargs call",0,(CALL,"            x0,\n            lower_bounds=lower_bounds,\n            upper_bounds=upper_bounds,\n            plausible_lower_bounds=plausible_lower_bounds,\n            plausible_upper_bounds=plausible_upper_bounds,\n        )\n\n        # starting point")),
 m("r tuple locals",0,('''        (
            self.x0,
            self.lower_bounds,
            self.upper_bounds,
            self.plausible_lower_bounds,
            self.plausible_upper_bounds,
        ) = self._bounds_check(''','''        checked = self._bounds_check('''),("        # starting point\n","        self.x0 = checked[0]\n        self.lower_bounds, self.upper_bounds = checked[1], checked[2]\n        self.plausible_lower_bounds, self.plausible_upper_bounds = checked[3:]\n\n        # starting point\n")),
 m("r full default",0,("np.ones((1, self.D)) * np.inf","np.full((1, self.D), np.inf)"),("np.ones((1, self.D)) * -np.inf","np.full((1, self.D), -np.inf)")),
 m("r half first",0,("        # Check that all X0 are inside the bounds\n",HALF+"\n            raise ValueError('half')\n")),
 m("r iscomplex",0,("            np.any(np.invert(np.isreal(x0)))\n","            np.any(np.iscomplex(x0))\n")),
 m("r eff helper",0,("        LB_eff = lower_bounds + scale_factor * bounds_range\n","        delta = scale_factor * bounds_range\n        LB_eff = lower_bounds + delta\n"),("            scale_factor * bounds_range[np.abs(lower_bounds) <= realmin]\n","            delta[np.abs(lower_bounds) <= realmin]\n")),
 m("r loop real",0,('''        if (
            np.any(np.invert(np.isreal(x0)))
            or np.any(np.invert(np.isreal(lower_bounds)))
            or np.any(np.invert(np.isreal(upper_bounds)))
            or np.any(np.invert(np.isreal(plausible_lower_bounds)))
            or np.any(np.invert(np.isreal(plausible_upper_bounds)))
        ):''','''        if any(
            np.any(np.invert(np.isreal(v)))
            for v in (x0, lower_bounds, upper_bounds, plausible_lower_bounds, plausible_upper_bounds)
        ):''')),
 m("r loop real 2",0,('''        if (
            np.any(np.invert(np.isreal(x0)))
            or np.any(np.invert(np.isreal(lower_bounds)))
            or np.any(np.invert(np.isreal(upper_bounds)))
            or np.any(np.invert(np.isreal(plausible_lower_bounds)))
            or np.any(np.invert(np.isreal(plausible_upper_bounds)))
        ):
            raise ValueError(
''','''        for v in (x0, lower_bounds, upper_bounds, plausible_lower_bounds, plausible_upper_bounds):
          if not np.all(np.isreal(v)):
            raise ValueError(
''')),
 m("transform without plausible bounds",1,("            self.plausible_lower_bounds,\n            self.plausible_upper_bounds,\n            transform_type","            transform_type")),
]
