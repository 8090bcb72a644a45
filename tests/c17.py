V="variational_posterior/variational_posterior.py"
def m(name,exp,*ed): return (name,"C17",exp,[t if len(t)==3 else (V,)+t for t in ed])
MASK='''            mask = np.logical_and(
                np.all(x > self.parameter_transformer.lb_orig, axis=1),
                np.all(x < self.parameter_transformer.ub_orig, axis=1),
            )
'''
TR="            x[mask] = self.parameter_transformer(x[mask])\n"
LOGC='''                y[mask] -= self.parameter_transformer.log_abs_det_jacobian(
                    x[mask]
                )[:, np.newaxis]
'''
LINC='''                y[mask] /= np.exp(
                    self.parameter_transformer.log_abs_det_jacobian(x[mask])[
                        :, np.newaxis
                    ]
                )
'''
ZM='''            zero_mask = y == 0
            y[zero_mask] = -np.inf
            y[~zero_mask] = np.log(y[~zero_mask])
            # PDF is 0 outside original bounds:
            y[~mask] = -np.inf
        else:
            y[~mask] = 0
'''
MO="            x, _ = self.sample(int(N), orig_flag=True, balance_flag=True)\n"
INV='''            if orig_flag:
                x = self.parameter_transformer.inverse(x)
        return x, i
'''
CORR=open('/repo/pyvbmc/'+V).read()
i=CORR.index('        # apply jacobian correction'); j=CORR.index('        if grad_flag:\n            return y, dy'); CORR=CORR[i:j]
CASES=[
 m("mask or",1,(MASK,MASK.replace("logical_and","logical_or"))),
 m("mask any",1,(MASK,MASK.replace("np.all(x >","np.any(x >"))),
 m("mask lower only",1,(MASK,"            mask = np.all(x > self.parameter_transformer.lb_orig, axis=1)\n")),
 m("mask non strict",1,(MASK,MASK.replace("x <","x <="))),
 m("mask swapped bound",1,(MASK,MASK.replace("x > self.parameter_transformer.lb","x > self.parameter_transformer.ub"))),
 m("mask all true",1,(MASK,"            mask = np.full(N, True)\n")),
 m("outside not zeroed lin",1,(ZM,ZM.replace("            y[~mask] = 0\n","            pass\n"))),
 m("outside not zeroed log",1,(ZM,ZM.replace("            y[~mask] = -np.inf\n",""))),
 m("outside zero in log",1,(ZM,ZM.replace("            y[~mask] = -np.inf\n","            y[~mask] = 0\n"))),
 m("outside mask inverted",1,(ZM,ZM.replace("            y[~mask] = 0\n","            y[mask] = 0\n"))),
 m("zero mask inverted",1,(ZM,ZM.replace("y == 0","y != 0"))),
 m("log sign",1,(LOGC,LOGC.replace("-=","+="))),
 m("lin sign",1,(LINC,LINC.replace("/=","*="))),
 m("log corr dropped",1,(LOGC,"                pass\n")),
 m("lin corr dropped",1,(LINC,"                pass\n")),
 m("log corr twice",1,(LOGC,LOGC+LOGC)),
 m("lin missing exp",1,(LINC,LINC.replace("np.exp(","np.abs("))) if False else m("lin corr twice",1,(LINC,LINC+LINC)),
 m("corr always",1,("        if orig_flag:\n            if log_flag:","        if True:\n            if log_flag:")),
 m("corr only log",1,(CORR,CORR.replace("        if orig_flag:\n            if log_flag:","        if orig_flag and log_flag:\n            if log_flag:"))),
 m("jacobian at given point",1,("        x = x.copy()\n","        x = x.copy()\n        x0 = x.copy()\n"),(LINC,LINC.replace("x[mask]","x0[mask]"))),
 m("log jacobian at given point",1,("        x = x.copy()\n","        x = x.copy()\n        x0 = x.copy()\n"),(LOGC,LOGC.replace("                    x[mask]\n","                    x0[mask]\n"))),
 m("transform dropped",1,(TR,"            pass\n")),
 m("transform always",1,("        if orig_flag:\n"+TR,"        if True:\n"+TR)),
 m("transform twice",1,(TR,TR+TR)),
 m("inverse instead",1,(TR,TR.replace("transformer(x","transformer.inverse(x"))),
 m("transform only when lin",1,("        if orig_flag:\n"+TR,"        if orig_flag and not log_flag:\n"+TR)),
 m("flags swapped in log_pdf",1,("return self.pdf(*args, **kwargs, log_flag=True)","return self.pdf(*args, **kwargs, log_flag=False)")),
 m("log_pdf no flag",1,("return self.pdf(*args, **kwargs, log_flag=True)","return self.pdf(*args, **kwargs)")),
 m("log not taken for heavy",1,(ZM,ZM.replace("            y[~zero_mask] = np.log(y[~zero_mask])\n","            if np.isinf(df):\n                y[~zero_mask] = np.log(y[~zero_mask])\n"))),
 m("heavy corr skip",1,("        # apply jacobian correction\n        if orig_flag:","        # apply jacobian correction\n        if orig_flag and not (np.isfinite(df) and df < 0):")),
 m("heavy point",1,('''                    d2 = (
                        (x - self.mu.T[k])''','''                    d2 = (
                        (self.parameter_transformer(x) - self.mu.T[k])''')),
 m("sample no inverse",1,(INV,"        return x, i\n")),
 m("sample always inverse",1,(INV,INV.replace("if orig_flag","if True"))),
 m("sample forward",1,(INV,INV.replace("transformer.inverse(x)","transformer(x)"))),
 m("sample single branch",1,(INV,"        return x, i\n"),("                        * self.sigma[:, i].T\n                    )\n","                        * self.sigma[:, i].T\n                    )\n                    if orig_flag:\n                        x = self.parameter_transformer.inverse(x)\n")),
 m("sample inverse twice for one component",1,("                i = np.zeros(N)\n","                i = np.zeros(N)\n                if orig_flag:\n                    x = self.parameter_transformer.inverse(x)\n")),
 m("moments flag",1,(MO,MO.replace("orig_flag=True","orig_flag=False"))),
 m("moments mapped mean",1,(MO,MO.replace("orig_flag=True","orig_flag=False")),("            mubar = np.mean(x, axis=0)\n","            mubar = self.parameter_transformer.inverse(np.mean(x, axis=0))\n")),
 m("moments analytic mapped",1,("            mubar = np.mean(x, axis=0)\n","            mubar = self.parameter_transformer.inverse(np.sum(self.w * self.mu, axis=1)[None, :])\n")),
 m("moments mean axis",1,("            mubar = np.mean(x, axis=0)\n","            mubar = np.mean(x, axis=1)\n")),
 m("moments median",1,("            mubar = np.mean(x, axis=0)\n","            mubar = np.median(x, axis=0)\n")),
 m("moments N const",1,(MO,MO.replace("int(N)","int(1e6)"))),
 m("moments cov transformed samples",1,("                cov = np.cov(x.T)\n","                x, _ = self.sample(int(N), orig_flag=False)\n                cov = np.cov(x.T)\n")),
 m("moments inverted branch",1,("        if orig_flag:\n"+MO,"        if not orig_flag:\n"+MO)),
 m("moments heavy",1,(MO,MO.replace("balance_flag=True","balance_flag=True, df=10"))),
 m("mode flag",1,("x0, orig_flag=True, log_flag=True, grad_flag=False","x0, orig_flag=False, log_flag=True, grad_flag=False")),
 m("mode x0",1,("x0_mat, _ = self.sample(n_samples, orig_flag)","x0_mat, _ = self.sample(n_samples)")),
 m("mode cache all",1,("        if orig_flag:\n            self._mode = x","        if True:\n            self._mode = x")),
 m("mode cache read",1,("        if orig_flag and self._mode is not None","        if self._mode is not None")),
 m("mode centers",1,("                if orig_flag:\n                    x0_mu =","                if True:\n                    x0_mu =")),
 m("kl transformed",1,("            xx1, _ = self.sample(N, True, True)\n            q1 = self.pdf(xx1, True)","            xx1, _ = self.sample(N, False, True)\n            q1 = self.pdf(xx1, False)")),
 m("kl moments",1,("q1mu, q1sigma = self.moments(N, True, True)","q1mu, q1sigma = self.moments(N, False, True)")),
 m("mtv",1,("        xx1, _ = self.sample(N, True, True)\n        if vp2","        xx1, _ = self.sample(N, False, True)\n        if vp2")),
 m("default pdf",1,("        x: np.ndarray,\n        orig_flag: bool = True,","        x: np.ndarray,\n        orig_flag: bool = False,")),
 m("default sample",1,("        N: int,\n        orig_flag: bool = True,","        N: int,\n        orig_flag: bool = False,")),
 # behaviour-preserving
 m("ok mask inverted form",0,(MASK,"            below = np.any(x <= self.parameter_transformer.lb_orig, axis=1)\n            above = np.any(self.parameter_transformer.ub_orig <= x, axis=1)\n            mask = ~(below | above)\n")),
 m("ok mask one all",0,(MASK,"            pt = self.parameter_transformer\n            mask = ((x > pt.lb_orig) & (x < pt.ub_orig)).all(axis=1)\n")),
 m("ok mult exp neg",0,(LINC,"                lj = self.parameter_transformer.log_abs_det_jacobian(x[mask])\n                y[mask] = y[mask] * np.exp(-lj)[:, None]\n")),
 m("ok corr merged",0,(CORR,'''        if orig_flag:
            if log_flag and grad_flag:
                raise NotImplementedError("vbmc_pdf:NoOriginalGrad: no gradient")
            lj = self.parameter_transformer.log_abs_det_jacobian(x[mask])
            lj = lj[:, np.newaxis]
            y[mask] = y[mask] - lj if log_flag else y[mask] / np.exp(lj)

''')),
 m("ok log then exp",0,(CORR,CORR.replace("y[mask] /= np.exp(\n","y[mask] = y[mask] / np.exp(\n"))),
 m("ok corr before zeroing",0,(ZM,ZM.replace("            # PDF is 0 outside original bounds:\n            y[~mask] = -np.inf\n        else:\n            y[~mask] = 0\n","")),(CORR,CORR+"        y[~mask] = -np.inf if log_flag else 0.0\n\n")),
 m("ok where",0,(ZM,'''            with np.errstate(divide="ignore"):
                y = np.log(y)
            y = np.where(mask[:, np.newaxis], y, -np.inf)
        else:
            y = np.where(mask[:, np.newaxis], y, 0.0)
''')),
 m("ok helper corr",0,(CORR,"        if orig_flag:\n            if log_flag and grad_flag:\n                raise NotImplementedError('vbmc_pdf:NoOriginalGrad')\n            y = self._to_orig(x, y, mask, log_flag)\n"),("    @handle_0D_1D_input(patched_kwargs=[\"x\"], patched_argpos=[0])\n    def log_pdf",'''    def _to_orig(self, x, y, inside, log_flag):
        lj = self.parameter_transformer.log_abs_det_jacobian(x[inside])
        if log_flag:
            y[inside] -= lj[:, np.newaxis]
        else:
            y[inside] /= np.exp(lj)[:, np.newaxis]
        return y

    @handle_0D_1D_input(patched_kwargs=["x"], patched_argpos=[0])
    def log_pdf''')),
 m("ok z name",0,("        # Convert points to transformed space\n        if orig_flag:\n"+TR,"        z = x.copy()\n        if orig_flag:\n            z[mask] = self.parameter_transformer(x[mask])\n        x = z\n")),
 m("ok sample early",0,(INV,"        if not orig_flag:\n            return x, i\n        return self.parameter_transformer.inverse(x), i\n")),
 m("ok sample helper",0,(INV,"        pt = self.parameter_transformer\n        x = pt.inverse(x) if orig_flag else x\n        return x, i\n")),
 m("ok moments split",0,(MO,"            n_mc = int(N)\n            xs = self.sample(n_mc, True, True)\n            x = xs[0]\n")),
 m("ok moments method mean",0,("            mubar = np.mean(x, axis=0)\n","            mubar = x.mean(axis=0)\n")),
 m("ok mode log_pdf",0,('''                y = self.pdf(
                    x0, orig_flag=True, log_flag=True, grad_flag=False
                )''','''                y = self.log_pdf(x0, orig_flag=orig_flag)''')),
 m("ok log_pdf dict",0,("return self.pdf(*args, **kwargs, log_flag=True)","kwargs['log_flag'] = True\n        return self.pdf(*args, **kwargs)")),
 m("ok kl kwargs",0,("            q1 = self.pdf(xx1, True)","            q1 = self.pdf(xx1, orig_flag=True)")),
]
