import os
AS="vbmc/active_sample.py"; O="vbmc/variational_optimization.py"; VP="variational_posterior/variational_posterior.py"; AC="acquisition_functions/abstract_acq_fcn.py"; V="vbmc/vbmc.py"; A="vbmc/minimize_adam.py"
G="vbmc/gaussian_process_train.py"; HP="stats/get_hpd.py"; AF="acquisition_functions/acq_fcn.py"; AL="acquisition_functions/acq_fcn_log.py"
def m(name,exp,f,*ed): return (name,"C29",exp,[(f,a,b) for a,b in ed])
SEL='''            if options["search_cache_frac"] > 0:
                inds = np.argsort(acq_fast)
                optim_state["search_cache"] = X_search[inds]
                idx = inds[0]
            else:
                idx = np.argmin(acq_fast)
'''
REP='''                if f_val_optim < f_val_old:
                    X_acq[0, :] = AbstractAcqFcn._real2int(
                        xsearch_optim,
                        parameter_transformer,
                        optim_state["integer_vars"],
                    )
                    idx_cache_acq = np.nan
'''
LOOP='''        for i, vp0 in enumerate(vp0_vec):
            theta = vp0.get_parameters()
'''
CASES=[
 m("acq argmax",1,AS,("idx = np.argmin(acq_fast)","idx = np.argmax(acq_fast)")),
 m("acq last sorted",1,AS,("idx = inds[0]","idx = inds[-1]")),
 m("sorted descending",1,AS,("inds = np.argsort(acq_fast)","inds = np.argsort(-acq_fast)")),
 m("sorted reversed",1,AS,("inds = np.argsort(acq_fast)","inds = np.argsort(acq_fast)[::-1]")),
 m("sorted last of reversed",0,AS,("inds = np.argsort(acq_fast)\n                optim_state[\"search_cache\"] = X_search[inds]\n                idx = inds[0]",
   "rev = np.argsort(acq_fast)[::-1]\n                optim_state[\"search_cache\"] = X_search[rev[::-1]]\n                idx = rev[-1]")),
 m("argmax of negated",0,AS,("idx = np.argmin(acq_fast)","idx = np.argmax(-acq_fast)")),
 m("one sort",0,AS,(SEL,'''            inds = np.argsort(acq_fast)
            idx = inds[0]
            if options["search_cache_frac"] > 0:
                optim_state["search_cache"] = X_search[inds]
''')),
 m("cache unsorted",1,AS,('optim_state["search_cache"] = X_search[inds]','optim_state["search_cache"] = X_search')),
 m("cache copy",0,AS,('optim_state["search_cache"] = X_search[inds]','optim_state["search_cache"] = X_search[inds].copy()')),
 m("replace if >",1,AS,("if f_val_optim < f_val_old:","if f_val_optim > f_val_old:")),
 m("replace always",1,AS,("if f_val_optim < f_val_old:","if np.isfinite(f_val_optim):")),
 m("replace flipped ok",0,AS,("if f_val_optim < f_val_old:","if f_val_old > f_val_optim:")),
 m("replace le ok",0,AS,("if f_val_optim < f_val_old:","if f_val_optim <= f_val_old:")),
 m("replace not ge ok",0,AS,("if f_val_optim < f_val_old:","if not f_val_optim >= f_val_old:")),
 m("replace and finite ok",0,AS,("if f_val_optim < f_val_old:","if np.isfinite(f_val_optim) and f_val_optim < f_val_old:")),
 m("replace var ok",0,AS,("if f_val_optim < f_val_old:","improved = f_val_optim < f_val_old\n                if improved:")),
 m("f old other",1,AS,("f_val_old = acq_fast[idx]","f_val_old = acq_fast[0]")),
 m("f old min ok",0,AS,("f_val_old = acq_fast[idx]","f_val_old = np.min(acq_fast)")),
 m("idx cache other",1,AS,("idx_cache_acq = idx_cache[idx]","idx_cache_acq = idx_cache[0]")),
 m("cache kept after replace",1,AS,("                    idx_cache_acq = np.nan\n","")),
 m("cache kept unless",1,AS,("                    idx_cache_acq = np.nan\n",""),("idx_cache_acq = idx_cache[idx]","idx_cache_acq = idx_cache[idx]\n            keep = True")),
 m("acq on reversed",1,AS,("acq_fast = acq_eval(X_search, gp, vp, function_logger, optim_state)","acq_fast = acq_eval(X_search[::-1], gp, vp, function_logger, optim_state)")),
 m("acq on part",1,AS,("acq_fast = acq_eval(X_search, gp, vp, function_logger, optim_state)","acq_fast = acq_eval(X_search[1:], gp, vp, function_logger, optim_state)")),
 m("acq on copy",0,AS,("acq_fast = acq_eval(X_search, gp, vp, function_logger, optim_state)","acq_fast = acq_eval(X_search.copy(), gp, vp, function_logger, optim_state)")),
 m("objective negated",1,AS,("acq_fun = lambda X: acq_eval(","acq_fun = lambda X: -acq_eval(")),
 m("objective def",0,AS,('''            acq_fun = lambda X: acq_eval(
                X, gp, vp, function_logger, optim_state
            ).item()
''','''            def acq_fun(X):
                value = acq_eval(X, gp, vp, function_logger, optim_state)
                return value.item()
''')),
 m("argmax y start",1,AS,("idx_max = np.argmax(y)","idx_max = np.argmin(y)")),
 m("bounds -inf",1,AC,("acq[idx_bounds] = np.inf","acq[idx_bounds] = -np.inf")),
 m("clamp min",1,AC,("acq = np.maximum(acq, -realmax)","acq = np.minimum(acq, -realmax)")),
 m("clamp clip ok",0,AC,("acq = np.maximum(acq, -realmax)","acq = np.clip(acq, -realmax, None)")),
 m("clamp both ok",0,AC,("acq = np.maximum(acq, -realmax)","acq = np.minimum(np.maximum(acq, -realmax), realmax)")),
 m("reg reward",1,AC,("acq[idx_gp_uncertainty] += (","acq[idx_gp_uncertainty] -= (")),
 m("reg reward log",1,AC,("                        tol_var / var_tot[idx_gp_uncertainty] - 1\n                    )\n                else","                        var_tot[idx_gp_uncertainty] / tol_var - 1\n                    )\n                else")),
 m("reg reward2",1,AC,("-(tol_var / var_tot[idx_gp_uncertainty] - 1)","(tol_var / var_tot[idx_gp_uncertainty] - 1)")),
 m("reg rewritten",0,AC,("-(tol_var / var_tot[idx_gp_uncertainty] - 1)","1 - tol_var / var_tot[idx_gp_uncertainty]")),
 m("reg mask",1,AC,("idx_gp_uncertainty = var_tot < tol_var","idx_gp_uncertainty = var_tot > tol_var")),
 m("reg mask not",1,AC,("idx_gp_uncertainty = var_tot < tol_var","idx_gp_uncertainty = ~(var_tot < tol_var)")),
 m("reg mask flip ok",0,AC,("idx_gp_uncertainty = var_tot < tol_var","idx_gp_uncertainty = tol_var > var_tot")),
 m("var_tot mean only",1,AC,("var_tot = np.ravel(var_f + var_bar)","var_tot = np.ravel(var_bar)")),
 m("var_tot spread only",1,AC,("var_tot = np.ravel(var_f + var_bar)","var_tot = np.ravel(var_f)")),
 m("var_tot minus",1,AC,("var_tot = np.ravel(var_f + var_bar)","var_tot = np.ravel(var_bar - var_f)")),
 m("f_bar variance",1,AC,("f_bar = np.sum(f_mu, axis=1, keepdims=True) / Ns","f_bar = np.sum(f_s2, axis=1, keepdims=True) / Ns")),
 m("f_bar mean ok",0,AC,("f_bar = np.sum(f_mu, axis=1, keepdims=True) / Ns","f_bar = np.mean(f_mu, axis=1, keepdims=True)")),
 m("acq sign",1,AF,("acq = -var_tot","acq = var_tot")),
 m("acq exp sign",1,AF,("np.exp(f_bar - z)","np.exp(z - f_bar)")),
 m("acq reorder ok",0,AF,("acq = -var_tot * np.exp(f_bar - z) * p","acq = -(p * np.exp(-(z - f_bar)) * var_tot)")),
 m("acq div",1,AF,("acq = -var_tot * np.exp(f_bar - z) * p","acq = -np.exp(f_bar - z) * p / var_tot")),
 m("acq log sign",1,AL,("acq = -(np.log(var_tot) + f_bar - z + log_p)","acq = np.log(var_tot) + f_bar - z + log_p")),
 m("acq log term",1,AL,("acq = -(np.log(var_tot) + f_bar - z + log_p)","acq = -(np.log(var_tot) - f_bar + z + log_p)")),
 m("acq log density",1,AL,("acq = -(np.log(var_tot) + f_bar - z + log_p)","acq = -(np.log(var_tot) + f_bar - z - log_p)")),
 m("acq log ok",0,AL,("acq = -(np.log(var_tot) + f_bar - z + log_p)","acq = z - f_bar - log_p - np.log(var_tot)")),
 m("noise argmax",1,AC,("pos = np.argmin(","pos = np.argmax(")),
 m("sieve desc",1,O,("order = np.argsort(nelcbo_fill)","order = np.argsort(nelcbo_fill)[::-1]")),
 m("sieve neg ok",0,O,("order = np.argsort(nelcbo_fill)","order = np.argsort(-nelcbo_fill)[::-1]")),
 m("sieve type unsorted",1,O,("        vp0_type = vp0_type[order]\n","")),
 m("sieve vec unsorted",1,O,("        vp0_vec = vp0_vec[order]\n","")),
 m("sieve unsorted",1,O,("        vp0_vec = vp0_vec[order]\n        vp0_type = vp0_type[order]\n","")),
 m("sieve swapped lines ok",0,O,("        vp0_vec = vp0_vec[order]\n        vp0_type = vp0_type[order]\n","        vp0_type = vp0_type[order]\n        vp0_vec = vp0_vec[order]\n")),
 m("sieve positive elbo",1,O,("nelcbo_fill[i] = nelbo_tmp +","nelcbo_fill[i] = -nelbo_tmp +")),
 m("sieve range ok",0,O,(LOOP,'''        for i in range(len(vp0_vec)):
            vp0 = vp0_vec[i]
            theta = vp0.get_parameters()
''')),
 m("final argmax",1,O,('idx = np.argmin(elbo_stats["nelcbo"])','idx = np.argmax(elbo_stats["nelcbo"])')),
 m("final argsort ok",0,O,('idx = np.argmin(elbo_stats["nelcbo"])','idx = np.argsort(elbo_stats["nelcbo"])[0]')),
 m("mid argmax",1,O,('idx_mid = np.argmin(f_val_lst)','idx_mid = np.argmax(f_val_lst)')),
 m("sel type last",1,O,("idx = np.where(vp0_type == 1)[0][0]","idx = np.where(vp0_type == 1)[0][-1]")),
 m("sel flatnonzero ok",0,O,("idx = np.where(vp0_type == 1)[0][0]","idx = np.flatnonzero(vp0_type == 1)[0]")),
 m("sel no delete",1,O,("        vp0_vec = np.delete(vp0_vec, idx)\n","")),
 m("sel no delete type",1,O,("        vp0_type = np.delete(vp0_type, idx)\n","")),
 m("sel deletes first",1,O,("        vp0_vec = np.delete(vp0_vec, idx)\n","        vp0_vec = np.delete(vp0_vec, 0)\n")),
 m("sel nothing deleted",1,O,("        vp0_vec = np.delete(vp0_vec, idx)\n        vp0_type = np.delete(vp0_type, idx)\n","")),
 m("sel delete order ok",0,O,("        vp0_vec = np.delete(vp0_vec, idx)\n        vp0_type = np.delete(vp0_type, idx)\n","        vp0_type = np.delete(vp0_type, idx)\n        vp0_vec = np.delete(vp0_vec, idx)\n")),
 m("hpd asc",1,O,("order = np.argsort(y_star, axis=None)[::-1]","order = np.argsort(y_star, axis=None)")),
 m("noise hpd asc",1,G,("order = np.argsort(gp.y, axis=None)[::-1]","order = np.argsort(gp.y, axis=None)")),
 m("noise hpd neg ok",0,G,("order = np.argsort(gp.y, axis=None)[::-1]","order = np.argsort(-gp.y, axis=None)")),
 m("get hpd asc",1,HP,("np.argsort(y, axis=None)[::-1]","np.argsort(y, axis=None)")),
 m("get hpd flip ok",0,HP,("np.argsort(y, axis=None)[::-1]","np.flip(np.argsort(y, axis=None))")),
 m("mode start worst",1,VP,("idx = np.argmin(y0_vec.squeeze())","idx = np.argmax(y0_vec.squeeze())")),
 m("mode final worst",1,VP,("idx_min = np.argmin(ff.squeeze())","idx_min = np.argmax(ff.squeeze())")),
 m("mode ff overwritten",1,VP,("ff[k] = res.fun","ff[0] = res.fun")),
 m("mode sign",1,VP,("                return -y, -dy","                return -y, dy")),
 m("mode sign2",1,VP,("                return -y\n","                return y\n")),
 m("mode pdf",1,VP,("                return -y, -dy","                return y, dy")),
 m("mode ravel ok",0,VP,("idx_min = np.argmin(ff.squeeze())","idx_min = np.argmin(np.ravel(ff))")),
 m("mode max ok",0,VP,("idx_min = np.argmin(ff.squeeze())","idx_min = np.argmax(-ff.squeeze())")),
 m("adam stores after",1,A,("        # Store x together with its own value, before updating it\n        x_tab[:, i] = x\n",""),("        x = np.minimum(ub, np.maximum(lb, x))\n","        x = np.minimum(ub, np.maximum(lb, x))\n        x_tab[:, i] = x\n")),
 m("adam other column",1,A,("        x_tab[:, i] = x\n","        x_tab[:, i - 1] = x\n")),
 m("adam y over other window",1,A,("y = np.mean(y_tab[i - batch_size + 1 : i + 1])","y = np.mean(y_tab[i - batch_size : i])")),
 m("adam value first ok",0,A,("        x_tab[:, i] = x\n        y_tab[i], grad = f(x)\n","        y_tab[i], grad = f(x)\n        x_tab[:, i] = x\n")),
 m("adam copy ok",0,A,("        x_tab[:, i] = x\n","        x_tab[:, i] = x.copy()\n")),
 m("adam tmp ok",0,A,("        y_tab[i], grad = f(x)\n","        value, grad = f(x)\n        y_tab[i] = value\n")),
 m("vb objective negated",1,O,("                    return res[0], res[1]\n                return res[0]","                    return -res[0], -res[1]\n                return -res[0]")),
 m("vb gradient sign",1,O,("                    return res[0], res[1]\n                return res[0]","                    return res[0], -res[1]\n                return res[0]")),
 m("vb mc G",1,O,("                return res[0], res[1]\n\n            # Opt","                return res[2], res[1]\n\n            # Opt")),
 m("trim asc",1,V,("order = np.argsort(y_temp * -1, axis=0)","order = np.argsort(y_temp, axis=0)")),
 m("trim rev ok",0,V,("order = np.argsort(y_temp * -1, axis=0)","order = np.argsort(y_temp, axis=0)[::-1]")),
 m("best elbo argmin",1,V,("idx_best = idx_start + np.argmax(elcbo)","idx_best = idx_start + np.argmin(elcbo)")),
 m("keep worse",1,AS,('if elbo0 > vp.stats["elbo"]:','if elbo0 < vp.stats["elbo"]:')),
 m("keep sign",1,AS,("elbo0 = -_neg_elcbo(","elbo0 = _neg_elcbo(")),
 m("keep not ok",0,AS,('if elbo0 > vp.stats["elbo"]:','if not elbo0 <= vp.stats["elbo"]:')),
 m("keep ternary ok",0,AS,('                if elbo0 > vp.stats["elbo"]:\n                    vp = vp0\n','                vp = vp if elbo0 <= vp.stats["elbo"] else vp0\n')),
 m("keep nelbo ok",0,AS,("elbo0 = -_neg_elcbo(","nelbo0 = _neg_elcbo("),('if elbo0 > vp.stats["elbo"]:','if nelbo0 < -vp.stats["elbo"]:')),
 m("keep wrong vp value",1,AS,("                    theta0, gp, vp0, 0.0, NSentFineK, False, True\n","                    theta, gp, vp, 0.0, NSentFineK, False, True\n")),
]
