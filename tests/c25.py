G="vbmc/gaussian_process_train.py"; A="vbmc/active_sample.py"; H="stats/get_hpd.py"; O="vbmc/variational_optimization.py"; V="vbmc/vbmc.py"
def m(name,exp,f,*ed): return (name,"C25",exp,[t if len(t)==3 else (f,)+t for t in ed])
XT="    x_train = function_logger.X[function_logger.X_flag, :]\n"; YT="    y_train = function_logger.y[function_logger.X_flag]\n"
ST="s2_train = function_logger.S[function_logger.X_flag] ** 2"; TT="    t_train = function_logger.fun_eval_time[function_logger.X_flag]\n"
NF="    if function_logger.noise_flag:\n        s2_train"
IX="    indices = order[0:hpd_N]\n    hpd_X = X[indices]\n    hpd_y = y[indices]\n"
OR="order = np.argsort(y, axis=None)[::-1]"
FIT="x_train, y_train, s2_train, hyp0=hyp0, options=gp_train"
UP='''                        (s2new is None)
                        and function_logger.n_evals[idx_new] == 1
'''
SN='''                        function_logger.S[function_logger.X_flag] ** 2
                    ) * function_logger.n_evals[function_logger.X_flag]'''
RE="    gp.X = x_train\n    gp.y = y_train\n    gp.s2 = s2_train\n"
CASES=[
 m("y all rows",1,G,(YT,"    y_train = function_logger.y[: function_logger.Xn + 1]\n")),
 m("X all rows",1,G,(XT,"    x_train = function_logger.X[: function_logger.Xn + 1, :]\n")),
 m("X and y all rows",1,G,(XT,"    x_train = function_logger.X[: function_logger.Xn + 1, :]\n"),(YT,"    y_train = function_logger.y[: function_logger.Xn + 1]\n")),
 m("SD not squared",1,G,(ST,ST[:-5])),
 m("SD halved",1,G,(ST,ST+" / 2")),
 m("SD times n",1,G,(ST,ST+" * function_logger.n_evals[function_logger.X_flag]")),
 m("SD all rows",1,G,(ST,"s2_train = function_logger.S[: function_logger.Xn + 1] ** 2")),
 m("y_orig",1,G,(YT,YT.replace("r.y[","r.y_orig["))),
 m("X_orig",1,G,(XT,XT.replace("r.X[","r.X_orig["))),
 m("noise only if",1,G,(NF,"    if not function_logger.noise_flag:\n        s2_train")),
 m("noise never",1,G,(ST,"s2_train = None")),
 m("t rows",1,G,(TT,"    t_train = function_logger.fun_eval_time[: function_logger.Xn + 1]\n")),
 m("y sorted",1,G,(YT,YT+"    y_train = y_train[np.argsort(y_train, axis=None)]\n")),
 m("t as y",1,G,(YT,"    y_train = function_logger.fun_eval_time[function_logger.X_flag]\n")),
 m("return order",1,G,("return x_train, y_train, s2_train, t_train","return x_train, y_train, t_train, s2_train")),
 m("hpd ascending",1,H,(OR,OR.replace("[::-1]",""))),
 m("hpd y unsorted",1,H,("hpd_y = y[indices]","hpd_y = y[:hpd_N]")),
 m("hpd X unsorted",1,H,("hpd_X = X[indices]","hpd_X = X[0:hpd_N]")),
 m("hpd return order",1,H,("hpd_range, indices","hpd_range, order")),
 m("hpd range of X",1,H,("np.max(hpd_X, axis=0)","np.max(X, axis=0)")),
 m("hpd -y reversed",1,H,(OR,"order = np.argsort(-y, axis=None)[::-1]")),
 m("hpd sort X",1,H,(OR,"order = np.argsort(X[:, 0], axis=None)[::-1]")),
 m("hpd sort abs",1,H,(OR,"order = np.argsort(np.abs(y), axis=None)[::-1]")),
 m("hpd sorted indices for X",1,H,("hpd_X = X[indices]","hpd_X = X[np.sort(indices)]")),
 m("hpd y sort",1,H,("hpd_y = y[indices]","hpd_y = np.sort(y, axis=0)[indices]")),
 m("est s2 unsorted",1,G,("hpd_s2 = gp.s2[order[0:hpd_N]]","hpd_s2 = gp.s2[0:hpd_N]")),
 m("est y unsorted",1,G,("hpd_y = gp.y[order[0:hpd_N]]","hpd_y = gp.y[0:hpd_N]")),
 m("est X unsorted",1,G,("hpd_X = gp.X[order[0:hpd_N]]","hpd_X = gp.X[0:hpd_N]")),
 m("est s2 all",1,G,("hpd_s2 = gp.s2[order[0:hpd_N]]","hpd_s2 = gp.s2")),
 m("est s2 sd",1,G,("gp.noise.compute(hyp, hpd_X, hpd_y, hpd_s2)","gp.noise.compute(hyp, hpd_X, hpd_y, np.sqrt(hpd_s2))")),
 m("reupdate no s2",1,G,(RE,RE.replace("    gp.s2 = s2_train\n",""))),
 m("reupdate no y",1,G,(RE,RE.replace("    gp.y = y_train\n",""))),
 m("reupdate no X",1,G,(RE,RE.replace("    gp.X = x_train\n",""))),
 m("reupdate t",1,G,(RE,RE.replace("gp.s2 = s2_train","gp.s2 = t_train"))),
 m("reupdate None",1,G,(RE,RE.replace("gp.s2 = s2_train","gp.s2 = None"))),
 m("reupdate X all",1,G,(RE,RE.replace("gp.X = x_train","gp.X = function_logger.X[: function_logger.Xn + 1]"))),
 m("reupdate new rows only when larger",1,G,(RE,RE.replace("    gp.s2 = s2_train\n","    if gp.s2 is not None:\n        gp.s2 = s2_train[: gp.s2.shape[0]]\n"))),
 m("fit no s2",1,G,(FIT,FIT.replace("s2_train, ",""))),
 m("fit None",1,G,(FIT,FIT.replace("s2_train, ","None, "))),
 m("fit t",1,G,(FIT,FIT.replace("s2_train, ","t_train, "))),
 m("fit swapped",1,G,(FIT,FIT.replace("x_train, y_train","y_train, x_train"))),
 m("fit sd",1,G,(FIT,FIT.replace("s2_train, ","np.sqrt(s2_train), "))),
 m("fit hpd y",1,G,("    hyp_dict[\"hyp\"], _, res = gp.fit(","    y_train = get_hpd(x_train, y_train, 1.0)[1]\n    hyp_dict[\"hyp\"], _, res = gp.fit(")),
 m("noise n unselected",1,A,(SN,SN.replace("n_evals[function_logger.X_flag]","n_evals[: gp.X.shape[0]]"))),
 m("noise S unselected",1,A,(SN,SN.replace("S[function_logger.X_flag]","S[: function_logger.Xn + 1]"))),
 m("noise S not squared",1,A,(SN,SN.replace(" ** 2",""))),
 m("rank1 merged",1,A,(UP,"                        s2new is None\n")),
 m("rank1 noisy",1,A,(UP,"                        function_logger.n_evals[idx_new] == 1\n")),
 m("rank1 other row",1,A,(UP,UP.replace("idx_new","idx_new - 1"))),
 m("rank1 last row",1,A,(UP,UP.replace("idx_new","function_logger.Xn"))),
 m("rank1 other point",1,A,("gp.update(xnew, ynew,","gp.update(x_best if False else Xs[idx], ynew,")),
 m("rank1 or",1,A,(UP,UP.replace("and func","or func"))),
 m("s2new is always None",1,A,("                s2new = function_logger.S[idx_new] ** 2","                s2new = None")),
 m("search y all",1,A,("            y = function_logger.y[function_logger.X_flag]\n","            y = function_logger.y[: function_logger.Xn + 1]\n")),
 m("search X all",1,A,("            X = function_logger.X[function_logger.X_flag]\n","            X = function_logger.X[: function_logger.Xn + 1]\n")),
 m("search best of all",1,A,("idx_max = np.argmax(y)","idx_max = np.argmax(function_logger.y)")),
 m("search best index of all rows",1,A,("mubar = X[idx_max]","mubar = function_logger.X[idx_max]")),
 m("cma hpd",1,A,("get_hpd(gp.X, gp.y, options[\"hpd_frac\"])[0]","get_hpd(gp.X, function_logger.y, options[\"hpd_frac\"])[0]")),
 m("cma hpd 2",1,A,("get_hpd(gp.X, gp.y, options[\"hpd_frac\"])[0]","get_hpd(function_logger.X, function_logger.y, options[\"hpd_frac\"])[0]")),
 m("vbinit y all",1,O,("vp0_vec, vp0_type = _vb_init(vp, 1, init_N, K, X_star, y_star)","vp0_vec, vp0_type = _vb_init(vp, 1, init_N, K, X_star, gp.y)")),
 m("vbinit X all",1,O,("vp, 2, math.ceil(init_N / 3), K, X_star, y_star","vp, 2, math.ceil(init_N / 3), K, gp.X, y_star")),
 m("bounds y",1,G,("gp.mean.get_bounds_info(hpd_X, hpd_y)","gp.mean.get_bounds_info(hpd_X, y)")),
 m("bounds X",1,G,("gp.covariance.get_bounds_info(hpd_X, hpd_y)","gp.covariance.get_bounds_info(X, hpd_y)")),
 # behaviour-preserving
 m("r square",0,G,(ST,"s2_train = np.square(function_logger.S[function_logger.X_flag])")),
 m("r self product",0,G,(ST,"sd = function_logger.S[function_logger.X_flag]\n        s2_train = sd * sd")),
 m("r square then select",0,G,(ST,"s2_train = (function_logger.S**2)[function_logger.X_flag]")),
 m("r flag var",0,G,(XT,"    active = function_logger.X_flag\n    x_train = function_logger.X[active]\n"),(YT,"    y_train = function_logger.y[active]\n")),
 m("r flatnonzero",0,G,(XT,"    rows = np.flatnonzero(function_logger.X_flag)\n    x_train = function_logger.X[rows]\n"),(YT,"    y_train = function_logger.y[rows]\n")),
 m("r where",0,G,(XT,"    (rows,) = np.where(function_logger.X_flag)\n    x_train = function_logger.X[rows]\n"),(YT,"    y_train = function_logger.y[rows, :]\n")),
 m("r helper",0,G,(XT,"    x_train = _act(function_logger, function_logger.X)\n"),(YT,"    y_train = _act(function_logger, function_logger.y)\n"),("def _get_training_data(","def _act(fl, a):\n    return a[fl.X_flag]\n\n\ndef _get_training_data(")),
 m("r order",0,G,(XT+YT,YT+XT)),
 m("r s2 first None",0,G,("    if function_logger.noise_flag:\n        "+ST+"\n    else:\n        s2_train = None\n","    s2_train = None\n    if function_logger.noise_flag:\n        "+ST+"\n")),
 m("r s2 ifexp",0,G,("    if function_logger.noise_flag:\n        "+ST+"\n    else:\n        s2_train = None\n","    s2_train = (\n        function_logger.S[function_logger.X_flag] ** 2\n        if function_logger.noise_flag\n        else None\n    )\n")),
 m("r negsort",0,H,(OR,"order = np.argsort(-y, axis=None)")),
 m("r negsort 2",0,H,(OR,"order = np.argsort(-1 * y.ravel())")),
 m("r flip",0,H,(OR,"order = np.flip(np.argsort(y, axis=None))")),
 m("r flip method",0,H,(OR,"order = y.argsort(axis=None)[::-1]")),
 m("r two steps",0,H,(IX,"    hpd_X = X[order][:hpd_N]\n    hpd_y = y[order][:hpd_N]\n    indices = order[:hpd_N]\n")),
 m("r order head",0,H,(IX,"    order = order[:hpd_N]\n    indices = order\n    hpd_X = X[order, :]\n    hpd_y = y[order]\n")),
 m("r ptp",0,H,("np.max(hpd_X, axis=0) - np.min(hpd_X, axis=0)","np.ptp(hpd_X, axis=0)")),
 m("r hpd tuple",0,H,("    return hpd_X, hpd_y, hpd_range, indices","    result = (hpd_X, hpd_y, hpd_range, indices)\n    return result")),
 m("r hpd take",0,H,("hpd_X = X[indices]","hpd_X = np.take(X, indices, axis=0)")),
 m("r est idx",0,G,("hpd_X = gp.X[order[0:hpd_N]]","top = order[:hpd_N]\n    hpd_X = gp.X[top]"),("hpd_y = gp.y[order[0:hpd_N]]","hpd_y = gp.y[top]"),("hpd_s2 = gp.s2[order[0:hpd_N]]","hpd_s2 = gp.s2[top]")),
 m("r est s2 ifexp",0,G,("    if gp.s2 is not None:\n        hpd_s2 = gp.s2[order[0:hpd_N]]\n    else:\n        hpd_s2 = None\n","    hpd_s2 = None if gp.s2 is None else gp.s2[order[0:hpd_N]]\n")),
 m("r est use get_hpd",0,G,("    hpd_X = gp.X[order[0:hpd_N]]\n    hpd_y = gp.y[order[0:hpd_N]]\n","    hpd_X, hpd_y = gp.X[order[0:hpd_N]], gp.y[order[0:hpd_N]]\n")),
 m("r reupdate tuple",0,G,(RE,"    gp.X, gp.y, gp.s2 = x_train, y_train, s2_train\n")),
 m("r reupdate idx",0,G,("    x_train, y_train, s2_train, t_train = _get_training_data(function_logger)\n    gp.X = x_train\n","    data = _get_training_data(function_logger)\n    gp.X = data[0]\n"),("    gp.y = y_train\n    gp.s2 = s2_train\n","    gp.y = data[1]\n    gp.s2 = data[2]\n")),
 m("r reupdate helper",0,G,(RE,"    _install(gp, x_train, y_train, s2_train)\n"),("def reupdate_gp(","def _install(gp, X, y, s2):\n    gp.X = X\n    gp.y = y\n    gp.s2 = s2\n\n\ndef reupdate_gp(")),
 m("r fit kw",0,G,(FIT,"X=x_train, y=y_train, s2=s2_train, hyp0=hyp0, options=gp_train")),
 m("r fit star",0,G,("    x_train, y_train, s2_train, t_train = _get_training_data(function_logger)\n    D =","    x_train, y_train, s2_train, _ = _get_training_data(function_logger)\n    D =")),
 m("r noise square",0,A,(SN,SN.replace("function_logger.S[function_logger.X_flag] ** 2","np.square(function_logger.S[function_logger.X_flag])"))),
 m("r noise swap",0,A,(SN,"                        function_logger.n_evals[function_logger.X_flag] *\n                    function_logger.S[function_logger.X_flag] ** 2)")),
 m("r noise select product",0,A,(SN,"                        (function_logger.S ** 2) * function_logger.n_evals)[function_logger.X_flag]")),
 m("r noise not hoisted",0,A,("                s2 = (\n"+SN+"\n","                act = function_logger.X_flag\n                    sd = function_logger.S[act]\n                    s2 = sd**2 * function_logger.n_evals[act]\n")) if False else m("r noise flag var",0,A,(SN,SN.replace("n_evals[function_logger.X_flag]","n_evals[function_logger.X_flag == True]"))),
 m("r rank1 nested",0,A,("                    if update1:\n","                    merged = not update1\n                    if not merged:\n")),
 m("r rank1 le",0,A,(UP,UP.replace("== 1","<= 1"))),
 m("r rank1 noise flag",0,A,(UP,UP.replace("(s2new is None)","(not function_logger.noise_flag)"))),
 m("r rank1 kw",0,A,("gp.update(xnew, ynew, compute_posterior=True)","gp.update(X_new=xnew, y_new=ynew, compute_posterior=True)")),
 m("r rank1 helper",0,A,("                        gp.update(xnew, ynew, compute_posterior=True)","                        _one(gp, xnew, ynew)"),("def active_sample(","def _one(gp, x, y):\n    gp.update(x, y, compute_posterior=True)\n\n\ndef active_sample(")),
 m("r search where",0,A,("            y = function_logger.y[function_logger.X_flag]\n","            y = function_logger.y[np.where(function_logger.X_flag)[0]]\n")),
 m("r search hpd idx",0,A,("X_hpd, _, _, _ = get_hpd(X, y, hpd_fracs[idx])","X_hpd = get_hpd(X, y, hpd_fracs[idx])[0]")),
 m("r vbinit",0,O,("X_star, y_star, _, _ = get_hpd(gp.X, gp.y, options[\"hpd_frac\"])","hpd = get_hpd(gp.X, gp.y, options[\"hpd_frac\"])\n        X_star, y_star = hpd[0], hpd[1]")),
 m("r vbinit kw",0,O,("get_hpd(gp.X, gp.y, options","get_hpd(y=gp.y, X=gp.X, hpd_frac=options")),
]
