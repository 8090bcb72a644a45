V="vbmc/vbmc.py"
def m(name,exp,*ed): return (name,"C24",exp,[(V,a,b) for a,b in ed])
CASES=[
 m("sign",1,("                elcbo = lnZ_iter - safe_sd * lnZsd_iter\n                idx_best","                elcbo = lnZ_iter + safe_sd * lnZsd_iter\n                idx_best")),
 m("nosd",1,("                elcbo = lnZ_iter - safe_sd * lnZsd_iter\n                idx_best","                elcbo = lnZ_iter\n                idx_best")),
 m("argmin",1,("idx_best = idx_start + np.argmax(elcbo)","idx_best = idx_start + np.argmin(elcbo)")),
 m("no offset",1,("idx_best = idx_start + np.argmax(elcbo)","idx_best = np.argmax(elcbo)")),
 m("first stable",1,("idx_start = np.ravel(laststable)[-1]","idx_start = np.ravel(laststable)[0]")),
 m("short range",1,("""                lnZ_iter = self.iteration_history.get("elbo")[
                    idx_start : max_idx + 1
                ]
                lnZsd_iter = self.iteration_history.get("elbo_sd")[
                    idx_start : max_idx + 1
                ]""","""                lnZ_iter = self.iteration_history.get("elbo")[
                    idx_start : max_idx
                ]
                lnZsd_iter = self.iteration_history.get("elbo_sd")[
                    idx_start : max_idx
                ]""")),
 m("unbounded range",1,("""                lnZ_iter = self.iteration_history.get("elbo")[
                    idx_start : max_idx + 1
                ]
                lnZsd_iter = self.iteration_history.get("elbo_sd")[
                    idx_start : max_idx + 1
                ]""","""                lnZ_iter = self.iteration_history.get("elbo")[
                    idx_start:
                ]
                lnZsd_iter = self.iteration_history.get("elbo_sd")[
                    idx_start:
                ]""")),
 m("unbounded stable",1,("""                    self.iteration_history.get("stable")[: max_idx + 1] == True
""","""                    self.iteration_history.get("stable") == True
""")),
 m("frac inverted",1,("int(math.ceil(max_idx - max_idx * frac_back))","int(math.ceil(max_idx * frac_back))")),
 m("rank dir",1,("                order = elcbo.argsort()[::-1]\n","                order = elcbo.argsort()\n")),
 m("rank rindex",1,("                    : max_idx + 1\n                ].argsort()\n","                    : max_idx + 1\n                ].argsort()[::-1]\n")),
 m("rank pos",1,("rank[:, 0] = np.arange(1, max_idx + 2)[::-1]","rank[:, 0] = np.arange(1, max_idx + 2)")),
 m("rank obj mask",1,("rank[stable.astype(bool), 3] = 1","rank[stable, 3] = 1")),
 m("rank inv mask",1,("rank[stable.astype(bool), 3] = 1","rank[~stable.astype(bool), 3] = 1")),
 m("rank argmax",1,("np.argmin(np.sum(rank, 1))","np.argmax(np.sum(rank, 1))")),
 m("rank missing col",1,("                rank[order, 2] = np.arange(1, max_idx + 2)\n","")),
 m("elbo from last",1,("        elbo = self.iteration_history.get(\"elbo\")[idx_best]\n        elbo_sd","        elbo = self.iteration_history.get(\"elbo\")[max_idx]\n        elbo_sd")),
 m("sd swapped",1,("        elbo_sd = self.iteration_history.get(\"elbo_sd\")[idx_best]\n","        elbo_sd = self.iteration_history.get(\"elbo\")[idx_best]\n")),
 m("stable idx",1,("vp.stats[\"stable\"] = self.iteration_history.get(\"stable\")[idx_best]","vp.stats[\"stable\"] = self.iteration_history.get(\"stable\")[max_idx]")),
 m("stable ignored",1,("        if self.iteration_history.get(\"stable\")[max_idx]:\n            # If the","        if self.iteration_history.get(\"r_index\")[max_idx] < 1:\n            # If the")),
 m("default max",1,("max_idx = self.iteration_history.get(\"iter\")[-1]","max_idx = self.iteration_history.get(\"iter\")[-2]")),
 m("options dropped",1,("""            safe_sd=self.options["best_safe_sd"],
            frac_back=self.options["best_frac_back"],
        )""","        )"),("""                    safe_sd=self.options["best_safe_sd"],
                    frac_back=self.options["best_frac_back"],
                )""",")")),
 m("neg sd",1,("safe_sd: float = 5","safe_sd: float = -5")),
 # refactors
 m("r size",0,("if len(laststable) == 0:","if laststable.size == 0:")),
 m("r flip",0,("                if len(laststable) == 0:\n                    # Go some iterations back if no previous stable iteration\n                    idx_start = max(\n                        0, int(math.ceil(max_idx - max_idx * frac_back))\n                    )\n                else:\n                    idx_start = np.ravel(laststable)[-1]\n","                if len(laststable) > 0:\n                    idx_start = np.ravel(laststable)[-1]\n                else:\n                    idx_start = max(\n                        0, int(math.ceil(max_idx * (1 - frac_back)))\n                    )\n")),
 m("r flatnonzero",0,("                laststable = np.argwhere(\n                    self.iteration_history.get(\"stable\")[: max_idx + 1] == True\n                )","                laststable = np.flatnonzero(\n                    self.iteration_history[\"stable\"][: max_idx + 1].astype(bool)\n                )"),("np.ravel(laststable)[-1]","laststable[-1]")),
 m("r helper",0,("                elcbo = lnZ_iter - safe_sd * lnZsd_iter\n                idx_best = idx_start + np.argmax(elcbo)","                idx_best = self._best(lnZ_iter, lnZsd_iter, safe_sd) + idx_start"),("    def save(self, file","    @staticmethod\n    def _best(a, b, k):\n        return np.argmax(a - k * b)\n\n    def save(self, file")),
 m("r early return",0,("""            # If the current iteration is stable, return it
            idx_best = max_idx

        else:
""","""            idx_best = max_idx
        elif not self.iteration_history.get("stable")[max_idx]:
""")),
 m("r argmin neg",0,("np.argmax(elcbo)","np.argmin(-elcbo)")),
 m("r hist local",0,("        # Check up to this iteration (default, last)\n","        H = self.iteration_history\n        # Check up\n"),("        vp = self.iteration_history.get(\"vp\")[idx_best]\n        elbo = self.iteration_history.get(\"elbo\")[idx_best]","        vp = H[\"vp\"][idx_best]\n        elbo = H[\"elbo\"][idx_best]")),
 m("r n",0,("                rank = np.zeros((max_idx + 1, 4))","                n_it = max_idx + 1\n                rank = np.zeros((n_it, 4))"),("rank[:, 0] = np.arange(1, max_idx + 2)[::-1]","rank[:, 0] = np.arange(1, n_it + 1)[::-1]"),("                rank[order, 1] = np.arange(1, max_idx + 2)","                rank[order, 1] = np.arange(1, n_it + 1)")),
 m("r order neg",0,("                order = elcbo.argsort()[::-1]\n","                order = np.argsort(-elcbo)\n")),
]
