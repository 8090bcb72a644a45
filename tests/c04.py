P="parameter_transformer/parameter_transformer.py"; W="whitening/whitening.py"
def m(name,exp,*ed): return (name,"C04",exp,[(P,a,b) for a,b in ed])
CASES=[
 m("inverse order",1,("""        if self.scale is not None:
            x = x * self.scale
        if self.R_mat is not None:
            x = x @ np.transpose(self.R_mat)
""","""        if self.R_mat is not None:
            x = x @ np.transpose(self.R_mat)
        if self.scale is not None:
            x = x * self.scale
""")),
 m("inverse no transpose",1,("            x = x @ np.transpose(self.R_mat)","            x = x @ self.R_mat")),
 m("jac no scale",1,("            p = p + np.log(self.scale)\n","            pass\n")),
 m("jac scale only if R",1,("        if self.scale is not None:\n            p = p + np","        if self.scale is not None and self.R_mat is not None:\n            p = p + np")),
 m("jac minus scale",1,("            p = p + np.log(self.scale)\n","            p = p - np.log(self.scale)\n")),
 m("jac order",1,("""        if self.scale is not None:
            u_c = u_c * self.scale
        if self.R_mat is not None:
            u_c = u_c @ np.transpose(self.R_mat)
""","""        if self.R_mat is not None:
            u_c = u_c @ np.transpose(self.R_mat)
        if self.scale is not None:
            u_c = u_c * self.scale
""")),
 m("jac at u not u_c",1,("                    self, u_c, mask\n","                    self, u, mask\n")),
 m("jac unbounded 1/delta",1,("p[:, mask] = np.log(self.delta[mask])[np.newaxis]","p[:, mask] = -np.log(self.delta[mask])[np.newaxis]")),
 m("direct type0 no delta",1,("(x[:, mask] - self.mu[mask]) / self.delta[mask]","x[:, mask] - self.mu[mask]")),
 m("inverse type0 order",1,("x[:, mask] * self.delta[mask] + self.mu[mask]","(x[:, mask] + self.mu[mask]) * self.delta[mask]")),
 m("uncenter",1,("    return v * delta + mu","    return (v + mu) * delta")),
 m("student j2",1,("np.log(3 / 8) - (5 / 2) * np.log1p(y**2 / 4)","np.log(3 / 8) - (3 / 2) * np.log1p(y**2 / 4)")),
 m("probit j3 missing",1,("""                    j2 = -0.5 * np.log(2 * np.pi) - 0.5 * y**2
                    j3 = np.log(self.delta[mask])
                    return j1 + j2 + j3""","""                    j2 = -0.5 * np.log(2 * np.pi) - 0.5 * y**2
                    return j1 + j2""")),
 m("student inverse uses probit",1,("_inverse_student4(\n","_inverse_probit(\n")),
 m("norminv to 13",1,('"norminv": 12','"norminv": 13')),
 m("new type no impl",1,('"student4": 13,\n        }','"student4": 13,\n            "cauchy": 14,\n        }')),
 m("eq drop mu",1,("            and np.all(self.mu == other.mu)\n","")),
 m("eq self R",1,("np.all(self.R_mat == other.R_mat)","np.all(self.R_mat == self.R_mat)")),
 m("logit typo",1,("np.log(z[u == 0] / (1 - z[u == 0]))","np.log(z[u == 0] / (1 + z[u == 0]))")),
 m("inv student coefficient",1,("1 - t2 / (1 + t2 / 4) / 12","1 - t2 / (1 + t2 / 4) / 6")),
 m("from unit",1,("y = z * (ub - lb) + lb","y = z * (ub - lb) + ub")),
 m("direct scale only with R",1,("        if self.scale is not None:\n            u = u / self.scale","        if self.scale is not None and self.R_mat is not None:\n            u = u / self.scale")),
 m("jac mean",1,("p = np.sum(p, axis=1)","p = np.sum(p, axis=0)")),
 ("rotation scaled","C04",1,[(W,"parameter_transformer.R_mat = U\n","parameter_transformer.R_mat = U * scale\n")]),
 # refactors
 m("R: whitening helper",0,("""        # Rotoscale whitening:
        # Rotate and rescale points in transformed space.
        if self.R_mat is not None:
            u = u @ self.R_mat
        if self.scale is not None:
            u = u / self.scale

        return u
""","""        return self._whiten(u)

    def _whiten(self, u):
        if self.R_mat is not None:
            u = np.matmul(u, self.R_mat)
        if self.scale is None:
            return u
        return np.divide(u, self.scale)
""")),
 m("R: unwhiten helper",0,("""        # Rotoscale whitening:
        # Undo rescaling and rotation.
        if self.scale is not None:
            x = x * self.scale
        if self.R_mat is not None:
            x = x @ np.transpose(self.R_mat)
""","        x = self._unwhiten(x)\n"),("""        if self.scale is not None:
            u_c = u_c * self.scale
        if self.R_mat is not None:
            u_c = u_c @ np.transpose(self.R_mat)
""","        u_c = self._unwhiten(u_c)\n"),("    def _set_bounded","""    def _unwhiten(self, v):
        if self.scale is not None:
            v = self.scale * v
        return v if self.R_mat is None else v @ self.R_mat.T

    def _set_bounded""")),
 m("R: jac rewrite",0,("z = -np.log1p(np.exp(-y))\n                    j2 = -y + 2 * z","j2 = -(y + 2 * np.logaddexp(0, -y))")),
 m("R: jac scale sum",0,("            p = p + np.log(self.scale)\n","            p += np.log(self.scale)[None, :]\n")),
 m("R: student algebra",0,("np.log(3 / 8) - (5 / 2) * np.log1p(y**2 / 4)","np.log(3) - np.log(8) - 2.5 * np.log(1 + 0.25 * np.square(y))")),
 m("R: expit",0,("    z[~mask] = 1 / (1 + np.exp(-u[~mask]))","    e = np.exp(-u[~mask])\n    z[~mask] = np.reciprocal(1 + e)")),
 m("R: eq early returns",0,("""        return (
            np.all(self.scale == other.scale)
            and np.all(self.R_mat == other.R_mat)
            and np.all""","""        if not np.all(self.scale == other.scale):
            return False
        if not np.array_equal(self.R_mat, other.R_mat):
            return False
        return (
            np.all""")),
 m("R: eq loop",0,("""            np.all(self.scale == other.scale)
            and np.all(self.R_mat == other.R_mat)
            and""","""            all(np.all(getattr(self, n) == getattr(other, n)) for n in ("scale", "R_mat"))
            and""")),
 m("R: dict literal",0,("""                self._bounded_transforms[t]["direct"] = bounded_transform

                def bounded_inverse(self, u, mask):
                    return _from_unit_interval(
                        _inverse_probit(""","""                direct = bounded_transform
                self._bounded_transforms[t]["direct"] = direct

                def bounded_inverse(self, u, mask):
                    return _from_unit_interval(
                        _inverse_probit(""")),
 m("R: if-else mask",0,("            if np.any(mask):\n                xNew[:, mask] = self","            if mask.any():\n                xNew[:, mask] = self")),
 m("R: loop items",0,("""        for t in self.bounded_types:
            mask = self.type == t
            if np.any(mask):
                p[""","""        for bt in self.bounded_types:
            mask = self.type == bt
            t = bt
            if not np.any(mask):
                continue
            if True:
                p[""")),
 m("R: center via numpy",0,("    return (u - mu) / delta","    return np.divide(np.subtract(u, mu), delta)")),
]
