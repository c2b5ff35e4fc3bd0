# behaviour-preserving rewrites: ref(name, (file, old, new), ...)
C = "_calc.py"
ref("calc-stack-helper",
    (C, '''            if self.int_Q is True:
                ret = self._convert_sig0_db(
                    np.stack(
                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
                    ),
                )
            else:
                ret = self._convert_sig0_db(
                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                )

            return ret
''', '''            parts = [Isurf, Ivol]
            if self.int_Q is True:
                parts.append(Iint)

            return self._finalize(parts)
'''),
    (C, '''    def surface(self, **params):''', '''    def _finalize(self, parts):
        total = parts[0]
        for part in parts[1:]:
            total = total + part
        return self._convert_sig0_db(np.stack(np.broadcast_arrays(total, *parts)))

    def surface(self, **params):'''))
ref("convert-early-return",
    (C, '''        if sig0 is True:
            signorm = 4.0 * np.pi * self._mu_0 / self.I0
        else:
            signorm = 1.0

        ret = val * signorm

        if dB is True:
            ret = 10.0 * np.log10(ret)

        return ret
''', '''        scale = 4.0 * np.pi * self._mu_0 / self.I0 if sig0 is True else 1.0
        linear = scale * val

        if dB is not True:
            return linear

        return 10.0 * np.log10(linear)
'''))
ref("attenuation-helper",
    (C, '''    def _surface(self):
        # bare soil contribution (intensity)''', '''    @property
    def _two_way(self):
        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        return np.exp(-self.tau * path)

    def _surface(self):
        # bare soil contribution (intensity)'''),
    (C, '''        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)''',
     '''        transmission = self._two_way
        weight = self.bsf + (1.0 - self.bsf) * transmission

        return weight * I_bs * self.NormBRDF'''),
    (C, '''            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))
            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
            * self.V.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        return (1.0 - self.bsf) * vol''', '''            (1.0 - self._two_way)
            * self.V.calc(*self._angles(), param_dict=self.param_dict)
            * (self._mu_0 / (self._mu_0 + self._mu_ex))
            * self.omega
            * self.I0
        )

        return vol - self.bsf * vol'''),
    (C, '''    def _surface_volume(self):''', '''    def _angles(self):
        return self.t_0, self.t_ex, self.p_0, self.p_ex

    def _surface_volume(self):'''))
ref("interaction-loop",
    (C, '''        assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
        return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))''',
     '''        assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
        result = 0
        for n, coefficient in enumerate(fn):
            result = result + coefficient * (mu_x[n] * S2[n])
        return result'''),
    (C, '''        S2 = np.array(
            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]
        )

        # clear the cache since tau might have changed!
        innerfunc.cache_clear()

        return S2 + hlp1''', '''        terms = [innerfunc(k) for k in range(1, nmax + 1)]
        S2 = []
        acc = 0
        for term in terms:
            acc = acc + term
            S2.append(acc + hlp1)

        innerfunc.cache_clear()

        return np.array(S2)'''),
    (C, '''        @lru_cache()
        def innerfunc(k):
            return mu ** (-k) * (expn(k + 1.0, tau) - np.exp(-tau / mu) / k)
''', '''        attenuation = np.exp(-tau / mu)

        @lru_cache(maxsize=None)
        def innerfunc(k):
            return (expn(k + 1, tau) - attenuation / k) / mu**k
'''))
ref("fint-merged",
    (C, '''        args = np.broadcast_arrays(
            self.t_0,
            self.p_0,
            self.t_ex,
            self.p_ex,
            *self.param_dict.values(),
        )

        return self._sum_fn(
            self._fnevals(*args), self._mu_0_x, self._S2_mu(self._mu_0, self.tau)
        )''', '''        coefs = self._eval_fn(
            self._fnevals, (self.t_0, self.p_0, self.t_ex, self.p_ex)
        )

        return self._sum_fn(coefs, self._mu_0_x, self._S2_mu(self._mu_0, self.tau))

    def _eval_fn(self, func, angles):
        args = list(angles)
        args.extend(self.param_dict.values())
        return func(*np.broadcast_arrays(*args))'''),
    (C, '''        args = np.broadcast_arrays(*angs, *self.param_dict.values())

        return self._sum_fn(
            fnevals(*args), self._mu_ex_x, self._S2_mu(self._mu_ex, self.tau)
        )''', '''        coefs = self._eval_fn(fnevals, angs)
        s2 = self._S2_mu(tau=self.tau, mu=self._mu_ex)

        return self._sum_fn(coefs, S2=s2, mu_x=self._mu_ex_x)'''))
ref("geometry-reset-helper",
    (C, '''        self._monostatic = True

        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
        self._fnevals_ = None
        self._fn_ex_ = None
        self._fnevals_ex_ = None
''', '''        self._reset_geometry(True)
'''),
    (C, '''        self._monostatic = False

        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
        self._fnevals_ = None
        self._fn_ex_ = None
        self._fnevals_ex_ = None

        attrnames = ["t_0", "t_ex", "p_0", "p_ex"]

        symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]

        geom_ang_symbs = []
        geom = ""
        for i, (ang, symb, attr) in enumerate(zip(angs, symbs, attrnames)):
            if ang is None:
                geom += "v"
                geom_ang_symbs.append(symb)
            else:
                geom += "f"
                geom_ang_symbs.append(ang)
                setattr(self, f"_{attr}", np.atleast_1d(ang))
                self._fixed_angles.add(attr)

        self._geom_ang_symbs = geom_ang_symbs
''', '''        self._reset_geometry(False)

        names = dict(t_0="theta_0", t_ex="theta_ex", p_0="phi_0", p_ex="phi_ex")
        self._geom_ang_symbs = [
            self._fix_angle(attr, ang) if ang is not None else sp.Symbol(names[attr])
            for attr, ang in zip(names, angs)
        ]

    def _fix_angle(self, name, value):
        self.__dict__["_" + name] = np.atleast_1d(value)
        self._fixed_angles |= {name}
        return value

    def _reset_geometry(self, monostatic):
        self._monostatic = monostatic
        self._clear_geom_cache()
        self._fixed_angles = set()
        for name in ("_fn_", "_fnevals_", "_fn_ex_", "_fnevals_ex_"):
            setattr(self, name, None)
'''))
ref("set-geometry-comprehension",
    (C, '''        if not angles.issuperset(kwargs):
            x = set(kwargs) - angles
            raise TypeError(f"{x} is not a valid geometry angle, use one of {angles}")

        if "t_ex" in kwargs or "p_ex" in kwargs:
            assert not self._monostatic, (
                "Exit-angles cannot be set for monostatic geometry! They are defined "
                "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
            )
''', '''        unknown = {name for name in kwargs if name not in angles}
        if unknown:
            raise TypeError(
                f"{unknown} is not a valid geometry angle, use one of {angles}"
            )

        if self._monostatic and not {"t_ex", "p_ex"}.isdisjoint(kwargs):
            raise AssertionError(
                "Exit-angles cannot be set for monostatic geometry! They are defined "
                "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
            )
'''))
ref("angle-properties",
    (C, '''        """Exit zenith angle."""
        if self._monostatic:
            return self.t_0
        else:
            try:
                return self._t_ex
            except AttributeError:
                raise AttributeError(
                    "Please set the evaluation angle `t_ex` with R.set_geometry() first!"
                )
''', '''        """Exit zenith angle."""
        return self.t_0 if self._monostatic else self._require_angle("t_ex")

    def _require_angle(self, name):
        value = getattr(self, "_" + name, None)
        if value is None:
            raise AttributeError(
                f"Please set the evaluation angle `{name}` with R.set_geometry() first!"
            )
        return value
'''),
    (C, '''        """Exit azimuth angle."""
        if self._monostatic:
            return self.p_0 + np.pi
        else:
            try:
                return self._p_ex
            except AttributeError:
                raise AttributeError(
                    "Please set the evaluation angle `p_ex` with R.set_geometry() first!"
                )
''', '''        """Exit azimuth angle."""
        if not self._monostatic:
            return self._require_angle("p_ex")
        return np.add(self.p_0, np.pi)
'''))
ref("params-loop",
    (C, '''        if (
            isinstance(self._bsf, str)
            and self._bsf == "bsf"
            and "bsf" not in self.param_dict
        ):
            kwargs.setdefault("bsf", 0)
''', '''        uses_default = isinstance(self._bsf, str) and self._bsf == "bsf"
        if uses_default and "bsf" not in self.param_dict and "bsf" not in kwargs:
            kwargs["bsf"] = 0
'''),
    (C, '''        self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
''', '''        for name in kwargs:
            self._param_dict[name] = np.atleast_1d(kwargs[name])
'''))
ref("eval-param",
    (C, '''        func = self._get_param_funcs(param)

        if func is not None:
            try:
                params = self._get_param_symbs(param)
                return func(**{key: self.param_dict[key] for key in params})
                # return func(*[self.param_dict[key] for key in params])

            except Exception as ex:
                # check for missing parameters in case evaluation fails
                func_def = getattr(self, f"_{param}")
                missing = set(params).difference(self.param_dict)

                if missing:
                    raise TypeError(
                        "Missing specification for the parameters "
                        f"{missing} to compute the value of '{param} = {func_def}'."
                    )
                else:
                    raise ex
        else:
            return getattr(self, f"_{param}")
''', '''        func = self._get_param_funcs(param)
        func_def = getattr(self, f"_{param}")

        if func is None:
            return func_def

        params = self._get_param_symbs(param)
        missing = {name for name in params if name not in self._param_dict}
        if missing:
            raise TypeError(
                "Missing specification for the parameters "
                f"{missing} to compute the value of '{param} = {func_def}'."
            )

        values = [self._param_dict[name] for name in params]
        return func(*values)
'''))
ref("param-symbs-comprehension",
    (C, '''        return list(
            chain(
                *(
                    self._get_param_symbs(key)
                    for key in ("tau", "omega", "NormBRDF", "bsf")
                )
            )
        )
''', '''        symbs = []
        for key in ("tau", "omega", "NormBRDF", "bsf"):
            symbs += self._get_param_symbs(key)
        return symbs
'''),
    (C, '''        p = getattr(self, f"_{param}")
        if isinstance(p, (str, sp.Basic)):
            expr = _parse_sympy_param(p)

            symbs = list(map(str, expr.free_symbols))
        else:
            symbs = []
        return symbs
''', '''        p = getattr(self, f"_{param}")
        if not isinstance(p, (str, sp.Basic)):
            return []
        return [str(s) for s in _parse_sympy_param(p).free_symbols]
'''))
ref("mu-powers",
    (C, '''        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])
        return mux
''', '''        return self._powers(self._mu_0)

    def _powers(self, mu):
        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        mux = [mu]
        while len(mux) < nmax:
            mux.append(mux[-1] * mu)
        return np.array(mux)
'''),
    (C, '''        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])
        return mux
''', '''        return self._powers(self._mu_ex)
'''))
ref("coefficients",
    (C, '''        N_fn = self.SRF.ncoefs + self.V.ncoefs - 1

        fn = []

        # find f_0 coefficient
        repl0 = dict([[sp.cos(theta_s), 0]])
        fn = fn + [expr.xreplace(repl0)]
''', '''        N_fn = self.SRF.ncoefs + self.V.ncoefs - 1

        # find f_0 coefficient
        repl0 = {sp.cos(theta_s): 0}
        fn = [expr.xreplace(repl0)]
'''),
    (C, '''        repl1 = dict(
            [[sp.cos(theta_s) ** i, 0] for i in list(range(N_fn, 0, -1)) if i != 1]
            + [[sp.cos(theta_s), 1]]
        )
        fn = fn + [expr.xreplace(repl1) - fn[0]]

        for n in np.arange(2, N_fn, dtype=int):
            repln = dict([[sp.cos(theta_s) ** int(n), 1]])
            fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]
''', '''        repl1 = {sp.cos(theta_s) ** i: 0 for i in range(2, N_fn + 1)}
        repl1[sp.cos(theta_s)] = 1
        fn.append(expr.xreplace(repl1) - fn[0])

        for n in range(2, N_fn):
            only_n = expr.xreplace({sp.cos(theta_s) ** n: 1})
            fn.append(only_n.xreplace(repl0) - fn[0])
'''),
    (C, '''        replacements1 = [
            (sp.sin(phi_s) ** i, 0.0)
            for i in range(1, self.SRF.ncoefs + self.V.ncoefs + 1)
            if i % 2 == 1
        ]

        # then substitute the sine**2 by 1-cos**2
        replacements1 = replacements1 + [
            (
                sp.sin(phi_s) ** i,
                self._expand((1.0 - sp.cos(phi_s) ** 2) ** sp.Rational(i, 2)),
            )
            for i in range(2, self.SRF.ncoefs + self.V.ncoefs + 1)
            if i % 2 == 0
        ]

        res = self._expand(expr.xreplace(dict(replacements1)))
''', '''        nmax = self.SRF.ncoefs + self.V.ncoefs

        sine_powers = {}
        for i in range(1, nmax + 1):
            if i % 2:
                sine_powers[sp.sin(phi_s) ** i] = 0.0
            else:
                sine_powers[sp.sin(phi_s) ** i] = self._expand(
                    (1.0 - sp.cos(phi_s) ** 2) ** (i // 2)
                )

        res = self._expand(expr.xreplace(sine_powers))
'''))
ref("expansion-locals",
    (C, '''        angs = self._geom_ang_symbs
        if exchange:
            angs = [angs[1], angs[0], angs[3], angs[2]]

        brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
        volexp = self.V.legendre_expansion(
            sp.pi - angs[0], theta_s, angs[2], phi_s
        ).doit()

        # preparation of the product of p*BRDF for coefficient retrieval
        # this is the eq.23. and would need to be integrated from 0 to 2pi
        fPoly = self._expand(2 * sp.pi * volexp * brdfexp)
''', '''        if exchange:
            t_ex, t_0, p_ex, p_0 = self._geom_ang_symbs
        else:
            t_0, t_ex, p_0, p_ex = self._geom_ang_symbs

        volexp = self.V.legendre_expansion(
            t_0=sp.pi - t_0, t_ex=theta_s, p_0=p_0, p_ex=phi_s
        )
        brdfexp = self.SRF.legendre_expansion(theta_s, t_ex, phi_s, p_ex)

        # preparation of the product of p*BRDF for coefficient retrieval
        # this is the eq.23. and would need to be integrated from 0 to 2pi
        product = brdfexp.doit() * volexp.doit()
        fPoly = self._expand(product * 2 * sp.pi)
'''),
    (C, '''        if i % 2 == 0:
            return (2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))
        else:
            # for odd exponents result is always zero
            return 0.0
''', '''        if i % 2:
            # for odd exponents result is always zero
            return 0.0
        half = i // 2
        return sp.binomial(i, half) / sp.Integer(4) ** half
'''))
ref("fn-cache",
    (C, '''        if getattr(self, "_fn_ex_", None) is None:
            self._fn_ex_ = self._extract_coefficients(
                self._calc_interaction_expansion(exchange=True)
            )
        if getattr(self, "_fnevals_ex_", None) is None:
            self._fnevals_ex_ = _lambdify(self._fn_variables, self._fn_ex_)
        return self._fnevals_ex_
''', '''        func = getattr(self, "_fnevals_ex_", None)
        if func is not None:
            return func
        if getattr(self, "_fn_ex_", None) is None:
            expr = self._calc_interaction_expansion(exchange=True)
            self._fn_ex_ = self._extract_coefficients(expr)
        self._fnevals_ex_ = func = _lambdify(self._fn_variables, self._fn_ex_)
        return func
'''),
    (C, '''        elif self.int_Q is True:
            _log.debug("Generation of fnevals functions...")

            tic = timeit.default_timer()

            # define new lambda-functions for each fn-coefficient
            self._fnevals_ = _lambdify(self._fn_variables, self._fn)
            return self._fnevals_

            toc = timeit.default_timer()
            _log.debug(
                "Lambdification finished, it took " + str(toc - tic) + " sec.",
            )

        else:
            return None
''', '''        if self.int_Q is not True:
            return None

        _log.debug("Generation of fnevals functions...")
        tic = timeit.default_timer()
        # define new lambda-functions for each fn-coefficient
        func = self._fnevals_ = _lambdify(self._fn_variables, self._fn)
        _log.debug("Lambdification finished, it took %s sec.", timeit.default_timer() - tic)
        return func
'''),
    (C, '''        return sp.symbols(
            ("theta_0", "phi_0", "theta_ex", "phi_ex")
            + tuple(map(str, self.param_dict.keys()))
        )
''', '''        names = ["theta_0", "phi_0", "theta_ex", "phi_ex", *self.param_dict]
        return tuple(sp.Symbol(name) for name in names)
'''))
ref("derivative-helper",
    (C, '''        dvdt = (
            self.I0
            * self.omega
            * (self._mu_0 / (self._mu_0 + self._mu_ex))
            * (
                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
            )
            * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        )

        return (1.0 - self.bsf) * dvdt
''', '''        # mu_0 / (mu_0 + mu_ex) * (1 / mu_0 + 1 / mu_ex) = 1 / mu_ex
        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        p = self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        dvdt = self.I0 * self.omega * p * np.exp(-self.tau * path) / self._mu_ex

        return dvdt * (1.0 - self.bsf)
'''),
    (C, '''        dsdt = (
            self.I0
            * (-1.0 / self._mu_0 - 1.0 / self._mu_ex)
            * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
            * self._mu_0
            * self.SRF.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        )

        # Incorporate BRDF-normalization factor
        dsdt = self.NormBRDF * (1.0 - self.bsf) * dsdt

        return dsdt
''', '''        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        brdf = self.SRF.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        canopy_part = self.NormBRDF * (1.0 - self.bsf)

        return -self.I0 * self._mu_0 * path * brdf * np.exp(-self.tau * path) * canopy_part
'''),
    (C, '''        return self.NormBRDF * (I_bs - Isurf)
''', '''        ret = I_bs - Isurf
        ret = ret * self.NormBRDF
        return ret
'''))
ref("jacobian-dispatch",
    (C, '''        jac = []
        for key in param_list:
            if key == "omega":
                jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
            elif key == "tau":
                jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
            elif key == "NormBRDF":
                jac += [(self._dsurface_dNormBRDF() + self._dvolume_dNormBRDF()) * norm]
            elif key == "bsf":
                jac += [(self._dsurface_dbsf() + self._dvolume_dbsf()) * norm]
            elif key in self.param_dict:
                jac += [
                    (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
                ]
            else:
                assert False, (
                    "error in jacobian calculation... "
                    + str(key)
                    + " is not in param_dict"
                )
''', '''        direct = {
            "omega": (self._dsurface_domega, self._dvolume_domega),
            "tau": (self._dsurface_dtau, self._dvolume_dtau),
            "NormBRDF": (self._dsurface_dNormBRDF, self._dvolume_dNormBRDF),
            "bsf": (self._dsurface_dbsf, self._dvolume_dbsf),
        }

        jac = []
        for key in param_list:
            if key in direct:
                dsurface, dvolume = direct[key]
                derivative = dsurface() + dvolume()
            else:
                if key not in self.param_dict:
                    raise AssertionError(
                        f"error in jacobian calculation... {key} is not in param_dict"
                    )
                derivative = self._d_surface_ddummy(key) + self._d_volume_ddummy(key)
            jac.append(norm * derivative)
'''))
ref("jacobian-format",
    (C, '''            jac_columns = []

            for key, j in zip(param_list, jac):
                if np.size(self.param_dict[key]) == 1:
''', '''            jac_columns = []

            for i, key in enumerate(param_list):
                j = jac[i]
                static = np.size(self.param_dict[key]) == 1
                if static:
'''),
    (C, '''                    jac_columns += csr_matrix(j.ravel())
''', '''                    jac_columns.append(csr_matrix(np.ravel(j)))
'''),
    (C, '''                    jac_columns += block_diag(j.tolist(), "csr")
''', '''                    blocks = [row for row in j.tolist()]
                    jac_columns.append(block_diag(blocks, format="csr"))
'''),
    (C, '''        if self.sig0 is True and self.dB is False:
            norm = 4.0 * np.pi * self._mu_0 / self.I0
        elif self.dB is True:
            norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
        else:
            norm = 1.0
''', '''        norm = 1.0
        if self.dB is True:
            norm = 10.0 / np.log(10.0) / (self._surface() + self._volume())
        elif self.sig0 is True:
            norm = 4.0 * np.pi * self._mu_0 / self.I0
'''))
ref("getstate",
    (C, '''        state = self.__dict__.copy()

        _log.warning("Dropping fn-coefficients to allow pickling...")
        for Nonekey in ["_fn_", "_fnevals_", "_fn_ex_", "_fnevals_ex_"]:
            state[Nonekey] = None
''', '''        _log.warning("Dropping fn-coefficients to allow pickling...")
        dropped = ("_fn_", "_fnevals_", "_fn_ex_", "_fnevals_ex_")
        state = {
            key: (None if key in dropped else val) for key, val in vars(self).items()
        }
'''))
ref("clear-cache",
    (C, '''        if keys:
            props = (i for i in keys if i in self._cached_properties)
            funcs = (i for i in keys if i in self._cached_functions)
        else:
            props = self._cached_properties
            funcs = self._cached_functions

        for key in props:
            getattr(type(self), key).fget.cache_clear()

        for key in funcs:
            getattr(self, key).cache_clear()
''', '''        for key in keys or (self._cached_properties + self._cached_functions):
            if key in self._cached_properties:
                getattr(type(self), key).fget.cache_clear()
            elif key in self._cached_functions:
                getattr(self, key).cache_clear()
'''))
ref("chain-rule",
    (C, '''        ret = 0.0
        for param, derivative in derivatives.items():
            if str(key) in self._get_param_symbs(param):
                inner = self._dparam_ddummy_lambda(param, key)(
                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                )
                ret = ret + derivative() * inner
        return ret
''', '''        angles = (self.t_0, self.t_ex, self.p_0, self.p_ex)
        return sum(
            outer() * self._dparam_ddummy_lambda(param, key)(*angles, **self.param_dict)
            for param, outer in derivatives.items()
            if str(key) in self._get_param_symbs(param)
        )
'''),
    (C, '''        theta_0 = sp.Symbol("theta_0")
        theta_ex = sp.Symbol("theta_ex")
        phi_0 = sp.Symbol("phi_0")
        phi_ex = sp.Symbol("phi_ex")

        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())

        return _lambdify(
            args,
            sp.diff(self.V.phase_function, sp.Symbol(key)),
        )
''', '''        args = ["theta_0", "theta_ex", "phi_0", "phi_ex", *self.param_dict]
        derivative = self.V.phase_function.diff(sp.Symbol(key))
        return _lambdify(tuple(args), derivative)
'''))
S = "_scatter.py"

ref("scatter-angle-symbols",
    (S, '''        theta_0 = sp.Symbol("theta_0")
        theta_ex = sp.Symbol("theta_ex")
        phi_0 = sp.Symbol("phi_0")
        phi_ex = sp.Symbol("phi_ex")
        return self.calc_scattering_angle(theta_0, theta_ex, phi_0, phi_ex, self.a)
''', '''        return self.calc_scattering_angle(*self._angle_symbols(), a=self.a)
'''),
    (S, '''        # define sympy objects
        theta_0 = sp.Symbol("theta_0")
        theta_ex = sp.Symbol("theta_ex")
        phi_0 = sp.Symbol("phi_0")
        phi_ex = sp.Symbol("phi_ex")

        # replace arguments and evaluate expression
        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(args)
        pfunc = _lambdify(args, self.phase_function)
''', '''        # replace arguments and evaluate expression
        pfunc = _lambdify((*self._angle_symbols(), *args), self.phase_function)
'''),
    (S, '''    @property
    def ncoefs(self):
        """The number of coefficients used in the legendre expansion."""
''', '''    @staticmethod
    def _angle_symbols():
        return sp.symbols("theta_0 theta_ex phi_0 phi_ex")

    @property
    def ncoefs(self):
        """The number of coefficients used in the legendre expansion."""
'''))
ref("scatter-angle-locals",
    (S, '''        return (
            a[0] * sp.cos(t_0) * sp.cos(t_ex)
            + a[1] * sp.sin(t_0) * sp.sin(t_ex) * sp.cos(p_0) * sp.cos(p_ex)
            + a[2] * sp.sin(t_0) * sp.sin(t_ex) * sp.sin(p_0) * sp.sin(p_ex)
        )
''', '''        a_0, a_1, a_2 = a
        sines = sp.sin(t_0) * sp.sin(t_ex)
        azimuth = a_1 * sp.cos(p_0) * sp.cos(p_ex) + a_2 * sp.sin(p_0) * sp.sin(p_ex)
        return a_0 * sp.cos(t_0) * sp.cos(t_ex) + sines * azimuth
'''))
ref("scatter-angle-zip",
    (S, '''        return (
            a[0] * sp.cos(t_0) * sp.cos(t_ex)
            + a[1] * sp.sin(t_0) * sp.sin(t_ex) * sp.cos(p_0) * sp.cos(p_ex)
            + a[2] * sp.sin(t_0) * sp.sin(t_ex) * sp.sin(p_0) * sp.sin(p_ex)
        )
''', '''        directions = (
            (sp.cos(t_0), sp.cos(t_ex)),
            (sp.sin(t_0) * sp.cos(p_0), sp.sin(t_ex) * sp.cos(p_ex)),
            (sp.sin(t_0) * sp.sin(p_0), sp.sin(t_ex) * sp.sin(p_ex)),
        )
        return sum(ai * d0 * dex for ai, (d0, dex) in zip(a, directions))
'''))
ref("scatter-calc-helper",
    (S, '''        func = self._lambda_func(*param_dict.keys())

        res = func(t_0, t_ex, p_0, p_ex, **param_dict)

        # functions compiled with sympy only broadcast the variables that are part of the
        # expression (e.g. they return a scalar if the function is a constant)
        shape = np.broadcast_shapes(
            *map(np.shape, (res, t_0, t_ex, p_0, p_ex, *param_dict.values()))
        )
        return res if np.shape(res) == shape else np.full(shape, res)
''', '''        angles = (t_0, t_ex, p_0, p_ex)
        res = self._lambda_func(*param_dict)(*angles, **param_dict)

        shape = np.broadcast(
            res, *angles, *(param_dict[key] for key in param_dict)
        ).shape
        if np.shape(res) != shape:
            res = np.full(shape, res)
        return res
'''))
ref("scatter-calc-broadcast-to",
    (S, '''        return res if np.shape(res) == shape else np.full(shape, res)
''', '''        if np.shape(res) == shape:
            return res
        return np.array(np.broadcast_to(res, shape))
'''))
ref("lincomb-init",
    (S, '''        self._weights, self._objs = [], []
        for w, o in choices:
            # cast weights passed as strings to sympy symbols
            self._weights.append(_parse_sympy_param(w))
            self._objs.append(o)
''', '''        self._weights = [_parse_sympy_param(w) for w, _ in choices]
        self._objs = [o for _, o in choices]
'''),
    (S, '''        self._a_groups = dict()
        for frac, func in zip(self._weights, self._objs):
            self._a_groups.setdefault(tuple(func.a), []).append((frac, func))
''', '''        groups = {}
        for frac, func in zip(self._weights, self._objs):
            key = tuple(func.a)
            if key not in groups:
                groups[key] = []
            groups[key].append((frac, func))
        self._a_groups = groups
'''))
ref("lincomb-defaultdict",
    (S, '''        self._a_groups = dict()
        for frac, func in zip(self._weights, self._objs):
            self._a_groups.setdefault(tuple(func.a), []).append((frac, func))
''', '''        self._a_groups = defaultdict(list)
        for frac, func in zip(self._weights, self._objs):
            self._a_groups[tuple(func.a)].append((frac, func))
'''),
    (S, '''from functools import lru_cache, wraps, partial, update_wrapper
''', '''from collections import defaultdict
from functools import lru_cache, wraps, partial, update_wrapper
'''))
ref("lincomb-phase-sum",
    (S, '''        func = 0
        for c, o in zip(self._weights, self._objs):
            func += c * o.phase_function

        return func
''', '''        return sum(c * o.phase_function for c, o in zip(self._weights, self._objs))
'''),
    (S, '''        return max([o.ncoefs for o in self._objs])
''', '''        ncoefs = 0
        for o in self._objs:
            if o.ncoefs > ncoefs:
                ncoefs = o.ncoefs
        return ncoefs
'''))
ref("lincomb-expansion-no-groups",
    (S, '''        exp = 0
        for a, choices in self._a_groups.items():
            # get max. ncoefs for each a-parameter group
            ncoefs = max(i[1].ncoefs for i in choices)
            # sum up legendre coefficients
            legendre_coefficients = sum(
                frac * func.legendre_coefficients for frac, func in choices
            )

            exp += sp.Sum(
                legendre_coefficients
                * sp.legendre(n, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, a)),
                (n, 0, ncoefs - 1),
            )

        return exp
''', '''        def expand(a, choices):
            ncoefs = max(func.ncoefs for _, func in choices)
            coefs = sum(frac * func.legendre_coefficients for frac, func in choices)
            angle = self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, a)
            return sp.Sum(sp.legendre(n, angle) * coefs, (n, 0, ncoefs - 1))

        return sum(expand(a, group) for a, group in self._a_groups.items())
'''))
ref("expansion-locals-scatter",
    (S, '''        assert self.ncoefs > 0

        n = sp.Symbol("n")

        return sp.Sum(
            self.legendre_coefficients
            * sp.legendre(n, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)),
            (n, 0, self.ncoefs - 1),
        )
''', '''        ncoefs = self.ncoefs
        assert ncoefs >= 1

        n = sp.Symbol("n")
        cos_scat = self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)
        summand = self.legendre_coefficients * sp.legendre(n, cos_scat)
        return sp.Sum(summand, (n, 0, ncoefs - 1))
'''))
ref("register-plotfuncs-loop",
    (S, '''            # quick way for visualizing the functions as polarplot
            self.polarplot = partial(polarplot, V_SRF=self)
            update_wrapper(self.polarplot, polarplot)

            if isinstance(self, SurfaceScatter):
                # quick way for visualizing the associated hemispherical reflectance
                self.hemreflect = partial(hemreflect, SRF=self)
                update_wrapper(self.hemreflect, hemreflect)
''', '''            # quick way for visualizing the functions
            self.polarplot = update_wrapper(partial(polarplot, V_SRF=self), polarplot)

            if not isinstance(self, SurfaceScatter):
                return

            self.hemreflect = update_wrapper(partial(hemreflect, SRF=self), hemreflect)
'''))
ref("ncoefs-getter",
    (S, '''        if self._ncoefs is None:
            raise AttributeError(
                "You must specify the number of approximation coefficients for "
                f"a {self.__class__.__name__} scattering function to calculate "
                "first-order corrections! (or use `RT1(..., int_Q=False)` "
                "to omit calculating the interaction-term."
            )
        return self._ncoefs
''', '''        if self._ncoefs is not None:
            return self._ncoefs

        name = type(self).__name__
        raise AttributeError(
            "You must specify the number of approximation coefficients for "
            f"a {name} scattering function to calculate "
            "first-order corrections! (or use `RT1(..., int_Q=False)` "
            "to omit calculating the interaction-term."
        )
'''))

V = "volume.py"
ref("volume-init-helper",
    (V, '''        # register plot-functions
        self._register_plotfuncs()

        # set scattering angle generalization-matrix to [-1,1,1] if it is not
        # explicitly provided by the chosen class this results in a peak in
        # forward-direction which is suitable for describing volume-scattering
        # phase-functions
        if a is None:
            a = getattr(self, "a", [-1.0, 1.0, 1.0])

        self.a = [_parse_sympy_param(i) for i in a]
        self._ncoefs = ncoefs

        assert len(self.a) == 3, "Generalization-parameter 'a' must contain 3 values"
''', '''        self._ncoefs = ncoefs
        self._set_a(a)

        # register plot-functions
        self._register_plotfuncs()

    def _set_a(self, a):
        if a is None:
            a = self.a if hasattr(self, "a") else [-1.0, 1.0, 1.0]

        self.a = list(map(_parse_sympy_param, a))
        assert len(self.a) == 3, "Generalization-parameter 'a' must contain 3 values"
'''))
ref("volume-constants",
    (V, '''        return (1.0 / (4.0 * sp.pi)) * sp.KroneckerDelta(0, n)
''', '''        return self.phase_function * sp.KroneckerDelta(n, 0)
'''),
    (V, '''        return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)
''', '''        cos_scat = self.scattering_angle_symbolic
        return 3.0 * (1.0 + cos_scat**2) / (16.0 * sp.pi)
'''),
    (V, '''        return (
            (3.0 / (16.0 * sp.pi))
            * (
                (4.0 / 3.0) * sp.KroneckerDelta(0, n)
                + (2.0 / 3.0) * sp.KroneckerDelta(2, n)
            )
        ).expand()
''', '''        weights = {0: 4.0 / 3.0, 2: 2.0 / 3.0}
        norm = 3.0 / (16.0 * sp.pi)
        return sum(norm * w * sp.KroneckerDelta(k, n) for k, w in weights.items())
'''),
    (V, '''        func = (1.0 - self.t**2.0) / (
            (4.0 * sp.pi)
            * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
            ** 1.5
        )

        return func
''', '''        t, cos_scat = self.t, self.scattering_angle_symbolic
        denom = (1.0 + t**2 - 2.0 * t * cos_scat) ** 1.5
        return (1.0 - t**2) / (4.0 * sp.pi * denom)
'''))
ref("hgrayleigh-shared-terms",
    (V, '''        n = sp.Symbol("n")
        return sp.Piecewise(
            (
                3.0
                / (8.0 * sp.pi)
                * 1.0
                / (2.0 + self.t**2)
                * (
                    (n + 2.0) * (n + 1.0) / (2.0 * n + 3) * self.t ** (n + 2.0)
                    + (n + 1.0) ** 2.0 / (2.0 * n + 3.0) * self.t**n
                    + (5.0 * n**2.0 - 1.0) / (2.0 * n - 1.0) * self.t**n
                ),
                n < 2,
            ),
            (
                3.0
                / (8.0 * sp.pi)
                * 1.0
                / (2.0 + self.t**2)
                * (
                    n * (n - 1.0) / (2.0 * n - 1.0) * self.t ** (n - 2.0)
                    + (n + 2.0) * (n + 1.0) / (2.0 * n + 3) * self.t ** (n + 2.0)
                    + (n + 1.0) ** 2.0 / (2.0 * n + 3.0) * self.t**n
                    + (5.0 * n**2.0 - 1.0) / (2.0 * n - 1.0) * self.t**n
                ),
                True,
            ),
        )
''', '''        n = sp.Symbol("n")
        t = self.t
        norm = 3.0 / (8.0 * sp.pi) / (2.0 + t**2)
        common = (
            (n + 2.0) * (n + 1.0) / (2.0 * n + 3) * t ** (n + 2.0)
            + (n + 1.0) ** 2.0 / (2.0 * n + 3.0) * t**n
            + (5.0 * n**2.0 - 1.0) / (2.0 * n - 1.0) * t**n
        )
        extra = n * (n - 1.0) / (2.0 * n - 1.0) * t ** (n - 2.0)
        return sp.Piecewise(
            (norm * (common + extra), n >= 2),
            (norm * common, True),
        )
'''),
    (V, '''        return (
            3.0
            / (8.0 * sp.pi)
            * (
                1.0
                / (2.0 + self.t**2)
                * (1 + self.scattering_angle_symbolic**2)
                * (1.0 - self.t**2.0)
                / (
                    (
                        1.0
                        + self.t**2.0
                        - 2.0 * self.t * self.scattering_angle_symbolic
                    )
                    ** 1.5
                )
            )
        )
''', '''        t = self.t
        cos_scat = self.scattering_angle_symbolic
        rayleigh = 3.0 / (8.0 * sp.pi) * (1 + cos_scat**2) / (2.0 + t**2)
        hg = (1.0 - t**2.0) / (1.0 + t**2.0 - 2.0 * t * cos_scat) ** 1.5
        return rayleigh * hg
'''))
U = "surface.py"
ref("cosinelobe-locals",
    (U, '''        return (
            1.0
            / sp.pi
            * (
                (
                    2 ** (-2 - self.i)
                    * (1 + 2 * n)
                    * sp.sqrt(sp.pi)
                    * sp.gamma(1 + self.i)
                )
                / (
                    sp.gamma((2 - n + self.i) * sp.Rational(1, 2))
                    * sp.gamma((3 + n + self.i) * sp.Rational(1, 2))
                )
            )
        )
''', '''        half = sp.Rational(1, 2)
        i = self.i
        numer = 2 ** (-2 - i) * (2 * n + 1) * sp.sqrt(sp.pi) * sp.factorial(i)
        denom = sp.gamma(half * (2 - n + i)) * sp.gamma(half * (3 + n + i))
        return numer / denom / sp.pi
'''),
    (U, '''        return (
            1.0
            / sp.pi
            * self.scattering_angle_symbolic**self.i
            * (1.0 + sp.sign(self.scattering_angle_symbolic))
            / 2.0
        )
''', '''        cos_scat = self.scattering_angle_symbolic
        positive = (1.0 + sp.sign(cos_scat)) / 2.0
        return cos_scat**self.i * positive / sp.pi
'''))
ref("nadirnorm-helper",
    (U, '''        # (using a form that is also defined for t=0)
        nadir_hemreflect = 4 * (
            (1.0 - self.t**2.0)
            / (
                2.0
                * (
                    1.0
                    - self.t * (-self.t + self.a[0])
                    + sp.sqrt(
                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                    )
                )
                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
            )
        )

        func = (1.0 / nadir_hemreflect) * (
            (1.0 - self.t**2.0)
            / (
                (sp.pi)
                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
                ** 1.5
            )
        )

        return func
''', '''        hg = (1.0 - self.t**2.0) / (
            sp.pi
            * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic) ** 1.5
        )
        return hg / self._nadir_hemreflect

    @property
    def _nadir_hemreflect(self):
        # (using a form that is also defined for t=0)
        t, a_0 = self.t, self.a[0]
        root = sp.sqrt((1 + t**2 - 2 * a_0 * t) * (1 + t**2))
        denom = (1.0 - t * (a_0 - t) + root) * sp.sqrt(1.0 + t**2.0 - 2.0 * a_0 * t)
        return 2.0 * (1.0 - t**2.0) / denom
'''),
    (U, '''        # (using a form that is also defined for t=0)
        nadir_hemreflect = 4 * (
            (1.0 - self.t**2.0)
            / (
                2.0
                * (
                    1.0
                    - self.t * (-self.t + self.a[0])
                    + sp.sqrt(
                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                    )
                )
                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
            )
        )

        n = sp.Symbol("n")
        legendre_coefficients = (1.0 / nadir_hemreflect) * (
            (1.0 / (sp.pi)) * (2.0 * n + 1) * self.t**n
        )

        return legendre_coefficients
''', '''        n = sp.Symbol("n")
        return (2.0 * n + 1) * self.t**n / (sp.pi * self._nadir_hemreflect)
'''))
ref("surface-hg",
    (U, '''        return (
            1.0
            * (1.0 - self.t**2.0)
            / (
                (sp.pi)
                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
                ** 1.5
            )
        )
''', '''        asym = self.t
        base = 1.0 + asym**2.0 - 2.0 * asym * self.scattering_angle_symbolic
        return (1.0 - asym**2.0) * base ** (-1.5) / sp.pi
'''),
    (U, '''        return 1.0 * (1.0 / (sp.pi)) * (2.0 * n + 1) * self.t**n
''', '''        return (2.0 * n + 1) / sp.pi * self.t**n
'''))
ref("surface-init",
    (U, '''        if a is None:
            a = getattr(self, "a", [1.0, 1.0, 1.0])

        self.a = [_parse_sympy_param(i) for i in a]
        self._ncoefs = ncoefs

        assert len(self.a) == 3, "Generalization-parameter 'a' must contain 3 values"
''', '''        defaults = getattr(self, "a", [1.0, 1.0, 1.0])
        params = []
        for val in defaults if a is None else a:
            params.append(_parse_sympy_param(val))

        if len(params) != 3:
            raise AssertionError("Generalization-parameter 'a' must contain 3 values")

        self.a = params
        self._ncoefs = ncoefs
'''))

H = "helpers.py"
ref("parse-param-early-return",
    (H, '''    if isinstance(val, str):
        return sp.parse_expr(val, local_dict=_local_variable_symbols)
    else:
        return val
''', '''    if not isinstance(val, str):
        return val
    return sp.parse_expr(val, local_dict=_local_variable_symbols)
'''))
ref("parse-param-local-dict",
    (H, '''        return sp.parse_expr(val, local_dict=_local_variable_symbols)
''', '''        names = dict(_local_variable_symbols)
        return sp.parse_expr(val, local_dict=names)
'''))
ref("lambdify-comprehensions",
    (H, '''    var = []
    for v in np.atleast_1d(variables):
        if isinstance(v, str):
            var.append(sp.Symbol(v))
        else:
            var.append(v)

    funcs = []
    for f in np.atleast_1d(functions):
        funcs.append(_parse_sympy_param(f))
''', '''    var = [
        sp.Symbol(v) if isinstance(v, str) else v for v in np.atleast_1d(variables)
    ]
    funcs = [_parse_sympy_param(f) for f in np.atleast_1d(functions)]
'''),
    (H, '''    backend = get_lambda_backend() if len(var) > 0 else "sympy"
''', '''    backend = get_lambda_backend()
    if not var:
        backend = "sympy"
'''))
ref("lambdify-split-backends",
    (H, '''    if backend == "symengine":
        from symengine import Lambdify

        # using symengines own "common subexpression elimination"
        # routine to perform lambdification

        # llvm backend is used to allow pickling of the functions
        # see https://github.com/symengine/symengine.py/issues/294
        seng_lambda_func = Lambdify(
            var,
            funcs,
            order="F",
            cse=True,
            backend="llvm",
        )

        var_names = list(map(str, variables))

        def lambda_func(*args, **kwargs):
            # allow similar call signature as sympy functions
            # (e.g. both args and kwargs)
            return seng_lambda_func(
                *np.broadcast_arrays(
                    *args, *(kwargs[key] for key in var_names[len(args) :])
                )
            )

    elif backend == "sympy":
        # using sympy's lambdify without "common subexpression
        # elimination" to perform lambdification

        lambda_func = sp.lambdify(
            var,
            funcs,
            modules=["numpy", "sympy"],
            dummify=False,
            cse=True,
        )
    else:
        raise TypeError(f"lambda_backend {backend} is not available")

    return lambda_func
''', '''    if backend == "sympy":
        return _lambdify_sympy(var, funcs)
    if backend == "symengine":
        return _lambdify_symengine(var, funcs, [str(i) for i in variables])
    raise TypeError(f"lambda_backend {backend} is not available")


def _lambdify_sympy(var, funcs):
    return sp.lambdify(
        var,
        funcs,
        modules=["numpy", "sympy"],
        dummify=False,
        cse=True,
    )


def _lambdify_symengine(var, funcs, var_names):
    from symengine import Lambdify

    seng_lambda_func = Lambdify(var, funcs, order="F", cse=True, backend="llvm")

    def lambda_func(*args, **kwargs):
        # allow similar call signature as sympy functions
        # (e.g. both args and kwargs)
        values = list(args)
        for key in var_names[len(args) :]:
            values.append(kwargs[key])
        return seng_lambda_func(*np.broadcast_arrays(*values))

    return lambda_func
'''))
ref("docstring-merge",
    (H, '''                    # check if parameter is already defined
                    old_p = any(i for i in comb["Parameters"] if i.name == p.name)
                    # if no description exists, append the parameter
                    if not old_p:
                        comb["Parameters"] += [p]
''', '''                    # if no description exists, append the parameter
                    known = {i.name for i in comb["Parameters"]}
                    if p.name not in known:
                        comb["Parameters"] = comb["Parameters"] + [p]
'''),
    (H, '''            parent_docstring = decorated_f.__doc__
            if parent_docstring is None:
                parent_docstring = ""

            comb = NumpyDocString(parent_docstring)
''', '''            comb = NumpyDocString(decorated_f.__doc__ or "")
'''))

I = "__init__.py"
ref("backend-check",
    (I, '''    assert lambda_backend in [
        "sympy",
        "symengine",
    ], f"Lambda backend {lambda_backend} is not defined!"
    _init_lambda_backend = lambda_backend
''', '''    if lambda_backend not in ("sympy", "symengine"):
        raise AssertionError(f"Lambda backend {lambda_backend} is not defined!")

    _init_lambda_backend = lambda_backend
'''))
ref("loglevel-locals",
    (I, '''    if isinstance(level, str):
        level = level.upper()

    _log.setLevel(level)
    _ensure_handler().setLevel(level)

    if fmt is not None:
        _set_logfmt(*_log_format_presets.get(fmt, (fmt,)))
''', '''    level = level.upper() if isinstance(level, str) else level

    for target in (_log, _ensure_handler()):
        target.setLevel(level)

    if fmt is None:
        return

    if fmt in _log_format_presets:
        _set_logfmt(*_log_format_presets[fmt])
    else:
        _set_logfmt(fmt)
'''),
    (I, '''    handler = _ensure_handler()
    if datefmt is None:
        handler.setFormatter(_logging.Formatter(fmt))
    else:
        handler.setFormatter(_logging.Formatter(fmt, datefmt=datefmt))
''', '''    kwargs = {} if datefmt is None else {"datefmt": datefmt}
    _ensure_handler().setFormatter(_logging.Formatter(fmt, **kwargs))
'''))

P = "plot.py"
ref("polarplot-helpers",
    (P, '''    # Check if all required parameters have been provided in the param_dict
    required_symbs = set(map(str, V_SRF.phase_function.free_symbols)) - {
        "phi_0",
        "phi_ex",
        "theta_0",
        "theta_ex",
    }
    for params in param_dict:
        missing = required_symbs - set(params)
        assert len(missing) == 0, (
            "Missing parameter definition! Please provide numerical values for the "
            f"variables {missing} in the `param_dict`!"
        )
''', '''    # Check if all required parameters have been provided in the param_dict
    _check_required(V_SRF, param_dict)
'''),
    (P, '''def polarplot(
''', '''def _check_required(scatter, param_dicts):
    angles = ("phi_0", "phi_ex", "theta_0", "theta_ex")
    required = {str(i) for i in scatter.phase_function.free_symbols}
    required = required.difference(angles)
    for params in param_dicts:
        missing = [i for i in required if i not in params]
        if missing:
            raise AssertionError(
                "Missing parameter definition! Please provide numerical values for the "
                f"variables {missing} in the `param_dict`!"
            )


def polarplot(
'''))
ref("hemreflect-weights",
    (P, '''    for theta_0 in np.deg2rad(incnum):
        # define the function that has to be integrated
        # (i.e. Eq.20 in the paper)
        # notice the additional  np.sin(thetas)  which oritinates from
        # integrating over theta_s instead of mu_s
        def integfunkt(theta_s, phi_s):
            return (
                np.sin(theta_s)
                * np.cos(theta_s)
                * BRDF(theta_0, theta_s, phi_0, phi_s, param_dict=param_dict)
            )

        # evaluate the integral using Simpson's Rule twice
        z = integfunkt(x[:, None], y)
        sol = sol + [simps(simps(z, y), x)]
''', '''    theta_s = x[:, np.newaxis]
    weight = np.cos(theta_s) * np.sin(theta_s)

    for theta_0 in np.deg2rad(incnum):
        z = weight * BRDF(theta_0, theta_s, phi_0, y, param_dict=param_dict)
        inner = simps(z, y)
        sol.append(simps(inner, x))
'''))
ref("hemreflect-branches",
    (P, '''    # choose BRDF function to be evaluated
    if R is not None:
        BRDF = R.SRF.calc
''', '''    assert not (R is None and SRF is None), (
        "Error: You must provide either R or SRF"
    )

    # choose BRDF function to be evaluated
    if R is not None:
        BRDF = R.SRF.calc
'''),
    (P, '''    elif SRF is not None:
        BRDF = SRF.calc
        NormBRDF = param_dict.get("NormBRDF", 1)
    else:
        assert False, "Error: You must provide either R or SRF"
''', '''    else:
        BRDF = SRF.calc
        NormBRDF = param_dict["NormBRDF"] if "NormBRDF" in param_dict else 1
'''))
ref("check-params",
    (P, '''    symbs = {
        *R._all_param_symbs,
        *map(
            str, [*R.V.phase_function.free_symbols, *R.SRF.phase_function.free_symbols]
        ),
    } - {"phi_0", "phi_ex", "theta_0", "theta_ex"}
    for p in additional_params:
        symbs.add(p)
''', '''    symbs = set(R._all_param_symbs)
    for scatter in (R.V, R.SRF):
        symbs.update(str(i) for i in scatter.phase_function.free_symbols)
    symbs -= {"phi_0", "phi_ex", "theta_0", "theta_ex"}
    symbs.update(additional_params)
'''),
    (P, '''    if len(ignored_params) > 0:
        really_missing = ignored_params - set(R.param_dict)

        if len(really_missing) == 0:
            _log.debug(
                f"The parameters {ignored_params} are missing in `param_dict` "
                f"(static values found in `R.param_dict` are used)!"
            )
        else:
            raise AssertionError(
                "The analyzer is missing parameter specifications for the "
                f"following variables: {really_missing}"
            )
    return symbs
''', '''    if not ignored_params:
        return symbs

    really_missing = ignored_params - set(R.param_dict)
    if really_missing:
        raise AssertionError(
            "The analyzer is missing parameter specifications for the "
            f"following variables: {really_missing}"
        )

    _log.debug(
        f"The parameters {ignored_params} are missing in `param_dict` "
        f"(static values found in `R.param_dict` are used)!"
    )
    return symbs
'''))
ref("analyze-update-split",
    (P, '''        while len(self._range_lines) > 0:
            self._range_lines.pop().remove()

        if self._range_parameter is not None:
            range_lines = self._get_range_lines()
''', '''        while self._range_lines:
            self._range_lines.pop().remove()

        self._draw_range()

    def _draw_range(self):
        if self._range_parameter is not None:
            range_lines = self._get_range_lines()
'''),
    (P, '''        startvals = {key: s.val for key, s in self.sliders.items()}
        self.R.update_params(**startvals)
        contribs = self.R.calc().squeeze()
''', '''        self.R.update_params(**{key: s.val for key, s in self.sliders.items()})
        contribs = np.squeeze(self.R.calc())
'''))
ref("analyze-range-values",
    (P, '''        startvals = {
            key: np.full((self._n_mima_samples, 1), s.val)
            for key, s in self.sliders.items()
        }
        startvals[self._range_parameter] = np.linspace(
            self.sliders[self._range_parameter].valmin,
            self.sliders[self._range_parameter].valmax,
            self._n_mima_samples,
        )[:, np.newaxis]

        self.R.update_params(**startvals)
        res = self.R.calc()
        return res
''', '''        n = self._n_mima_samples
        startvals = {}
        for key, s in self.sliders.items():
            if key == self._range_parameter:
                startvals[key] = np.linspace(s.valmin, s.valmax, n).reshape(n, 1)
            else:
                startvals[key] = np.full((n, 1), s.val)

        self.R.update_params(**startvals)
        return self.R.calc()
'''))
ref("analyze3d-getvals",
    (P, '''        x = res * np.sin(self.R.t_ex) * np.cos(self.R.p_ex)
        y = res * np.sin(self.R.t_ex) * np.sin(self.R.p_ex)
        z = res * np.cos(self.R.t_ex)
        return x, y, z
''', '''        horizontal = res * np.sin(self.R.t_ex)
        x = horizontal * np.cos(self.R.p_ex)
        y = horizontal * np.sin(self.R.p_ex)
        return x, y, res * np.cos(self.R.t_ex)
'''),
    (P, '''            if "i" in self._contributions:
                self.R.int_Q = True
            else:
                self.R.int_Q = False
            yield
''', '''            self.R.int_Q = "i" in self._contributions
            yield
'''),
    (P, '''        while len(self._artists) > 0:
            a = self._artists.pop()
            a.remove()
''', '''        for artist in self._artists:
            artist.remove()
        self._artists.clear()
'''))
ref("analyze3d-arrows",
    (P, '''        self._artists.add(
            self.ax.plot(
                *self._getarrow(
                    np.nanmax(np.abs(z[self._use_contribs])),
                    np.deg2rad(inc),
                ),
                c="k",
                ls="--",
            )[0]
        )
        self._artists.add(
            self.ax.plot(
                *self._getarrow(
                    np.nanmax(np.abs(z[self._use_contribs])),
                    np.deg2rad(-inc),
                ),
                c="k",
                ls="-",
            )[0]
        )
''', '''        height = np.nanmax(np.abs(z[self._use_contribs]))
        for angle, style in ((inc, "--"), (-inc, "-")):
            arrow = self._getarrow(height, np.deg2rad(angle))
            (line,) = self.ax.plot(*arrow, c="k", ls=style)
            self._artists.add(line)
'''))

# layout of the sparse jacobian
ROW = """                    jac_columns += csr_matrix(j.ravel())
"""
DIAG = """                    jac_columns += block_diag(j.tolist(), "csr")
"""
STACK = """            return vstack(jac_columns).T
"""
PAD = " " * 20
for k, (row, diag, stack) in enumerate([
    ("jac_columns += csr_matrix(np.atleast_2d(j.ravel()))",
     'jac_columns += block_diag([row.tolist() for row in j], "csr")',
     "return vstack(jac_columns).transpose()"),
    ("jac_columns += csr_matrix(j.ravel()[np.newaxis])",
     'jac_columns += block_diag(list(j.tolist()), format="csr")',
     'return vstack(jac_columns, format="csr").T'),
    ("jac_columns += csr_matrix(j.flatten())",
     "jac_columns += block_diag([[row] for row in j.tolist()]).tocsr()",
     "columns = vstack(jac_columns)\n            return columns.T"),
    ("jac_columns.append(csr_matrix([j.ravel()]))",
     "jac_columns.append(block_diag(tuple(map(np.atleast_2d, j))))",
     "return vstack(jac_columns).T.tocsr()"),
    ("jac_columns.append(csr_matrix(np.reshape(j, (1, -1))))",
     "jac_columns.append(block_diag(j.tolist()))",
     "return vstack(tuple(jac_columns)).T"),
    ("jac_columns.append(csr_matrix(j.reshape(1, j.size)))",
     "jac_columns.append(block_diag([[j[i]] for i in range(len(j))]))",
     "return vstack(jac_columns).T"),
    ("jac_columns.append(csr_matrix(j.ravel()).T)",
     "jac_columns.append(block_diag(j.tolist()).T)",
     "return hstack(jac_columns)"),
    ("jac_columns.append(csr_matrix(j.reshape(-1, 1)))",
     "jac_columns.append(block_diag([row.reshape(-1, 1) for row in j]))",
     "return hstack(jac_columns)"),
]):
    ref(f"sparse-layout-{k}", (C, ROW, PAD + row + "\n"), (C, DIAG, PAD + diag + "\n"),
        (C, STACK, " " * 12 + stack + "\n"),
        *([(C, "import vstack,", "import hstack, vstack,")]
          if "hstack" in stack else []))
ref("sparse-layout-criterion",
    (C, "                if np.size(self.param_dict[key]) == 1:\n",
     "                if np.asarray(self.param_dict[key]).size == 1:\n"))
ref("sparse-layout-generator",
    (C, ROW, "                    yield csr_matrix(j.ravel())\n"),
    (C, DIAG, '                    yield block_diag(j.tolist(), "csr")\n'),
    (C, """            jac_columns = []

            for key, j in zip(param_list, jac):
                if np.size""", """            def columns():
              for key, j in zip(param_list, jac):
                if np.size"""),
    (C, STACK, "            return vstack(list(columns())).T\n"))

# ---- second wave -----------------------------------------------------------------------
ref("s2-running-sum",
    (C, '''        # cache the results of the expn-evaluations to speed up the S2 loop
        @lru_cache()
        def innerfunc(k):
            return mu ** (-k) * (expn(k + 1.0, tau) - np.exp(-tau / mu) / k)

        S2 = np.array(
            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]
        )

        # clear the cache since tau might have changed!
        innerfunc.cache_clear()

        return S2 + hlp1
''', '''        terms = []
        total = 0
        for k in range(1, nmax + 1):
            total = total + (expn(k + 1.0, tau) - np.exp(-tau / mu) / k) / mu**k
            terms.append(total)

        return np.array(terms) + hlp1
'''))
ref("s2-accumulate",
    (C, '''        # cache the results of the expn-evaluations to speed up the S2 loop
        @lru_cache()
        def innerfunc(k):
            return mu ** (-k) * (expn(k + 1.0, tau) - np.exp(-tau / mu) / k)

        S2 = np.array(
            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]
        )

        # clear the cache since tau might have changed!
        innerfunc.cache_clear()

        return S2 + hlp1
''', '''        attenuation = np.exp(-tau / mu)
        S2 = np.array(
            list(
                accumulate(
                    mu ** (-k) * (expn(k + 1.0, tau) - attenuation / k)
                    for k in range(1, nmax + 1)
                )
            )
        )
        return hlp1 + S2
'''), (C, "from itertools import chain", "from itertools import accumulate, chain"))
ref("s2-cumsum",
    (C, '''        S2 = np.array(
            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]
        )
''', '''        S2 = np.cumsum([innerfunc(k) for k in range(1, nmax + 1)], axis=0)
'''))
ref("s2-nadir-helper",
    (C, '''        nadir = np.equal(mu, 1.0)
        mu_off = np.where(nadir, 0.5, mu)
        hlp1 = np.exp(-tau / mu) * np.where(
            nadir,
            np.euler_gamma + np.log(tau),
            np.log(mu_off / (1.0 - mu_off)) + expi(tau / mu_off - tau),
        ) - expi(-tau)
''', '''        at_nadir = mu == 1.0
        mu_off = np.where(at_nadir, 0.5, mu)
        regular = np.log(mu_off) - np.log(1.0 - mu_off) + expi(tau / mu_off - tau)
        limit = np.euler_gamma + np.log(tau)
        hlp1 = np.exp(-tau / mu) * np.where(at_nadir, limit, regular) - expi(-tau)
'''))
ref("sum-fn-loop",
    (C, '''        assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
        return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))
''', '''        if len(fn) != len(S2):
            raise AssertionError("The number of fn-coefficients is not correct!")

        total = 0
        for order in range(len(fn)):
            total = total + fn[order] * mu_x[order] * S2[order]
        return total
'''))
ref("sum-fn-module-function",
    (C, '''    @staticmethod
    def _sum_fn(fn, mu_x, S2):
        # evaluate the sum over the expansion orders individually for each order to
        # make sure that the values of all parameters and angles are properly broadcasted
        assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
        return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))

''', ''),
    (C, '''class RT1(object):
''', '''def _sum_orders(fn, mu_x, S2):
    # evaluate the sum over the expansion orders individually for each order to
    # make sure that the values of all parameters and angles are properly broadcasted
    assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
    return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))


class RT1(object):
'''),
    (C, "        return self._sum_fn(\n", "        return _sum_orders(\n"),
    (C, "        return self._sum_fn(\n", "        return _sum_orders(\n"))
ref("mu-powers-product",
    (C, '''        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])
        return mux
''', '''        powers = []
        mu = self._mu_0
        for _ in range(self.V.ncoefs + self.SRF.ncoefs - 1):
            powers.append(mu)
            mu = mu * self._mu_0
        return np.array(powers)
'''),
    (C, '''        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])
        return mux
''', '''        orders = range(1, self.V.ncoefs + self.SRF.ncoefs)
        return np.stack([np.power(self._mu_ex, n) for n in orders])
'''))
ref("extract-dicts",
    (C, '''        fn = []

        # find f_0 coefficient
        repl0 = dict([[sp.cos(theta_s), 0]])
        fn = fn + [expr.xreplace(repl0)]

        # find f_1 coefficient
        repl1 = dict(
            [[sp.cos(theta_s) ** i, 0] for i in list(range(N_fn, 0, -1)) if i != 1]
            + [[sp.cos(theta_s), 1]]
        )
        fn = fn + [expr.xreplace(repl1) - fn[0]]

        for n in np.arange(2, N_fn, dtype=int):
            repln = dict([[sp.cos(theta_s) ** int(n), 1]])
            fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]
''', '''        cos_s = sp.cos(theta_s)
        zero = {cos_s: 0}

        # find f_0 coefficient
        constant = expr.xreplace(zero)
        fn = [constant]

        # find f_1 coefficient
        linear = {cos_s**i: 0 for i in range(2, N_fn + 1)}
        linear[cos_s] = 1
        fn.append(expr.xreplace(linear) - constant)

        for n in range(2, N_fn):
            fn.append(expr.xreplace({cos_s**n: 1}).xreplace(zero) - constant)
'''))
ref("expansion-even-range",
    (C, '''        replacements = [
            (
                sp.sin(theta_s) ** i,
                self._expand((1.0 - sp.cos(theta_s) ** 2) ** sp.Rational(i, 2)),
            )
            for i in range(1, self.SRF.ncoefs + self.V.ncoefs - 1)
            if i % 2 == 0
        ]

        res = self._expand(expr.xreplace(dict(replacements)))
''', '''        n_max = self.SRF.ncoefs + self.V.ncoefs - 1
        replacements = {}
        for i in range(2, n_max, 2):
            squares = (1.0 - sp.cos(theta_s) ** 2) ** (i // 2)
            replacements[sp.sin(theta_s) ** i] = self._expand(squares)

        res = self._expand(expr.xreplace(replacements))
'''))
ref("phis-separate-dicts",
    (C, '''        replacements1 = [
            (sp.sin(phi_s) ** i, 0.0)
            for i in range(1, self.SRF.ncoefs + self.V.ncoefs + 1)
            if i % 2 == 1
        ]

        # then substitute the sine**2 by 1-cos**2
        replacements1 = replacements1 + [
            (
                sp.sin(phi_s) ** i,
                self._expand((1.0 - sp.cos(phi_s) ** 2) ** sp.Rational(i, 2)),
            )
            for i in range(2, self.SRF.ncoefs + self.V.ncoefs + 1)
            if i % 2 == 0
        ]

        res = self._expand(expr.xreplace(dict(replacements1)))
''', '''        sines = {}
        for i in range(1, self.SRF.ncoefs + self.V.ncoefs + 1):
            if i % 2:
                sines[sp.sin(phi_s) ** i] = 0.0
            else:
                # substitute the sine**2 by 1-cos**2
                sines[sp.sin(phi_s) ** i] = self._expand(
                    (1.0 - sp.cos(phi_s) ** 2) ** (i // 2)
                )

        res = self._expand(expr.xreplace(sines))
'''),
    (C, '''        replacements3 = [
            (sp.cos(phi_s) ** i, self._cosintegral(i))
            for i in range(1, self.SRF.ncoefs + self.V.ncoefs + 1)
        ]

        res = self._expand(res.xreplace(dict(replacements3)))
        return res
''', '''        powers = range(1, self.SRF.ncoefs + self.V.ncoefs + 1)
        cosines = {sp.cos(phi_s) ** i: self._cosintegral(i) for i in powers}
        return self._expand(res.xreplace(cosines))
'''),
    (C, '''        if i % 2 == 0:
            return (2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))
        else:
            # for odd exponents result is always zero
            return 0.0
''', '''        # for odd exponents result is always zero
        if i % 2:
            return 0.0
        return sp.binomial(i, i // 2) / 2**i
'''))
ref("angle-swap-helper",
    (C, '''        angs = self._geom_ang_symbs
        if exchange:
            angs = [angs[1], angs[0], angs[3], angs[2]]

        brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
        volexp = self.V.legendre_expansion(
            sp.pi - angs[0], theta_s, angs[2], phi_s
        ).doit()
''', '''        t_0, t_ex, p_0, p_ex = self._geom_ang_symbs
        if exchange:
            t_0, t_ex = t_ex, t_0
            p_0, p_ex = p_ex, p_0

        brdfexp = self.SRF.legendre_expansion(theta_s, t_ex, phi_s, p_ex).doit()
        volexp = self.V.legendre_expansion(sp.pi - t_0, theta_s, p_0, phi_s).doit()
'''))
ref("calc-missing-helper",
    (C, '''            symbs = (
                {
                    *self._all_param_symbs,
                    *map(
                        str,
                        [
                            *self.V.phase_function.free_symbols,
                            *self.SRF.phase_function.free_symbols,
                        ],
                    ),
                }
                - {"phi_0", "phi_ex", "theta_0", "theta_ex"}
                - set(self.param_dict)
            )

            if len(symbs) > 0:
                raise TypeError(
                    f"Model evaluation requires parameter specification for {symbs}."
                )
            else:
                raise ex
''', '''            symbs = self._missing_symbs()
            if not symbs:
                raise ex
            raise TypeError(
                f"Model evaluation requires parameter specification for {symbs}."
            )
'''),
    (C, '''    def surface(self, **params):
''', '''    def _missing_symbs(self):
        required = set(self._all_param_symbs)
        for scatter in (self.V, self.SRF):
            required |= {str(i) for i in scatter.phase_function.free_symbols}
        required -= {"phi_0", "phi_ex", "theta_0", "theta_ex"}
        return {i for i in required if i not in self.param_dict}

    def surface(self, **params):
'''))
ref("calc-flat",
    (C, '''            if isinstance(self.tau, (int, float)):
                Isurf = self._surface()
                # differentiation for non-existing canopy, as otherwise NAN values
                if self.tau > 0.0:
                    Ivol = self._volume()
                    if self.int_Q is True:
                        Iint = self._interaction()
                    else:
                        Iint = np.array([0.0])
                else:
                    Ivol = np.full_like(Isurf, 0.0)
                    Iint = np.full_like(Isurf, 0.0)
            else:
                Isurf = self._surface()
                Ivol = self._volume()
                if self.int_Q is True:
                    Iint = self._interaction()

            if self.int_Q is True:
                ret = self._convert_sig0_db(
                    np.stack(
                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
                    ),
                )
            else:
                ret = self._convert_sig0_db(
                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                )

            return ret
''', '''            tau = self.tau
            Isurf = self._surface()
            # differentiation for non-existing canopy, as otherwise NAN values
            no_canopy = isinstance(tau, (int, float)) and not tau > 0.0
            Ivol = np.zeros_like(Isurf) if no_canopy else self._volume()

            if self.int_Q is True:
                Iint = np.zeros_like(Isurf) if no_canopy else self._interaction()
                contributions = (Isurf + Ivol + Iint, Isurf, Ivol, Iint)
            else:
                contributions = (Isurf + Ivol, Isurf, Ivol)

            return self._convert_sig0_db(np.array(np.broadcast_arrays(*contributions)))
'''))
ref("bistatic-dict",
    (C, '''        angs = [t_0, t_ex, p_0, p_ex]
        assert all(
            ang is None or isinstance(ang, (int, float, np.number)) for ang in angs
        ), "The fixed angle must be a number!"
''', '''        fixed = dict(t_0=t_0, t_ex=t_ex, p_0=p_0, p_ex=p_ex)
        for ang in fixed.values():
            if ang is not None and not isinstance(ang, (int, float, np.number)):
                raise AssertionError("The fixed angle must be a number!")
'''),
    (C, '''        attrnames = ["t_0", "t_ex", "p_0", "p_ex"]

        symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]

        geom_ang_symbs = []
        geom = ""
        for i, (ang, symb, attr) in enumerate(zip(angs, symbs, attrnames)):
            if ang is None:
                geom += "v"
                geom_ang_symbs.append(symb)
            else:
                geom += "f"
                geom_ang_symbs.append(ang)
                setattr(self, f"_{attr}", np.atleast_1d(ang))
                self._fixed_angles.add(attr)

        self._geom_ang_symbs = geom_ang_symbs
''', '''        symbs = sp.symbols("theta_0 theta_ex phi_0 phi_ex")
        self._geom_ang_symbs = []
        for (attr, ang), symb in zip(fixed.items(), symbs):
            if ang is not None:
                setattr(self, "_" + attr, np.atleast_1d(ang))
                self._fixed_angles.add(attr)
            self._geom_ang_symbs.append(symb if ang is None else ang)
'''))
ref("init-setattr-loop",
    (C, '''        # default parameter names
        self._bsf = "bsf"
        self._NormBRDF = "NormBRDF"
        self._tau = "tau"
        self._omega = "omega"

        self._param_dict = dict(bsf=0)
        self._fixed_angles = set()
''', '''        # default parameter names
        for name in ("bsf", "NormBRDF", "tau", "omega"):
            setattr(self, f"_{name}", name)

        self._fixed_angles = set()
        self._param_dict = {"bsf": 0}
'''),
    (C, '''        assert V is not None, "You must provide a volume scattering phase function!"
        self.V = V

        assert SRF is not None, "You must provide a BRDF!"
        self.SRF = SRF
''', '''        if V is None:
            raise AssertionError("You must provide a volume scattering phase function!")
        if SRF is None:
            raise AssertionError("You must provide a BRDF!")

        self.V, self.SRF = V, SRF
'''))
ref("update-params-loop",
    (C, '''        self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
''', '''        for key, val in kwargs.items():
            self._param_dict[key] = np.atleast_1d(val)
'''),
    (C, '''        if (
            isinstance(self._bsf, str)
            and self._bsf == "bsf"
            and "bsf" not in self.param_dict
        ):
            kwargs.setdefault("bsf", 0)
''', '''        default_bsf = isinstance(self._bsf, str) and self._bsf == "bsf"
        if default_bsf and not ("bsf" in self.param_dict or "bsf" in kwargs):
            kwargs["bsf"] = 0
'''),
    (C, '''        if not set(kwargs).issubset(self.param_dict):
''', '''        new_names = [key for key in kwargs if key not in self.param_dict]
        if new_names:
'''))
ref("eval-param-precheck",
    (C, '''        if func is not None:
            try:
                params = self._get_param_symbs(param)
                return func(**{key: self.param_dict[key] for key in params})
                # return func(*[self.param_dict[key] for key in params])

            except Exception as ex:
                # check for missing parameters in case evaluation fails
                func_def = getattr(self, f"_{param}")
                missing = set(params).difference(self.param_dict)

                if missing:
                    raise TypeError(
                        "Missing specification for the parameters "
                        f"{missing} to compute the value of '{param} = {func_def}'."
                    )
                else:
                    raise ex
        else:
            return getattr(self, f"_{param}")
''', '''        if func is None:
            return getattr(self, "_" + param)

        params = self._get_param_symbs(param)
        missing = {key for key in params if key not in self.param_dict}
        if missing:
            func_def = getattr(self, "_" + param)
            raise TypeError(
                "Missing specification for the parameters "
                f"{missing} to compute the value of '{param} = {func_def}'."
            )
        return func(**{key: self.param_dict[key] for key in params})
'''))
ref("convert-conditional",
    (C, '''        if sig0 is None:
            sig0 = self.sig0
        if dB is None:
            dB = self.dB

        if sig0 is True:
            signorm = 4.0 * np.pi * self._mu_0 / self.I0
        else:
            signorm = 1.0

        ret = val * signorm

        if dB is True:
            ret = 10.0 * np.log10(ret)

        return ret
''', '''        use_sig0 = (self.sig0 if sig0 is None else sig0) is True
        use_dB = (self.dB if dB is None else dB) is True

        ret = val
        if use_sig0:
            ret = np.multiply(ret, 4.0 * np.pi * self._mu_0) / self.I0
        return np.log10(ret) * 10.0 if use_dB else ret
'''))
ref("param-accessors",
    (C, '''        p = getattr(self, f"_{param}")
        if isinstance(p, (str, sp.Basic)):
            expr = _parse_sympy_param(p)

            symbs = list(map(str, expr.free_symbols))
        else:
            symbs = []
        return symbs
''', '''        definition = vars(self)["_" + param]
        if not isinstance(definition, (str, sp.Basic)):
            return []
        return [str(i) for i in _parse_sympy_param(definition).free_symbols]
'''),
    (C, '''        if not isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
            return None

        func = _lambdify(
            self._get_param_symbs(param),
            getattr(self, f"_{param}"),
        )

        return func
''', '''        definition = getattr(self, f"_{param}")
        if isinstance(definition, (str, sp.Basic)):
            return _lambdify(self._get_param_symbs(param), definition)
        return None
'''),
    (C, '''        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
            diff = sp.diff(
                _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
            )
            return diff
        else:
            return 1
''', '''        definition = getattr(self, f"_{param}")
        if not isinstance(definition, (str, sp.Basic)):
            return 1
        return _parse_sympy_param(definition).diff(sp.Symbol(key))
'''),
    (C, '''        return list(
            chain(
                *(
                    self._get_param_symbs(key)
                    for key in ("tau", "omega", "NormBRDF", "bsf")
                )
            )
        )
''', '''        symbs = []
        for key in ("tau", "omega", "NormBRDF", "bsf"):
            symbs.extend(self._get_param_symbs(key))
        return symbs
'''))
ref("dvolume-shared",
    (C, '''        dvdt = (
            self.I0
            * self.omega
            * (self._mu_0 / (self._mu_0 + self._mu_ex))
            * (
                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
            )
            * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        )

        return (1.0 - self.bsf) * dvdt
''', '''        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        dvdt = self.omega * path * np.exp(-self.tau * path) * self._volume_scale()
        return (1.0 - self.bsf) * dvdt
'''),
    (C, '''        dvdo = (
            (self.I0 * self._mu_0 / (self._mu_0 + self._mu_ex))
            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
            * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        )

        return (1.0 - self.bsf) * dvdo
''', '''        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        return (
            (1.0 - self.bsf) * (1.0 - np.exp(-self.tau * path)) * self._volume_scale()
        )
'''),
    (C, '''        vol = (
            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))
            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
            * self.V.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        return -vol
''', '''        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        return -self.omega * (1.0 - np.exp(-self.tau * path)) * self._volume_scale()

    def _volume_scale(self):
        angs = (self.t_0, self.t_ex, self.p_0, self.p_ex)
        return (
            self.I0
            * self._mu_0
            / (self._mu_0 + self._mu_ex)
            * self.V.calc(*angs, param_dict=self.param_dict)
        )
'''))
ref("dsurface-shared",
    (C, '''        dsdt = (
            self.I0
            * (-1.0 / self._mu_0 - 1.0 / self._mu_ex)
            * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
            * self._mu_0
            * self.SRF.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
        )

        # Incorporate BRDF-normalization factor
        dsdt = self.NormBRDF * (1.0 - self.bsf) * dsdt

        return dsdt
''', '''        I_bs, Isurf = self._surface_parts()
        path = 1.0 / self._mu_0 + 1.0 / self._mu_ex
        return -path * self.NormBRDF * (1.0 - self.bsf) * Isurf
'''),
    (C, '''        I_bs = (
            self.I0
            * self._mu_0
            * self.SRF.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return (1.0 - self.bsf) * Isurf + self.bsf * I_bs
''', '''        I_bs, Isurf = self._surface_parts()
        return Isurf + self.bsf * (I_bs - Isurf)
'''),
    (C, '''        # bare soil contribution (intensity)
        I_bs = (
            self.I0
            * self._mu_0
            * self.SRF.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)
''', '''        # bare soil contribution (intensity)
        I_bs, Isurf = self._surface_parts()
        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)

    def _surface_parts(self):
        angles = dict(t_0=self.t_0, t_ex=self.t_ex, p_0=self.p_0, p_ex=self.p_ex)
        brdf = self.SRF.calc(**angles, param_dict=self.param_dict)
        I_bs = self.I0 * self._mu_0 * brdf
        attenuation = np.exp(-self.tau / self._mu_0) * np.exp(-self.tau / self._mu_ex)
        return I_bs, attenuation * I_bs
'''))
ref("derivatives-mixin",
    (C, '''class RT1(object):
''', '''class _ChainRule:
    def _chain_ddummy(self, key, **derivatives):
        # sum of the inner derivatives of all parameters (NormBRDF, tau, omega, bsf)
        # that depend on the key multiplied by the associated outer derivatives
        ret = 0.0
        for param, derivative in derivatives.items():
            if str(key) not in self._get_param_symbs(param):
                continue
            inner = self._dparam_ddummy_lambda(param, key)(
                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
            )
            ret = ret + derivative() * inner
        return ret


class RT1(_ChainRule):
'''),
    (C, '''    def _chain_ddummy(self, key, **derivatives):
        # sum of the inner derivatives of all parameters (NormBRDF, tau, omega, bsf)
        # that depend on the key multiplied by the associated outer derivatives
        ret = 0.0
        for param, derivative in derivatives.items():
            if str(key) in self._get_param_symbs(param):
                inner = self._dparam_ddummy_lambda(param, key)(
                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                )
                ret = ret + derivative() * inner
        return ret

''', ""))
ref("lambda-args-helper",
    (C, '''        diff = self._dparam_ddummy(param, key)

        theta_0 = sp.Symbol("theta_0")
        theta_ex = sp.Symbol("theta_ex")
        phi_0 = sp.Symbol("phi_0")
        phi_ex = sp.Symbol("phi_ex")

        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())

        return _lambdify(args, diff)
''', '''        return _lambdify(self._lambda_args(), self._dparam_ddummy(param, key))

    def _lambda_args(self):
        names = ["theta_0", "theta_ex", "phi_0", "phi_ex"]
        return [*map(sp.Symbol, names), *self.param_dict]
'''),
    (C, '''        theta_0 = sp.Symbol("theta_0")
        theta_ex = sp.Symbol("theta_ex")
        phi_0 = sp.Symbol("phi_0")
        phi_ex = sp.Symbol("phi_ex")

        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())

        return _lambdify(
            args,
            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
        )
''', '''        derivative = self.SRF.phase_function.diff(sp.Symbol(key))
        return _lambdify(self._lambda_args(), derivative)
'''))
ref("fint-symmetric",
    (C, '''        args = np.broadcast_arrays(
            self.t_0,
            self.p_0,
            self.t_ex,
            self.p_ex,
            *self.param_dict.values(),
        )

        return self._sum_fn(
            self._fnevals(*args), self._mu_0_x, self._S2_mu(self._mu_0, self.tau)
        )
''', '''        fnevals = self._fnevals
        values = [self.t_0, self.p_0, self.t_ex, self.p_ex]
        values.extend(self.param_dict.values())
        fn = fnevals(*np.broadcast_arrays(*values))
        S2 = self._S2_mu(self._mu_0, self.tau)
        return self._sum_fn(fn, mu_x=self._mu_0_x, S2=S2)
'''),
    (C, '''        if (
            self._fixed_angles
            and not self._monostatic
            and self.fn_input is None
            and self.fnevals_input is None
        ):
            # exchanging the arguments has no effect on fixed angles!
            fnevals = self._fnevals_ex
            angs = (self.t_0, self.p_0, self.t_ex, self.p_ex)
        else:
            fnevals = self._fnevals
            angs = (self.t_ex, self.p_ex, self.t_0, self.p_0)
''', '''        provided = self.fn_input is not None or self.fnevals_input is not None
        if provided or self._monostatic or len(self._fixed_angles) == 0:
            fnevals = self._fnevals
            angs = (self.t_ex, self.p_ex, self.t_0, self.p_0)
        else:
            # exchanging the arguments has no effect on fixed angles!
            fnevals = self._fnevals_ex
            angs = (self.t_0, self.p_0, self.t_ex, self.p_ex)
'''))
ref("jacobian-shape",
    (C, '''        shape = np.broadcast_shapes(
            *map(
                np.shape,
                (self.t_0, self.t_ex, self.p_0, self.p_ex, *self.param_dict.values()),
            )
        )
        jac = [j * np.ones(shape) for j in jac]
''', '''        ones = np.ones(self._measurement_shape())
        jac = [ones * j for j in jac]
'''),
    (C, '''    def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
''', '''    def _measurement_shape(self):
        shapes = [i.shape for i in (self.t_0, self.t_ex, self.p_0, self.p_ex)]
        for val in self.param_dict.values():
            shapes.append(np.shape(val))
        return np.broadcast_shapes(*shapes)

    def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
'''))
ref("jacobian-broadcast",
    (C, '''        jac = [j * np.ones(shape) for j in jac]
''', '''        jac = [np.array(np.broadcast_to(j, shape)) for j in jac]
'''))
ref("jacobian-match",
    (C, '''        for key in param_list:
            if key == "omega":
                jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
            elif key == "tau":
                jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
            elif key == "NormBRDF":
                jac += [(self._dsurface_dNormBRDF() + self._dvolume_dNormBRDF()) * norm]
            elif key == "bsf":
                jac += [(self._dsurface_dbsf() + self._dvolume_dbsf()) * norm]
            elif key in self.param_dict:
                jac += [
                    (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
                ]
            else:
                assert False, (
                    "error in jacobian calculation... "
                    + str(key)
                    + " is not in param_dict"
                )
''', '''        for key in param_list:
            match key:
                case "omega" | "tau" | "NormBRDF" | "bsf":
                    d_surface = getattr(self, f"_dsurface_d{key}")()
                    d_volume = getattr(self, f"_dvolume_d{key}")()
                case _ if key in self.param_dict:
                    d_surface = self._d_surface_ddummy(key)
                    d_volume = self._d_volume_ddummy(key)
                case _:
                    raise AssertionError(
                        "error in jacobian calculation... "
                        "{} is not in param_dict".format(key)
                    )
            jac.append((d_surface + d_volume) * norm)
'''))
ref("cache-clear-helpers",
    (C, '''        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
        self._fnevals_ = None
        self._fn_ex_ = None
        self._fnevals_ex_ = None

        if p_0''', '''        self._reset_interaction()
        self._clear_geom_cache()

        if p_0'''),
    (C, '''        self._clear_geom_cache()
        self._fixed_angles.clear()
        self._fn_ = None
        self._fnevals_ = None
        self._fn_ex_ = None
        self._fnevals_ex_ = None

        attrnames''', '''        self._reset_interaction()
        self._clear_geom_cache()

        attrnames'''),
    (C, '''    def _clear_geom_cache(self):
''', '''    def _reset_interaction(self):
        self._fixed_angles = set()
        for name in ("_fn_", "_fnevals_", "_fn_ex_", "_fnevals_ex_"):
            setattr(self, name, None)

    def _clear_geom_cache(self):
'''))
ref("angle-getter",
    (C, '''        try:
            return self._t_0
        except AttributeError:
            raise AttributeError(
                "Please set the evaluation angle `t_0` with R.set_geometry() first!"
            )
''', '''        return self._get_angle("t_0")
'''),
    (C, '''        if self._monostatic:
            return self.t_0
        else:
            try:
                return self._t_ex
            except AttributeError:
                raise AttributeError(
                    "Please set the evaluation angle `t_ex` with R.set_geometry() first!"
                )
''', '''        return self.t_0 if self._monostatic else self._get_angle("t_ex")

    def _get_angle(self, name):
        if not hasattr(self, f"_{name}"):
            raise AttributeError(
                f"Please set the evaluation angle `{name}` with R.set_geometry() first!"
            )
        return getattr(self, f"_{name}")
'''))
ref("getstate-copy",
    (C, '''        state = self.__dict__.copy()
''', '''        state = dict(vars(self))
'''),
    (C, '''            state[Nonekey] = None

''', '''            state.update({Nonekey: None})

'''))

# -- sixth wave: wide rewrites (names, modules, caches, numpy idioms) ---------------------
import re as _re  # noqa
_ren = lambda f, *pairs: [(f, _re.compile(a), b) for a, b in pairs]  # noqa
ref("rename-private-calc", *_ren(
    C, (r"\b_mu_0_x\b", "_cos_powers_inc"), (r"\b_mu_ex_x\b", "_cos_powers_exit"),
    (r"\b_mu_0\b", "_cos_inc"), (r"\b_mu_ex\b", "_cos_exit"),
    (r"\b_geom_ang_symbs\b", "_directions"), (r"\b_get_param_symbs\b", "_names_of"),
    (r"\b_get_param_funcs\b", "_function_of"), (r"\b_eval_param\b", "_value_of"),
    (r"\b_fnevals_\b", "_compiled"), (r"\b_fn_\b", "_symbolic"),
    (r"\b_calc_Fint_1\b", "_first_path"), (r"\b_calc_Fint_2\b", "_second_path"),
    (r"\b_d_volume_dummy_lambda\b", "_volume_slope"),
    (r"\b_d_surface_dummy_lambda\b", "_surface_slope")))
ref("rename-storage", *_ren(
    C, (r"\b_tau\b", "_tau_definition"), (r"\b_omega\b", "_omega_definition"),
    (r"\b_NormBRDF\b", "_NormBRDF_definition"), (r"\b_bsf\b", "_bsf_definition"),
    (r'f"_\{param\}"', 'f"_{param}_definition"'),
    (r"\b_param_dict\b", "_values"), (r"\b_fixed_angles\b", "_fixed")))
ref("future-annotations",
    (C, '''from functools import lru_cache, wraps
''', '''from __future__ import annotations

from functools import lru_cache, wraps
from typing import Any, Dict, Optional
'''),
    (C, "    def _convert_sig0_db(self, val, sig0=None, dB=None):\n",
     "    def _convert_sig0_db(\n        self, val: Any, sig0: Optional[bool] = None, "
     "dB: Optional[bool] = None\n    ) -> Any:\n"),
    (C, "    def update_params(self, **kwargs):\n",
     "    def update_params(self, **kwargs: Any) -> None:\n"),
    (C, "    def param_dict(self):\n", "    def param_dict(self) -> Dict[str, Any]:\n"),
    (C, "    def _S2_mu(self, mu, tau):\n",
     "    def _S2_mu(self, mu: np.ndarray, tau: np.ndarray) -> np.ndarray:\n"))
ref("geom-cached-property",
    (C, "from functools import lru_cache, wraps\n",
     "from functools import cached_property, lru_cache, wraps\n"),
    *[(C, f'''    @property
    @lru_cache()
    def {n}(self):
''', f'''    @cached_property
    def {n}(self):
''') for n in ("_mu_0", "_mu_ex", "_mu_0_x", "_mu_ex_x")],
    (C, '''        for key in props:
            getattr(type(self), key).fget.cache_clear()
''', '''        for key in props:
            self.__dict__.pop(key, None)
'''),
    (C, '''                cinfo = getattr(type(self), name).fget.cache_info()
                text += [f"{name:<18}:   " + f"{cinfo}"]
''', '''                text += [f"{name:<18}:   " + str(name in self.__dict__)]
'''))
ref("geom-cache-dict",
    (C, "class RT1(object):\n", '''def _cached_geometry(func):
    """Property that is evaluated once for each geometry."""
    name = func.__name__

    @wraps(func)
    def getter(self):
        cache = self.__dict__.setdefault("_geom_cache", {})
        if name not in cache:
            cache[name] = func(self)
        return cache[name]

    return property(getter)


class RT1(object):
'''),
    *[(C, f'''    @property
    @lru_cache()
    def {n}(self):
''', f'''    @_cached_geometry
    def {n}(self):
''') for n in ("_mu_0", "_mu_ex", "_mu_0_x", "_mu_ex_x")],
    (C, '''        for key in props:
            getattr(type(self), key).fget.cache_clear()
''', '''        cache = self.__dict__.setdefault("_geom_cache", {})
        for key in props:
            if key in cache:
                del cache[key]
'''),
    (C, '''                cinfo = getattr(type(self), name).fget.cache_info()
''', '''                cinfo = name in self.__dict__["_geom_cache"]
'''))
ref("no-geom-cache",
    *[(C, f'''    @property
    @lru_cache()
    def {n}(self):
''', f'''    @property
    def {n}(self):
''') for n in ("_mu_0", "_mu_ex", "_mu_0_x", "_mu_ex_x")],
    (C, '''    _cached_properties = [
        "_mu_0",
        "_mu_0_x",
        "_mu_ex",
        "_mu_ex_x",
    ]
''', '''    _cached_properties = []
'''))
ref("numpy-functions",
    (C, '''        vol = (
            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))
            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
            * self.V.calc(
                self.t_0,
                self.t_ex,
                self.p_0,
                self.p_ex,
                param_dict=self.param_dict,
            )
        )

        return (1.0 - self.bsf) * vol
''', '''        slant = np.add(np.reciprocal(self._mu_0), np.reciprocal(self._mu_ex))
        absorbed = -np.expm1(np.negative(np.multiply(self.tau, slant)))
        weight = np.true_divide(self._mu_0, np.add(self._mu_0, self._mu_ex))
        phase = self.V.calc(
            self.t_0, self.t_ex, self.p_0, self.p_ex, param_dict=self.param_dict
        )
        factor = np.multiply(np.multiply(self.I0, self.omega), weight)

        return np.multiply(np.subtract(1.0, self.bsf), factor * absorbed * phase)
'''),
    (C, '''            ret = 10.0 * np.log10(ret)
''', '''            ret = np.log(ret) * (10.0 / np.log(10.0))
'''))
ref("surface-lerp",
    (C, '''        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs

        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)
''', '''        bsf = self.bsf
        transmission = np.exp(-self.tau * (self._mu_0 + self._mu_ex) / (
            self._mu_0 * self._mu_ex))
        # fraction of the signal that reaches the sensor
        fraction = transmission + bsf * (1.0 - transmission)

        return self.NormBRDF * fraction * I_bs
'''))
ref("derivatives-module",
    ("_jacobian.py", None, '''"""Derivatives of the model (mixin for RT1)."""
import numpy as np
import sympy as sp

from .helpers import _lambdify, _parse_sympy_param


class _Derivatives:
    def _slant(self):
        return 1.0 / self._mu_0 + 1.0 / self._mu_ex

    def _phase(self, obj):
        return obj.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)

    def _dvolume_dtau(self):
        """Get the derivative of the volume-contribution with respect to tau."""
        s = self._slant()
        ret = self.I0 * self.omega * (self._mu_0 / (self._mu_0 + self._mu_ex))
        ret = ret * s * np.exp(-self.tau * s) * self._phase(self.V)
        return (1.0 - self.bsf) * ret

    def _dvolume_domega(self):
        """Get the derivative of the volume-contribution with respect to omega."""
        ret = self.I0 * (self._mu_0 / (self._mu_0 + self._mu_ex))
        ret = ret * (1.0 - np.exp(-self.tau * self._slant())) * self._phase(self.V)
        return (1.0 - self.bsf) * ret

    def _dvolume_dbsf(self):
        """Get the derivative of the volume-contribution with respect to bsf."""
        ret = self.I0 * self.omega * (self._mu_0 / (self._mu_0 + self._mu_ex))
        return -ret * (1.0 - np.exp(-self.tau * self._slant())) * self._phase(self.V)

    def _dvolume_dNormBRDF(self):
        """Get the derivative of the volume-contribution with respect to NormBRDF."""
        return 0.0

    def _dsurface_dtau(self):
        """Get the derivative of the surface-contribution with respect to tau."""
        s = self._slant()
        ret = -self.I0 * self._mu_0 * s * np.exp(-self.tau * s) * self._phase(self.SRF)
        return self.NormBRDF * (1.0 - self.bsf) * ret

    def _dsurface_domega(self):
        """Get the derivative of the surface-contribution with respect to omega."""
        return 0.0
'''),
    (C, "from .helpers import _lambdify, _parse_sympy_param\n",
     "from ._jacobian import _Derivatives\n"
     "from .helpers import _lambdify, _parse_sympy_param\n"),
    (C, "class RT1(object):\n", "class RT1(_Derivatives):\n"),
    (C, _re.compile(r"    def _dvolume_dtau\(self\):.*?(?=    def _dsurface_dNormBRDF)",
                    _re.S), ""))
ref("interaction-module",
    ("_interaction.py", None, '''"""Numerical functions for the interaction term."""
from functools import lru_cache

import numpy as np
from scipy.special import expi, expn


def first_terms(mu, tau):
    """Logarithmic and exponential-integral terms (continuous at mu=1)."""
    is_one = np.equal(mu, 1.0)
    safe = np.where(is_one, 0.5, mu)
    limit = np.euler_gamma + np.log(tau)
    general = np.log(safe / (1.0 - safe)) + expi(tau / safe - tau)
    return np.exp(-tau / mu) * np.where(is_one, limit, general) - expi(-tau)


def series(mu, tau, nmax):
    """Partial sums of the remaining terms."""

    @lru_cache(maxsize=None)
    def term(k):
        return mu ** (-k) * (expn(k + 1.0, tau) - np.exp(-tau / mu) / k)

    return np.array([sum(map(term, range(1, n + 2))) for n in range(nmax)])
'''),
    (C, "from .helpers import _lambdify, _parse_sympy_param\n",
     "from ._interaction import first_terms, series\n"
     "from .helpers import _lambdify, _parse_sympy_param\n"),
    (C, _re.compile(r"(    def _S2_mu\(self, mu, tau\):\n).*?(?=    @staticmethod)", _re.S),
     r"""\1        nmax = self.V.ncoefs + self.SRF.ncoefs - 1
        return series(mu, tau, nmax) + first_terms(mu, tau)

"""))
ref("geometry-class",
    (C, "class RT1(object):\n", '''class _Geometry:
    """Mapping of names of the angles to the symbols used in the coefficients."""

    names = ("t_0", "t_ex", "p_0", "p_ex")
    symbols = ("theta_0", "theta_ex", "phi_0", "phi_ex")

    def __init__(self, **fixed):
        self.fixed = {k: v for k, v in fixed.items() if v is not None}

    def __iter__(self):
        for name, symbol in zip(self.names, self.symbols):
            yield self.fixed[name] if name in self.fixed else sp.Symbol(symbol)


class RT1(object):
'''),
    (C, '''        symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]

        geom_ang_symbs = []
        geom = ""
        for i, (ang, symb, attr) in enumerate(zip(angs, symbs, attrnames)):
            if ang is None:
                geom += "v"
                geom_ang_symbs.append(symb)
            else:
                geom += "f"
                geom_ang_symbs.append(ang)
                setattr(self, f"_{attr}", np.atleast_1d(ang))
                self._fixed_angles.add(attr)

        self._geom_ang_symbs = geom_ang_symbs
''', '''        geometry = _Geometry(**dict(zip(attrnames, angs)))
        for attr, ang in geometry.fixed.items():
            setattr(self, f"_{attr}", np.atleast_1d(ang))
        self._fixed_angles.update(geometry.fixed)

        self._geom_ang_symbs = [*geometry]
'''))
ref("coefficients-coeff",
    (C, '''        fn = []

        # find f_0 coefficient
        repl0 = dict([[sp.cos(theta_s), 0]])
        fn = fn + [expr.xreplace(repl0)]

        # find f_1 coefficient
        repl1 = dict(
            [[sp.cos(theta_s) ** i, 0] for i in list(range(N_fn, 0, -1)) if i != 1]
            + [[sp.cos(theta_s), 1]]
        )
        fn = fn + [expr.xreplace(repl1) - fn[0]]

        for n in np.arange(2, N_fn, dtype=int):
            repln = dict([[sp.cos(theta_s) ** int(n), 1]])
            fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]

        # there is no f_1 coefficient if both functions consist of a single order
        return fn[:N_fn]
''', '''        x = sp.cos(theta_s)
        powers = {n: x**n for n in range(1, N_fn + 1)}

        def select(n):
            """All powers are removed except of the n-th (which is replaced by 1)."""
            return expr.xreplace({p: int(m == n) for m, p in powers.items()})

        constant = select(0)
        return [constant, *(select(n) - constant for n in range(1, N_fn))]
'''))
ref("phis-powers-helper",
    (C, _re.compile(r'        # replace first all odd powers of sin\(phi_s\).*?        return res\n(?=\n    def _S2_mu)',
                    _re.S), '''        nmax = self.SRF.ncoefs + self.V.ncoefs + 1

        def replaced(expression, base, value):
            powers = {base**i: value(i) for i in range(1, nmax)}
            return self._expand(expression.xreplace(powers))

        def sine(i):
            if i % 2:
                return 0.0
            return self._expand((1.0 - sp.cos(phi_s) ** 2) ** sp.Rational(i, 2))

        # odd powers of the sine vanish, even powers are expressed by the cosine
        expr = replaced(expr, sp.sin(phi_s), sine)
        return replaced(expr, sp.cos(phi_s), self._cosintegral)
'''))
ref("lincomb-dataclass",
    ("_scatter.py", "class _LinComb(_Scatter):\n", '''class _Term:
    __slots__ = ("weight", "func")

    def __init__(self, weight, func):
        self.weight = _parse_sympy_param(weight)
        self.func = func

    def times(self, name):
        return self.weight * getattr(self.func, name)


class _LinComb(_Scatter):
'''),
    ("_scatter.py", '''        self._weights, self._objs = [], []
        for w, o in choices:
            # cast weights passed as strings to sympy symbols
            self._weights.append(_parse_sympy_param(w))
            self._objs.append(o)
''', '''        self._terms = [_Term(*choice) for choice in choices]
        self._weights = [term.weight for term in self._terms]
        self._objs = [term.func for term in self._terms]
'''),
    ("_scatter.py", '''        func = 0
        for c, o in zip(self._weights, self._objs):
            func += c * o.phase_function

        return func
''', '''        return sum(term.times("phase_function") for term in self._terms)
'''))
ref("scatter-mixin-order",
    ("_scatter.py", '''        func = self._lambda_func(*param_dict.keys())

        res = func(t_0, t_ex, p_0, p_ex, **param_dict)
''', '''        angles = dict(theta_0=t_0, theta_ex=t_ex, phi_0=p_0, phi_ex=p_ex)
        func = self._lambda_func(*param_dict)
        res = func(*angles.values(), **param_dict)
'''))
ref("volume-property-factory",
    ("volume.py", '''        n = sp.Symbol("n")
        legendre_coefficients = (1.0 / (4.0 * sp.pi)) * (2.0 * n + 1) * self.t**n
        return legendre_coefficients
''', '''        n = sp.Symbol("n")
        return (2.0 * n + 1) * self.t**n / (4.0 * sp.pi)
'''),
    ("volume.py", '''        func = (1.0 - self.t**2.0) / (
            (4.0 * sp.pi)
            * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
            ** 1.5
        )

        return func
''', '''        t, x = self.t, self.scattering_angle_symbolic
        return (1.0 - t**2) * (1.0 + t**2 - 2.0 * t * x) ** sp.Rational(-3, 2) / (4 * sp.pi)
'''))
ref("loglevel-no-lru",
    ("__init__.py", '''@lru_cache()
def _ensure_handler():
''', '''_handler = None


def _ensure_handler():
'''),
    ("__init__.py", '''    handler = _logging.StreamHandler()
    handler.setFormatter(_logging.Formatter(_logging.BASIC_FORMAT))
    _log.addHandler(handler)
    return handler
''', '''    global _handler
    if _handler is None:
        _handler = _logging.StreamHandler()
        _handler.setFormatter(_logging.Formatter(_logging.BASIC_FORMAT))
        _log.addHandler(_handler)
    return _handler
'''),
    ("__init__.py", '''    if isinstance(level, str):
        level = level.upper()

    _log.setLevel(level)
    _ensure_handler().setLevel(level)
''', '''    level = level.upper() if isinstance(level, str) else level
    for target in (_log, _ensure_handler()):
        target.setLevel(level)
'''))
ref("backend-dict",
    ("__init__.py", '''    assert lambda_backend in [
        "sympy",
        "symengine",
    ], f"Lambda backend {lambda_backend} is not defined!"
    _init_lambda_backend = lambda_backend
''', '''    if lambda_backend not in ("sympy", "symengine"):
        raise AssertionError(f"Lambda backend {lambda_backend} is not defined!")

    _init_lambda_backend = lambda_backend
'''))
ref("analyze-parse",
    ("plot.py", '''            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))

            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
            p.setdefault("label", key)

            paramdicts[key] = p
        return paramdicts
''', '''            valmin, valmax, *optional = val
            start = optional[0] if optional else 0.5 * (valmin + valmax)
            label = optional[1] if len(optional) > 1 else key
            paramdicts[key] = dict(
                valmin=valmin, valmax=valmax, valinit=start, label=label
            )
        return paramdicts
'''))
ref("analyze-artists",
    ("plot.py", '''        while len(self._range_lines) > 0:
            self._range_lines.pop().remove()
''', '''        for artist in self._range_lines:
            artist.remove()
        self._range_lines.clear()
'''),
    ("plot.py", '''        while len(self._artists) > 0:
            a = self._artists.pop()
            a.remove()
''', '''        artists, self._artists = self._artists, set()
        for artist in artists:
            artist.remove()
'''))
ref("analyze3d-limits",
    ("plot.py", '''            lim = (
                min(np.nanmin(x[self._use_contribs]), np.nanmin(y[self._use_contribs])),
                max(np.nanmax(x[self._use_contribs]), np.nanmax(y[self._use_contribs])),
            )
            limmax = np.abs(lim).max()
            lim = [-limmax, limmax]

            self.ax.set_xlim(*lim)
            self.ax.set_ylim(*lim)
            self.ax.set_zlim(*lim)
''', '''            shown = [c[self._use_contribs] for c in (x, y)]
            limmax = max(
                abs(min(np.nanmin(c) for c in shown)), abs(max(np.nanmax(c) for c in shown))
            )
            lim = [-limmax, limmax]

            for set_lim in (self.ax.set_xlim, self.ax.set_ylim, self.ax.set_zlim):
                set_lim(*lim)
'''),
    ("plot.py", '''        init_int_q = self.R.int_Q

        try:
            if "i" in self._contributions:
                self.R.int_Q = True
            else:
                self.R.int_Q = False
            yield
        finally:
            self.R.int_Q = init_int_q
''', '''        previous = self.R.int_Q
        self.R.int_Q = "i" in self._contributions
        try:
            yield
        finally:
            self.R.int_Q = previous
'''))
ref("hemreflect-comprehension",
    ("plot.py", _re.compile(r'    # initialize array for solutions\n.*?    sol = np.array\(sol\) \* NormBRDF\n',
                            _re.S), '''    weight = np.sin(x) * np.cos(x)

    def reflectance(theta_0):
        brdf = BRDF(theta_0, x[:, np.newaxis], phi_0, y, param_dict=param_dict)
        azimuth = simps(weight[:, np.newaxis] * brdf, y)
        return simps(azimuth, x)

    sol = NormBRDF * np.array([reflectance(theta_0) for theta_0 in np.deg2rad(incnum)])
'''))
ref("polarplot-params",
    ("plot.py", '''    if param_dict is None:
        param_dict = [{}]
    elif isinstance(param_dict, dict):
        param_dict = [param_dict]
''', '''    param_dict = param_dict if param_dict is not None else {}
    if isinstance(param_dict, dict):
        param_dict = [param_dict]
'''),
    ("plot.py", '''    for params in param_dict:
        missing = required_symbs - set(params)
        assert len(missing) == 0, (
            "Missing parameter definition! Please provide numerical values for the "
            f"variables {missing} in the `param_dict`!"
        )
''', '''    for params in param_dict:
        missing = required_symbs.difference(params)
        if missing:
            raise AssertionError(
                "Missing parameter definition! Please provide numerical values for the "
                f"variables {missing} in the `param_dict`!"
            )
'''))
ref("init-defaults-loop",
    (C, '''        self._bsf = "bsf"
        self._NormBRDF = "NormBRDF"
        self._tau = "tau"
        self._omega = "omega"
''', '''        vars(self).update({f"_{n}": n for n in ("bsf", "NormBRDF", "tau", "omega")})
'''),
    (C, '''        assert V is not None, "You must provide a volume scattering phase function!"
        self.V = V

        assert SRF is not None, "You must provide a BRDF!"
        self.SRF = SRF

        self.int_Q = int_Q

        self.fn_input = fn_input
        self.fnevals_input = fnevals_input

        self.sig0 = sig0
        self.dB = dB

        self.I0 = I0
''', '''        assert V is not None, "You must provide a volume scattering phase function!"
        assert SRF is not None, "You must provide a BRDF!"

        self.V, self.SRF = V, SRF
        self.int_Q, self.sig0, self.dB, self.I0 = int_Q, sig0, dB, I0
        self.fn_input, self.fnevals_input = fn_input, fnevals_input
'''))
ref("param-descriptor",
    (C, "class RT1(object):\n", '''class _Param:
    """Descriptor for the parameters that can be functions of other parameters."""

    def __init__(self, doc):
        self.__doc__ = doc

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, objtype=None):
        if obj is None:
            return self
        return obj._eval_param(self.name)

    def __set__(self, obj, value):
        obj._clear_param_cache()
        setattr(obj, "_" + self.name, value)


class RT1(object):
'''),
    (C, _re.compile(r'    @property\n    def NormBRDF\(self\):.*?        self\._bsf = value\n', _re.S),
     '''    NormBRDF = _Param("Normalization factor for the surface BRDF.")
    tau = _Param("Optical depth of the volume scattering layer.")
    omega = _Param("Single scattering albedo of the volume scattering layer.")
    bsf = _Param("Fraction of bare-soil (e.g. no attenuation due to vegetation).")
'''))
ref("eval-param-checks-first",
    (C, _re.compile(r'        func = self\._get_param_funcs\(param\)\n\n        if func is not None:\n.*?            return getattr\(self, f"_\{param\}"\)\n', _re.S),
     '''        definition = getattr(self, f"_{param}")
        func = self._get_param_funcs(param)
        if func is None:
            return definition

        params = self._get_param_symbs(param)
        missing = {key for key in params if key not in self.param_dict}
        if missing:
            raise TypeError(
                "Missing specification for the parameters "
                f"{missing} to compute the value of '{param} = {definition}'."
            )
        return func(**{key: self.param_dict[key] for key in params})
'''))
ref("jacobian-norm-method",
    (C, '''        if self.sig0 is True and self.dB is False:
            norm = 4.0 * np.pi * self._mu_0 / self.I0
        elif self.dB is True:
            norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
        else:
            norm = 1.0
''', '''        norm = self._jacobian_norm()
'''),
    (C, '''    def jacobian(self, param_list=''', '''    def _jacobian_norm(self):
        # outer derivative of the conversion to the selected units
        if self.dB is True:
            total = self._surface() + self._volume()
            return 10.0 / np.log(10.0) / total
        if self.sig0 is True:
            return 4.0 * np.pi * self._mu_0 / self.I0
        return 1.0

    def jacobian(self, param_list='''))
ref("lambdify-class",
    ("helpers.py", '''        var_names = list(map(str, variables))

        def lambda_func(*args, **kwargs):
            # allow similar call signature as sympy functions
            # (e.g. both args and kwargs)
            return seng_lambda_func(
                *np.broadcast_arrays(
                    *args, *(kwargs[key] for key in var_names[len(args) :])
                )
            )
''', '''        lambda_func = _SymengineFunction(seng_lambda_func, map(str, variables))
'''),
    ("helpers.py", '''def _lambdify(variables, functions):
''', '''class _SymengineFunction:
    """Callable with a similar call signature as sympy functions (args and kwargs)."""

    def __init__(self, func, names):
        self.func = func
        self.names = list(names)

    def __call__(self, *args, **kwargs):
        args = list(args)
        args.extend(kwargs[name] for name in self.names[len(args) :])
        return self.func(*np.broadcast_arrays(*args))


def _lambdify(variables, functions):
'''))
