# -- C17
mut("C17", 0, "_calc.py", ("        ret = val * signorm\n", "        ret = val\n        ret *= signorm\n"))
mut("C17", 1, "_calc.py", ("np.atleast_1d(value)\n", "np.deg2rad(value, out=np.atleast_1d(value))\n"))
mut("C17", 1, "_calc.py", ("        jac = []\n        for key in param_list:", "        jac = []\n        param_list.sort()\n        for key in param_list:"))
mut("C17", 1, "_scatter.py", ("        func = self._lambda_func(*param_dict.keys())\n", "        func = self._lambda_func(*param_dict.keys())\n        param_dict.setdefault('x', 1)\n"))
mut("C17", 1, "_scatter.py", ("        for w, o in choices:\n", "        choices.reverse()\n        for w, o in choices:\n"))
mut("C17", 1, "plot.py", ("    if param_dict is None:\n        param_dict = [{}]\n", "    inc.sort()\n    if param_dict is None:\n        param_dict = [{}]\n"))
mut("C17", 1, "_calc.py", ("        mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])\n        return mux\n\n    @property\n    @lru_cache()\n    def _mu_ex_x", "        mu = self._mu_0\n        mux = []\n        for n in range(nmax):\n            mux.append(np.array(mu))\n            mu *= self._mu_0\n        return np.array(mux)\n\n    @property\n    @lru_cache()\n    def _mu_ex_x"))
mut("C17", 1, "_calc.py", ("        self.update_params(**params)\n\n        return self._convert_sig0_db(self._surface())", "        self.update_params(**params)\n        if self.dB is False and self.sig0 is False and not self._fixed_angles:\n            if getattr(self, '_last', None) is None:\n                self._last = self._surface()\n            return self._last\n        return self._convert_sig0_db(self._surface())"))
mut("C17", 0, "_calc.py", ("        ret = val * signorm\n", "        ret = np.array(val)\n        ret = ret * signorm\n"))
mut("C17", 0, "_calc.py", ("        jac = []\n        for key in param_list:", "        jac = []\n        param_list = list(param_list)\n        for key in param_list:"))
# -- C23
mut("C23", 1, "__init__.py", ("    assert lambda_backend in [\n        \"sympy\",\n        \"symengine\",\n    ], f\"Lambda backend {lambda_backend} is not defined!\"\n    _init_lambda_backend = lambda_backend\n", "    _init_lambda_backend = lambda_backend\n    assert lambda_backend in [\n        \"sympy\",\n        \"symengine\",\n    ], f\"Lambda backend {lambda_backend} is not defined!\"\n"))
mut("C23", 1, "__init__.py", ("    assert lambda_backend in [\n        \"sympy\",\n        \"symengine\",\n    ]", "    assert lambda_backend in \"sympy, symengine\""))
mut("C23", 1, "__init__.py", ("    _init_lambda_backend = lambda_backend\n", "    _init_lambda_backend = lambda_backend.lower()\n"), ("assert lambda_backend in", "assert lambda_backend.lower() in"))
mut("C23", 1, "helpers.py", ("def _lambdify(variables, functions):", "def _lambdify(variables, functions, lambda_backend=get_lambda_backend()):"), ("backend = get_lambda_backend() if len(var)", "backend = lambda_backend if len(var)"))
mut("C23", 1, "helpers.py", ("*args, *(kwargs[key] for key in var_names[len(args) :])", "*args, *kwargs.values()"))
mut("C23", 1, "_calc.py", ("        backend = get_lambda_backend()\n        if backend == \"symengine\":\n            return seng", "        backend = _BACK\n        if backend == \"symengine\":\n            return seng"), ("class RT1(object):", "_BACK = get_lambda_backend()\n\n\nclass RT1(object):"))
mut("C23", 0, "__init__.py", ("    assert lambda_backend in [\n        \"sympy\",\n        \"symengine\",\n    ], f\"Lambda backend {lambda_backend} is not defined!\"\n", "    if lambda_backend != \"sympy\" and not lambda_backend == \"symengine\":\n        raise ValueError(f\"Lambda backend {lambda_backend} is not defined!\")\n"))
mut("C23", 0, "helpers.py", ("    elif backend == \"sympy\":\n", "    elif backend == \"sympy\" or len(var) == 0:\n"))
# -- C24
mut("C24", 1, "_scatter.py", ("import sympy as sp\n", "import sympy as sp\nimport symengine\n"))
mut("C24", 1, "_calc.py", ("if get_lambda_backend() == \"symengine\":\n    # use symengine to perform series-expansions\n    from symengine import expand as seng_expand\n", "from symengine import expand as seng_expand\n"))
mut("C24", 1, "helpers.py", ("    if backend == \"symengine\":\n        from symengine import Lambdify\n", "    from symengine import Lambdify\n\n    if backend == \"symengine\":\n"))
mut("C24", 1, "surface.py", ("import sympy as sp\n", "import sympy as sp\nfrom matplotlib import cm\n"))
mut("C24", 1, "__init__.py", ("from . import surface\n", "from . import surface\nfrom . import plot\n"))
mut("C24", 1, "_calc.py", ("        self.update_params(**params)\n\n        return self._convert_sig0_db(self._surface())", "        import pandas\n        self.update_params(**params)\n\n        return self._convert_sig0_db(self._surface())"), ("from itertools import chain\n", "from itertools import chain\n"), ("            *map(np.shape, (val, *self", "            *map(np.shape, (val, *self")) if False else None
mut("C24", 1, "_calc.py", ("    def _expand(self, *args, **kwargs):\n", "    def _expand(self, *args, **kwargs):\n        import matplotlib\n"))
mut("C24", 1, "_calc.py", ("        jac = []\n        for key in param_list:", "        import pandas\n        jac = []\n        for key in param_list:"))
mut("C24", 0, "_calc.py", ("        jac = []\n        for key in param_list:", "        try:\n            import pandas\n        except ImportError:\n            pandas = None\n        jac = []\n        for key in param_list:"))
# -- C25
mut("C25", 1, "_calc.py", ("state = self.__dict__.copy()", "state = self.__dict__"))
mut("C25", 1, "_calc.py", ("[\"_fn_\", \"_fnevals_\", \"_fn_ex_\", \"_fnevals_ex_\"]:\n            state", "[\"_fn_\", \"_fnevals_\", \"_fn_ex_\"]:\n            state"))
mut("C25", 0, "_calc.py", ("            state[Nonekey] = None\n", "            state.pop(Nonekey, None)\n"))
mut("C25", 1, "_calc.py", ("            state[Nonekey] = None\n", "            state[Nonekey] = None\n        state['_param_dict'] = dict(bsf=0)\n"))
mut("C25", 1, "_calc.py", ("            state[Nonekey] = None\n", "            state[Nonekey] = None\n        state['sig0'] = True\n"))
mut("C25", 1, "_calc.py", ("            state[Nonekey] = None\n", "            state[Nonekey] = None\n            setattr(self, Nonekey, None)\n        self._fixed_angles.clear()\n"))
mut("C25", 0, "_calc.py", ("            state[Nonekey] = None\n", "            state.update({Nonekey: None})\n"))
# -- C26
mut("C26", 1, "helpers.py", ("key in (\"N\", \"S\", \"Q\", \"O\")", "key in (\"N\", \"S\")"))
mut("C26", 1, "helpers.py", ("        return sp.parse_expr(val, local_dict=_local_variable_symbols)", "        return sp.parse_expr(val)"))
mut("C26", 1, "helpers.py", ("        return sp.parse_expr(val, local_dict=_local_variable_symbols)", "        return sp.sympify(val)"))
mut("C26", 1, "_scatter.py", ("            self._weights.append(_parse_sympy_param(w))", "            self._weights.append(sp.sympify(w))"))
mut("C26", 1, "helpers.py", ("        return sp.parse_expr(val, local_dict=_local_variable_symbols)", "        sp.var(val.split()[0])\n        return sp.parse_expr(val, local_dict=_local_variable_symbols)"))
mut("C26", 0, "helpers.py", ("        return sp.parse_expr(val, local_dict=_local_variable_symbols)", "        return sp.parse_expr(val, local_dict=dict(_local_variable_symbols))"))
# -- C31
mut("C31", 1, "__init__.py", ("@lru_cache()\ndef _ensure", "def _ensure"))
mut("C31", 1, "__init__.py", ("        level = level.upper()\n", "        pass\n"))
mut("C31", 1, "__init__.py", ("    _ensure_handler().setLevel(level)\n", "    _ensure_handler()\n"))
mut("C31", 1, "__init__.py", ("    _log.addHandler(handler)", "    _logging.getLogger().addHandler(handler)"))
mut("C31", 1, "__init__.py", ("_log.setLevel(_logging.WARNING)", "_logging.getLogger().setLevel(_logging.WARNING)"))
mut("C31", 1, "__init__.py", ("_set_logfmt(*_log_format_presets.get(fmt, (fmt,)))", "_set_logfmt(*_log_format_presets.get(fmt, _log_format_presets['timed']))"))
mut("C31", 1, "__init__.py", ("    \"plain\": (\"%(message)s\", None),", "    \"plain\": (\"%(levelname)s %(message)s\", None),"))
mut("C31", 1, "__init__.py", ("    _ensure_handler().setLevel(level)\n\n    if fmt is not None:", "    _ensure_handler().setLevel(level)\n\n    if fmt in _log_format_presets:"))
mut("C31", 0, "__init__.py", ("    _log.setLevel(level)\n    _ensure_handler().setLevel(level)\n", "    handler = _ensure_handler()\n    for obj in (handler, _log):\n        obj.setLevel(level)\n"))
# -- C32
mut("C32", 1, "helpers.py", ("        except Exception:\n            _log", "        except TypeError:\n            _log"))
mut("C32", 1, "helpers.py", ("            )\n        return decorated_f\n", "            )\n            return None\n        return decorated_f\n"))
mut("C32", 1, "helpers.py", ("                    if not old_p:\n", "                    if old_p:\n                        comb[\"Parameters\"] = [\n                            i for i in comb[\"Parameters\"] if i.name != p.name\n                        ] + [p]\n                    else:\n"))
mut("C32", 1, "helpers.py", ("            for f in funcs:\n                if not f.__doc__:", "            for f in funcs:\n                f.__doc__ = f.__doc__ or \"\"\n                if not f.__doc__:"))
mut("C32", 1, "helpers.py", ("                    if not old_p:\n", "                    if not old_p or True:\n"))
mut("C32", 1, "helpers.py", ("            decorated_f.__doc__ = str(comb)\n        except Exception:", "        except Exception:"), ("        return decorated_f\n", "            return decorated_f\n        decorated_f.__doc__ = str(comb)\n        return decorated_f\n"))
mut("C32", 0, "helpers.py", ("old_p = any(i for i in comb[\"Parameters\"] if i.name == p.name)", "old_p = p.name in [i.name for i in comb[\"Parameters\"]]"))
# -- C28
mut("C28", 1, "plot.py", ("                np.sin(theta_s)\n                * np.cos(theta_s)", "                np.cos(theta_s)"))
mut("C28", 1, "plot.py", ("x = np.linspace(0.0, np.pi / 2.0, simps_N)", "x = np.linspace(0.0, np.pi, simps_N)"))
mut("C28", 1, "plot.py", ("simps(simps(z, y), x)", "simps(simps(z, x), y)"))
mut("C28", 1, "plot.py", ("integfunkt(x[:, None], y)", "integfunkt(x, y[:, None])"))
mut("C28", 1, "plot.py", ("BRDF(theta_0, theta_s, phi_0, phi_s, param", "BRDF(theta_0, theta_s, phi_s, phi_0, param"))
mut("C28", 1, "plot.py", ("for theta_0 in np.deg2rad(incnum)", "for theta_0 in incnum"))
mut("C28", 1, "plot.py", ("np.any(sol > 1.0)", "np.all(sol > 1.0)"))
mut("C28", 1, "plot.py", ("np.any(sol > 1.0)", "np.any(sol < 1.0)"))
mut("C28", 1, "plot.py", ('param_dict.get("NormBRDF", 1)', '1'))
mut("C28", 1, "plot.py", ("np.arange(t_0_min, t_0_max, t_0_step)", "np.arange(t_0_min, t_0_max + t_0_step, t_0_step)"))
mut("C28", 1, "plot.py", ("y = np.linspace(0.0, 2 * np.pi, simps_N)", "y = np.linspace(0.0, 2 * np.pi, simps_N, endpoint=False)"))
mut("C28", 0, "plot.py", ("simps(simps(z, y), x)", "simps(simps(z, x=y, axis=1), x=x, axis=0)"))
mut("C28", 0, "plot.py", ("        z = integfunkt(x[:, None], y)\n        sol = sol + [simps(simps(z, y), x)]", "        z = integfunkt(x[np.newaxis, :], y[:, np.newaxis])\n        sol.append(simps(simps(z, x), y))"))
mut("C28", 0, "plot.py", ("from scipy.integrate import simps\n", "from scipy import integrate\n"), ("        z = integfunkt(x[:, None], y)\n        sol = sol + [simps(simps(z, y), x)]", "        def fun(p, t):\n            return integfunkt(t, p)\n        sol.append(integrate.dblquad(fun, 0, np.pi / 2, 0, 2 * np.pi)[0])"))
mut("C28", 0, "plot.py", ("        z = integfunkt(x[:, None], y)\n", "        xx, yy = np.meshgrid(x, y, indexing='ij')\n        z = integfunkt(xx, yy)\n"))
mut("C28", 1, "plot.py", ("        z = integfunkt(x[:, None], y)\n", "        xx, yy = np.meshgrid(x, y)\n        z = integfunkt(xx, yy)\n"))
mut("C28", 0, "plot.py", ("    if np.any(sol > 1.0):", "    if (sol > 1.0).any():"))
mut("C28", 0, "plot.py", ("    if np.any(sol > 1.0):", "    if np.max(sol) > 1.0:"))
# -- C29
mut("C29", 1, "plot.py", ("rad = V_SRF.calc(ti, thetass, 0.0, 0.0, param_dict=params)", "rad = V_SRF.calc(ti, thetass, 0.0, np.pi, param_dict=params)"))
mut("C29", 1, "plot.py", ("plottis = np.deg2rad(inc)", "plottis = inc"))
mut("C29", 1, "plot.py", ("phasefunktapprox(ti, thetass, 0.0, 0.0, **params)", "phasefunktapprox(thetass, ti, 0.0, 0.0, **params)"), ('angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]', 'angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]'), ("thetass = np.arange(0.0, 2.0", "thetass = np.arange(0.0, 2.0")) if False else None
mut("C29", 1, "plot.py", ("[*angs, *params.keys()], [V_SRF", "[*angs, *param_dict[0].keys()], [V_SRF"), ("phasefunktapprox(ti, thetass, 0.0, 0.0, **params)", "phasefunktapprox(ti, thetass, 0.0, 0.0, **param_dict[0])"))
mut("C29", 1, "plot.py", ("    for params in param_dict:\n        missing = required_symbs - set(params)\n", "    for params in param_dict[:1]:\n        missing = required_symbs - set(params)\n"))
mut("C29", 1, "plot.py", ("            aprox = False\n\n    assert isinstance(inc, list)", "            return\n\n    assert isinstance(inc, list)"))
mut("C29", 1, "plot.py", ('    if ax is None:\n        fig = plt.figure(figsize=(7, 7))', '    if ax is None and len(param_dict) > 1:\n        param_dict = param_dict[:1]\n    if ax is None:\n        fig = plt.figure(figsize=(7, 7))'))
mut("C29", 1, "plot.py", ("    # Check if all required parameters have been provided in the param_dict\n", "    if ax is None:\n        fig = plt.figure(figsize=(7, 7))\n        ax = fig.add_subplot(111, projection='polar')\n    # Check if all required parameters have been provided in the param_dict\n"))
mut("C29", 1, "plot.py", ("            for ti in plottis:\n                color = next(colors)\n                used_colors.append(color)\n", "            for n_t, ti in enumerate(plottis):\n                color = next(colors)\n                used_colors.append(color)\n                aprox = aprox and n_t == 0\n"))
mut("C29", 0, "plot.py", ("                ax.plot(thetass, rad, color)\n                if aprox is True:\n                    ax.plot(thetass, radapprox, color + \"--\")\n", "                if aprox is True:\n                    ax.plot(thetass, radapprox, color=color, ls=\"--\")\n                ax.plot(thetass, rad, color=color)\n"))
mut("C29", 0, "plot.py", ("thetass = np.arange(0.0, 2.0 * np.pi, 0.01)", "thetass = np.deg2rad(np.linspace(0, 360, 500))"))
mut("C29", 0, "plot.py", ("    for params in param_dict:\n        missing = required_symbs - set(params)\n        assert len(missing) == 0, (\n", "    for params in param_dict:\n        missing = {s for s in required_symbs if s not in params}\n        assert not missing, (\n"))
# -- C30
mut("C30", 1, "plot.py", ('(p["valmax"] + p["valmin"]) / 2', '(p["valmax"] - p["valmin"]) / 2'))
mut("C30", 1, "plot.py", ('["valmin", "valmax", "valinit", "label"]', '["valmin", "valmax", "label", "valinit"]'))
mut("C30", 1, "plot.py", ('        try:\n            if "i" in self._contributions:\n                self.R.int_Q = True\n            else:\n                self.R.int_Q = False\n            yield\n        finally:\n            self.R.int_Q = init_int_q', '        if "i" in self._contributions:\n            self.R.int_Q = True\n        else:\n            self.R.int_Q = False\n        yield\n        self.R.int_Q = init_int_q'))
mut("C30", 1, "plot.py", ('        finally:\n            self.R.int_Q = init_int_q', '        finally:\n            self.R.int_Q = True'))
mut("C30", 0, "plot.py", ("really_missing = ignored_params - set(R.param_dict)", "really_missing = ignored_params - set(R.param_dict) - {'omega'}"))
mut("C30", 1, "plot.py", ("        *R._all_param_symbs,\n", "        'tau', 'omega', 'NormBRDF', 'bsf',\n"))
mut("C30", 1, "plot.py", ("        startvals = {key: s.val for key, s in self.sliders.items()}\n        self.R.update_params", "        startvals = {key: s.valinit for key, s in self.sliders.items()}\n        self.R.update_params"))
mut("C30", 1, "plot.py", ("t_0=np.full_like(self.R.t_ex, np.deg2rad(inc)),", "t_0=np.full_like(self.R.t_ex, inc),"))
mut("C30", 1, "plot.py", ("            for l, c in zip(self._lines, contribs):\n", "            for l, c in zip(self._lines, contribs[::-1]):\n")) if False else None
mut("C30", 1, "plot.py", ('            p.setdefault("label", key)\n', '            p["label"] = key\n'))
mut("C30", 1, "plot.py", ("        z = res * np.cos(self.R.t_ex)\n        return x, y, z", "        z = res * np.cos(self.R.t_0)\n        return x, y, z"))
mut("C30", 0, "plot.py", ('            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))\n\n            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)\n            p.setdefault("label", key)\n', '            lo, hi, *rest = val\n            p = dict(valmin=lo, valmax=hi)\n            p["valinit"] = rest[0] if rest else 0.5 * (lo + hi)\n            p["label"] = rest[1] if len(rest) > 1 else key\n'))
mut("C30", 0, "plot.py", ('        with self._cx_set_intq():\n            res = self.R.calc()\n', '        init = self.R.int_Q\n        try:\n            self.R.int_Q = "i" in self._contributions\n            res = self.R.calc()\n        finally:\n            self.R.int_Q = init\n'))
mut("C30", 0, "plot.py", ("            for l, c in zip(self._lines, contribs):\n                l.set_ydata(c)\n", "            for k in range(len(contribs)):\n                self._lines[k].set_data(self._t0, contribs[k])\n"))
# -- C27
mut("C27", 1, "_scatter.py", ("return res if np.shape(res) == shape else np.full(shape, res)", "return res"))
mut("C27", 0, "_scatter.py", ("(res, t_0, t_ex, p_0, p_ex, *param_dict.values())", "(res, t_0, t_ex, p_0, p_ex)"))
mut("C27", 1, "_scatter.py", ("(res, t_0, t_ex, p_0, p_ex, *param_dict.values())", "(res, t_0, t_ex)"))
mut("C27", 0, "_calc.py", ("np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)", "(Isurf + Ivol, Isurf, Ivol)"))
mut("C27", 1, "_calc.py", ("return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))", "return np.einsum('i...,i...,i...->...', fn, mu_x, S2) if np.shape(fn) == np.shape(S2) else np.sum(np.asarray(fn) * np.asarray(mu_x) * np.asarray(S2).T, axis=0)"))
mut("C27", 0, "_calc.py", ("return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))", "ret = 0.0\n        for i in range(len(fn)):\n            ret = ret + fn[i] * mu_x[i] * S2[i]\n        return ret"))
mut("C27", 0, "_scatter.py", ("        shape = np.broadcast_shapes(\n            *map(np.shape, (res, t_0, t_ex, p_0, p_ex, *param_dict.values()))\n        )\n        return res if np.shape(res) == shape else np.full(shape, res)", "        return np.broadcast_arrays(res, t_0, t_ex, p_0, p_ex, *param_dict.values())[0]"))
mut("C27", 0, "_scatter.py", ("        shape = np.broadcast_shapes(\n            *map(np.shape, (res, t_0, t_ex, p_0, p_ex, *param_dict.values()))\n        )\n        return res if np.shape(res) == shape else np.full(shape, res)", "        return np.broadcast_to(res, np.broadcast(t_0, t_ex, p_0, p_ex, *param_dict.values()).shape)"))
mut("C27", 0, "_scatter.py", ("        return res if np.shape(res) == shape else np.full(shape, res)", "        if np.shape(res) != shape:\n            res = res + np.zeros(shape)\n        return res"))
mut("C27", 1, "_calc.py", ("np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)", "(Isurf + Ivol + Iint, Isurf, Ivol, Iint)"))
mut("C27", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.all(mu == 1.0)"))
# -- C33
mut("C33", 1, "_calc.py", ("        Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)\n", ""))
mut("C33", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.equal(mu, 2.0)"))
mut("C33", 0, "_calc.py", ("mu_off = np.where(nadir, 0.5, mu)", "mu_off = mu"))
mut("C33", 1, "_calc.py", ("(self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))\n            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))\n            * self.V.calc(\n                self.t_0,\n                self.t_ex,\n                self.p_0,\n                self.p_ex,\n                param_dict=self.param_dict,\n            )\n        )\n\n        return (1.0 - self.bsf) * vol", "(self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))\n            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))\n            * self.V.calc(\n                self.t_0,\n                self.t_ex,\n                self.p_0,\n                self.p_ex,\n                param_dict=self.param_dict,\n            )\n        )\n\n        return vol / (1.0 / (1.0 - self.bsf))"))
mut("C33", 1, "_calc.py", ("(self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))", "(self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex) * (self._mu_0 - self._mu_ex + 0.5 - self._mu_0) / (0.5 - self._mu_ex))"))
mut("C33", 0, "_calc.py", ("(self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))", "(self.I0 * self.omega / (1.0 + self._mu_ex / self._mu_0))"))
mut("C33", 0, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = mu >= 1.0"))
mut("C33", 0, "_calc.py", ("np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "np.where(self.tau > 0.0, Iint, 0.0)"))
mut("C33", 1, "_calc.py", ("np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "Iint * (self.tau > 0)"))
mut("C33", 1, "surface.py", ("* (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)\n                ** 1.5\n            )\n        )\n\n        return func", "* (self.t**2.0 * (1.0 + self.t**-2.0) - 2.0 * self.t * self.scattering_angle_symbolic)\n                ** 1.5\n            )\n        )\n\n        return func"))
mut("C33", 1, "volume.py", ("/ (2.0 + self.t**2)\n                * (1 + self", "/ (sp.sqrt(self.t) + 2 - sp.sqrt(self.t) + self.t**2 + sp.log(self.t**2) - 2 * sp.log(sp.sqrt(self.t**2)))\n                * (1 + self"))
mut("C33", 1, "volume.py", ("* (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)\n            ** 1.5", "* (1.0 + self.t**2.0 - 2.2 * self.t * self.scattering_angle_symbolic)\n            ** 1.5"))
# -- in-place semantics and blocks of the sparse layout
mut("C09", 1, "_calc.py", ('block_diag(j.tolist(), "csr")', 'block_diag(j, "csr")'))
mut("C09", 0, "_calc.py", ('block_diag(j.tolist(), "csr")', 'block_diag([np.atleast_2d(row) for row in j], "csr")'))
mut("C02", 1, "_calc.py", ("        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n", "        Isurf = I_bs\n        Isurf *= np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))\n"))
mut("C02", 0, "_calc.py", ("        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n", "        Isurf = np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))\n        Isurf = Isurf * I_bs\n"))
mut("C27", 1, "_calc.py", ("        return self.NormBRDF * (1.0 - self.bsf) * Iint\n", "        Iint *= self.NormBRDF * (1.0 - self.bsf)\n        return Iint\n"))
# -- further constructs (numpy helpers, dictionaries, try/except, helper classes)
_SURF = "        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n\n        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)\n"
mut("C02", 1, "_calc.py", (_SURF, "        mu = np.minimum(self._mu_0, self._mu_ex)\n        Isurf = np.exp(-2.0 * self.tau / mu) * I_bs\n\n        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)\n"))
mut("C02", 0, "_calc.py", (_SURF, "        gamma2 = np.exp(-self.tau * np.add(1.0 / self._mu_0, np.reciprocal(self._mu_ex)))\n        frac = dict(bare=self.bsf, veg=1.0 - self.bsf)\n        return self.NormBRDF * I_bs * (frac['veg'] * gamma2 + frac['bare'])\n"))
mut("C02", 1, "_calc.py", (_SURF, "        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n        bsf = np.clip(self.bsf, 0.0, 0.9)\n        return self.NormBRDF * ((1.0 - bsf) * Isurf + bsf * I_bs)\n"))
mut("C02", 1, "_calc.py", (_SURF, "        Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs\n        return self.NormBRDF * np.where(self.bsf > 0.5, I_bs, Isurf)\n"))
_VOL = "            (self.I0 * self.omega * self._mu_0 / (self._mu_0 + self._mu_ex))\n            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))\n            * self.V.calc(\n                self.t_0,\n                self.t_ex,\n                self.p_0,\n                self.p_ex,\n                param_dict=self.param_dict,\n            )\n        )\n\n        return (1.0 - self.bsf) * vol\n"
mut("C03", 1, "_calc.py", (_VOL, _VOL.replace("(1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))", "(1.0 - np.exp(-(np.maximum(self.tau, 1e-6) / self._mu_0) - (self.tau / self._mu_ex)))")))
mut("C03", 0, "_calc.py", (_VOL, _VOL.replace("(1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))", "-np.expm1(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))")))
mut("C03", 1, "_calc.py", (_VOL, _VOL.replace("(1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))", "(-np.expm1(-(self.tau / self._mu_0)) - np.exp(-(self.tau / self._mu_ex)))")))
mut("C03", 1, "_calc.py", (_VOL, _VOL.replace("self.omega *", "np.minimum(self.omega, 0.99) *")))
mut("C03", 1, "_calc.py", (_VOL, _VOL.replace("(self._mu_0 + self._mu_ex))\n", "np.hypot(self._mu_0, self._mu_ex))\n")))
mut("C04", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.isclose(mu, 1.0)"))
mut("C04", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.abs(mu - 1.0) < 1e-3"))
mut("C04", 1, "_calc.py", ("range(1, (n + 1) + 1)) for n in range(nmax)]", "range(1, min(n + 1, 8) + 1)) for n in range(nmax)]"))
mut("C04", 0, "_calc.py", ("            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]\n", "            list(accumulate(innerfunc(k) for k in range(1, nmax + 1)))\n"), ("from itertools import chain\n", "from itertools import accumulate, chain\n"))
mut("C04", 0, "_calc.py", ("        S2 = np.array(\n            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]\n        )\n", "        S2 = np.cumsum([innerfunc(k + 1) for k in range(nmax)], axis=0)\n"))
mut("C04", 1, "_calc.py", ("        S2 = np.array(\n            [sum(innerfunc(k) for k in range(1, (n + 1) + 1)) for n in range(nmax)]\n        )\n", "        S2 = np.cumsum([innerfunc(max(k, 1)) for k in range(nmax)], axis=0)\n"))
mut("C05", 1, "_calc.py", ("            ret = 10.0 * np.log10(ret)\n", "            ret = 10.0 * np.log10(np.maximum(ret, 1e-10))\n"))
mut("C05", 0, "_calc.py", ("            ret = 10.0 * np.log10(ret)\n", "            ret = 10.0 * np.log(ret) / np.log(10.0)\n"))
mut("C05", 1, "_calc.py", ("            ret = 10.0 * np.log10(ret)\n", "            ret = 10.0 * np.log1p(ret) / np.log(10.0)\n"))
mut("C05", 1, "_calc.py", ("        ret = val * signorm\n", "        ret = val * signorm if np.max(self.t_0) > 0.01 else val * (4.0 * np.pi)\n"))
mut("C06", 1, "_calc.py", ("np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "np.where(np.all(np.equal(self.tau, 0.0)), 0.0, Iint)"))
mut("C06", 1, "_calc.py", ("np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "np.where(self.tau is 0.0, 0.0, Iint)"))
mut("C06", 0, "_calc.py", ("        Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)\n", "        Iint = np.asarray(Iint).copy()\n        mask = np.broadcast_to(np.asarray(self.tau) == 0, Iint.shape)\n        Iint[mask] = 0.0\n"))
mut("C04", 1, "_calc.py", ("np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "np.where(self.tau > 1e-6, Iint, 0.0)"))
mut("C07", 1, "_calc.py", ("norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))", "norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume() + (self._interaction() if self.int_Q else 0.0)))"))
mut("C07", 0, "_calc.py", ("norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))", "norm = 10.0 * np.log10(np.e) / np.add(self._surface(), self._volume())"))
mut("C07", 1, "_calc.py", ("norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))", "norm = 10.0 / (np.log(10.0) * sum(map(np.mean, (self._surface(), self._volume()))))"))
mut("C08", 1, "_calc.py", ("                ret = ret + derivative() * inner\n", "                ret = ret + derivative() * inner\n                break\n"))
mut("C08", 1, "_calc.py", ("            if str(key) in self._get_param_symbs(param):\n", "            if str(key) in self._get_param_symbs(param)[:1]:\n"))
mut("C08", 1, "_calc.py", ("            if str(key) in self._get_param_symbs(param):\n", "            if self._get_param_symbs(param) == [str(key)]:\n"))
mut("C08", 0, "_calc.py", ("                ret = ret + derivative() * inner\n", "                ret += derivative() * inner\n"))
mut("C09", 1, "_calc.py", ("        for key in param_list:\n            if key == \"omega\":", "        for key in dict.fromkeys(param_list):\n            if key == \"omega\":"))
mut("C09", 1, "_calc.py", ("        for key in param_list:\n            if key == \"omega\":", "        for key in sorted(param_list):\n            if key == \"omega\":"))
mut("C10", 1, "_calc.py", ("            return self.p_0 + np.pi\n", "            return np.mod(self.p_0 + np.pi, 2.0 * np.pi)\n"))
mut("C10", 0, "_calc.py", ("            return self.p_0 + np.pi\n", "            return np.add(self.p_0, np.pi)\n"))
mut("C10", 1, "_calc.py", ("            return self.p_0 + np.pi\n", "            return getattr(self, '_p_ex', self.p_0 + np.pi)\n"))
mut("C11", 1, "_calc.py", ("            ang is None or isinstance(ang, (int, float, np.number)) for ang in angs\n", "            ang is None or np.isscalar(ang) for ang in angs\n"))
mut("C11", 1, "_calc.py", ("            ang is None or isinstance(ang, (int, float, np.number)) for ang in angs\n", "            ang is None or isinstance(ang, (int, float, complex)) or np.ndim(ang) == 0 for ang in angs\n"))
mut("C12", 1, "_calc.py", ("            self._fixed_angles\n            and not", "            self._fixed_angles & {'t_0', 't_ex'}\n            and not"))
mut("C12", 1, "_calc.py", ("            self._fixed_angles\n            and not", "            len(self._fixed_angles) > 1\n            and not"))
mut("C13", 1, "_calc.py", ("        if i % 2 == 0:\n            return (2 ** (-i)) * sp", "        if i % 2 == 0:\n            if i > 8:\n                return sp.sqrt(2 / (sp.pi * i)).evalf()\n            return (2 ** (-i)) * sp"))
mut("C13", 0, "_calc.py", ("        if i % 2 == 0:\n            return (2 ** (-i)) * sp", "        if i % 2 == 0:\n            return sp.factorial2(i - 1) / sp.factorial2(i)\n            return (2 ** (-i)) * sp"))
mut("C14", 1, "_calc.py", ("        self._clear_geom_cache()\n\n        for key, val in kwargs.items():", "        if 't_0' in kwargs:\n            self._clear_geom_cache()\n\n        for key, val in kwargs.items():"))
mut("C14", 1, "_calc.py", ("        self._clear_geom_cache()\n\n        for key, val in kwargs.items():", "        for key, val in kwargs.items():\n            if np.shape(val) != np.shape(getattr(self, f'_{key}', None)):\n                self._clear_geom_cache()\n"))
mut("C15", 1, "_calc.py", ("            symbs = list(map(str, expr.free_symbols))\n", "            symbs = [str(s) for s in expr.free_symbols if str(s) in self.param_dict]\n"))
mut("C15", 1, "_calc.py", ("            return getattr(self, f\"_{param}\")\n\n    # %% int", "            return self.param_dict.get(param, getattr(self, f\"_{param}\"))\n\n    # %% int"))
mut("C16", 1, "_calc.py", ("{key: np.atleast_1d(val) for key, val in kwargs.items()}", "{key: np.atleast_1d(np.asarray(val, dtype=np.float32)) for key, val in kwargs.items()}"))
mut("C16", 1, "_calc.py", ("{key: np.atleast_1d(val) for key, val in kwargs.items()}", "{key: np.atleast_1d(val) for key, val in kwargs.items() if np.any(val)}"))
mut("C16", 0, "_calc.py", ("{key: np.atleast_1d(val) for key, val in kwargs.items()}", "zip(kwargs, map(np.atleast_1d, kwargs.values()))"))
mut("C16", 1, "_calc.py", ("{key: np.atleast_1d(val) for key, val in kwargs.items()}", "{key: np.unique(val) for key, val in kwargs.items()}"))
mut("C16", 1, "_calc.py", ("{key: np.atleast_1d(val) for key, val in kwargs.items()}", "{key: np.round(np.atleast_1d(val), 6) for key, val in kwargs.items()}"))

# ---- wave 4
ANGLE = '''        return (
            a[0] * sp.cos(t_0) * sp.cos(t_ex)
            + a[1] * sp.sin(t_0) * sp.sin(t_ex) * sp.cos(p_0) * sp.cos(p_ex)'''
mut("C18 C04 C21", 0, "_scatter.py", (ANGLE, '''        if a[1] == a[2]:
            return a[0] * sp.cos(t_0) * sp.cos(t_ex) + a[1] * sp.sin(t_0) * sp.sin(
                t_ex) * sp.cos(p_0 - p_ex)
''' + ANGLE))
mut("C18", 1, "_scatter.py", (ANGLE, '''        if a[1] == a[2]:
            return a[0] * sp.cos(t_0) * sp.cos(t_ex) + a[1] * sp.sin(t_0) * sp.sin(
                t_ex) * sp.cos(p_0 + p_ex)
''' + ANGLE))
mut("C18", 1, "_scatter.py", (ANGLE, '''        if p_0 == p_ex:
            return a[0] * sp.cos(t_0) * sp.cos(t_ex) + sp.sin(t_0) * sp.sin(t_ex)
''' + ANGLE))
mut("C18", 1, "surface.py", ("self.a = [_parse_sympy_param(i) for i in a]", "self.a = [_parse_sympy_param(i) for i in a][:3]"))
mut("C18", 1, "volume.py", ("        if a is None:\n            a = getattr", "        if not a or not all(a):\n            a = getattr"))
mut("C18", 1, "volume.py", ("self.a = [_parse_sympy_param(i) for i in a]", "self.a = [_parse_sympy_param(i) for i in sorted(a, key=str)]"))
mut("C18", 1, "surface.py", ("self.a = [_parse_sympy_param(i) for i in a]", "self.a = [abs(_parse_sympy_param(i)) for i in a]"))
mut("C18 C22", 0, "surface.py", ("self.a = [_parse_sympy_param(i) for i in a]", "self.a = list(map(_parse_sympy_param, a))"))
mut("C18 C20", 0, "_scatter.py", ("func(t_0, t_ex, p_0, p_ex, **param_dict)", "func(t_0, t_ex, p_0, p_ex, *param_dict.values())"))
mut("C18", 1, "_scatter.py", ("func(t_0, t_ex, p_0, p_ex, **param_dict)", "func(t_0, t_ex, p_0, p_ex, *(param_dict[k] for k in sorted(param_dict)))"))
mut("C18", 0, "_scatter.py", ("self._lambda_func(*param_dict.keys())", "self._lambda_func(*sorted(param_dict))"))
mut("C18", 1, "_scatter.py", ("        return self.calc_scattering_angle(theta_0, theta_ex, phi_0, phi_ex, self.a)", "        return self.calc_scattering_angle(theta_0, theta_ex, phi_ex, phi_0, [self.a[0], self.a[2], self.a[1]])"))
mut("C18 C14", 1, "_scatter.py", ('''    @lru_cache()
    def _lambda_func(self, *args):
''', '''    def _lambda_func(self, *args):
        return self._compiled(type(self), tuple(self.a), *args)(self)

    @staticmethod
    @lru_cache()
    def _compiled(cls, a, *args):
        store = {}

        def get(obj):
            if "f" not in store:
                store["f"] = obj._make_func(*args)
            return store["f"]

        return get

    def _make_func(self, *args):
'''))
# C19
mut("C19", 1, "surface.py", ("self.scattering_angle_symbolic**self.i\n            * (1.0 + sp.sign(self.scattering_angle_symbolic))\n            / 2.0", "sp.Max(0, self.scattering_angle_symbolic)**self.i"))
mut("C19", 0, "surface.py", ("            * (1.0 + sp.sign(self.scattering_angle_symbolic))\n            / 2.0", "            * sp.Heaviside(self.scattering_angle_symbolic)"))
mut("C19 C21 C04", 0, "surface.py", ("return (1.0 / sp.pi) * sp.KroneckerDelta(0, n)", "return sp.Piecewise((1.0 / sp.pi, sp.Eq(n, 0)), (0, True))"))
mut("C19", 1, "surface.py", ("                / (\n                    sp.gamma((2 - n + self.i)", "                * (1 + (-1) ** (n + self.i))\n                / 2\n                / (\n                    sp.gamma((2 - n + self.i)"))
mut("C19", 1, "volume.py", ("* self.t ** (n + 2.0)\n                    + (n + 1.0) ** 2.0 / (2.0 * n + 3.0) * self.t**n\n                    + (5.0 * n**2.0 - 1.0) / (2.0 * n - 1.0) * self.t**n\n                ),\n                n < 2,", "* self.t ** (n + 2.0)\n                    + (n + 1.0) ** 2.0 / (2.0 * n + 3.0) * self.t**n\n                    + (5.0 * n**2.0 - 1.0) / (2.0 * n - 1.0) * self.t**n\n                ),\n                n < 3,"))
mut("C19", 0, "volume.py", ("                n < 2,\n", "                sp.Or(sp.Eq(n, 0), sp.Eq(n, 1)),\n"))
mut("C19", 1, "surface.py", ("* (2.0 * n + 1) * self.t**n\n\n\n", "* (2.0 * n + 1) * self.t ** (n * sp.sign(self.t) ** 2)\n\n\n"), )
# C20
mut("C20", 1, "volume.py", ("return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)", "return 3.0 / (8.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)"), ("(3.0 / (16.0 * sp.pi))", "(3.0 / (8.0 * sp.pi))"))
mut("C19", 0, "volume.py", ("return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)", "return 3.0 / (8.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)"), ("(3.0 / (16.0 * sp.pi))", "(3.0 / (8.0 * sp.pi))"))
mut("C20", 1, "surface.py", ("                    - self.t * (-self.t + self.a[0])\n", "                    - self.t * (self.a[0] - sp.Abs(self.t))\n"))
# C21
mut("C21", 1, "_scatter.py", ("(n, 0, self.ncoefs - 1),", "(n, 0, max(self.ncoefs - 1, 1)),"))
mut("C21", 1, "volume.py", ("        return 3\n", "        return self._ncoefs or 3\n"))
mut("C21", 1, "_scatter.py", ("        assert self.ncoefs > 0\n\n        n = sp.Symbol(\"n\")", "        assert self.ncoefs > 0\n\n        n = sp.Symbol(\"n\", integer=True)"))
mut("C21 C04 C13", 0, "_scatter.py", ('''        return sp.Sum(
            self.legendre_coefficients
            * sp.legendre(n, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)),
            (n, 0, self.ncoefs - 1),
        )''', '''        coefs = self.legendre_coefficients
        cos_angle = self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)
        return sp.Add(*(
            coefs.subs(n, k) * sp.legendre(k, cos_angle) for k in range(self.ncoefs)
        ))'''))
mut("C21", 0, "_scatter.py", ("* sp.legendre(n, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)),\n            (n, 0, self.ncoefs - 1),", "* sp.assoc_legendre(n, 0, self.calc_scattering_angle(t_0, t_ex, p_0, p_ex, self.a)),\n            (n, 0, self.ncoefs - 1),"))
mut("C21", 1, "_scatter.py", ("        if self._ncoefs is None:\n            raise AttributeError(", "        if self._ncoefs is None:\n            if getattr(self, 't', None) is not None and not isinstance(self.t, sp.Basic):\n                return 10\n            raise AttributeError("))
# C22
mut("C22", 0, "_scatter.py", ('''        func = 0
        for c, o in zip(self._weights, self._objs):
            func += c * o.phase_function

        return func''', '''        return sp.Add(*[c * o.phase_function for c, o in zip(self._weights, self._objs)])'''))
mut("C22", 0, "_scatter.py", ("            ncoefs = max(i[1].ncoefs for i in choices)", "            ncoefs = self.ncoefs"))
mut("C22", 1, "_scatter.py", ("            self._weights.append(_parse_sympy_param(w))", "            if w == 0:\n                continue\n            self._weights.append(_parse_sympy_param(w))"))
mut("C22", 1, "_scatter.py", ("setdefault(tuple(func.a), [])", "setdefault(tuple(map(float, func.a)), [])"))
mut("C22", 1, "_scatter.py", ("            ncoefs = max(i[1].ncoefs for i in choices)", "            ncoefs = choices[0][1].ncoefs"))
mut("C22", 1, "_scatter.py", ("            self._weights.append(_parse_sympy_param(w))\n            self._objs.append(o)", "            if o in self._objs:\n                self._weights[self._objs.index(o)] = _parse_sympy_param(w)\n                continue\n            self._weights.append(_parse_sympy_param(w))\n            self._objs.append(o)"))
mut("C22", 0, "_scatter.py", ("            self._weights.append(_parse_sympy_param(w))\n            self._objs.append(o)", "            if o in self._objs:\n                self._weights[self._objs.index(o)] += _parse_sympy_param(w)\n                continue\n            self._weights.append(_parse_sympy_param(w))\n            self._objs.append(o)"))
# C01, C05, C06
mut("C01", 1, "_calc.py", ("np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),", "np.stack(np.broadcast_arrays(Isurf + Ivol, Ivol, Isurf)),"))
mut("C01", 0, "_calc.py", ("                    if self.int_Q is True:\n                        Iint = self._interaction()", "                    if self.int_Q:\n                        Iint = self._interaction()"))
mut("C01 C05", 0, "_calc.py", ("                    np.stack(\n                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)\n                    ),", "                    np.stack(\n                        np.broadcast_arrays(sum((Isurf, Ivol, Iint)), Isurf, Ivol, Iint), axis=0\n                    ),"))
mut("C05", 1, "_calc.py", ("signorm = 4.0 * np.pi * self._mu_0 / self.I0", "signorm = 4.0 * np.pi * np.sqrt(self._mu_0 * self._mu_ex) / self.I0"))
mut("C05", 1, "_calc.py", ("            ret = 10.0 * np.log10(ret)", "            ret = 10.0 * np.log10(np.maximum(ret, 1e-10))"))
mut("C05", 1, "_calc.py", ("            ret = 10.0 * np.log10(ret)", "            ret = 10.0 * np.log10(ret + np.finfo(float).eps)"))
mut("C05", 0, "_calc.py", ("            ret = 10.0 * np.log10(ret)", "            ret = 10.0 / np.log(10.0) * np.log(ret)"))
mut("C05", 1, "_calc.py", ("        if dB is True:\n            ret", "        if dB is True and sig0 is True:\n            ret"))
mut("C05 C01", 1, "_calc.py", ("        return self._convert_sig0_db(self._interaction())", "        return self._convert_sig0_db(self._interaction(), dB=False)"))
mut("C04 C27", 1, "_calc.py", ("Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "Iint = np.where(np.any(np.equal(self.tau, 0.0)), 0.0, Iint)"))
mut("C04", 1, "_calc.py", ("Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "Iint = np.where(np.less(self.tau, 1e-3), 0.0, Iint)"))
mut("C04", 1, "_calc.py", ("Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "Iint = np.where(np.isclose(self.tau, 0.0), 0.0, Iint)"))
mut("C04 C06", 0, "_calc.py", ("Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)", "Iint = np.where(np.greater(self.tau, 0.0), Iint, 0.0)"))
mut("C04", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.isclose(mu, 1.0)"))
mut("C33", 1, "_calc.py", ("nadir = np.equal(mu, 1.0)", "nadir = np.all(np.equal(mu, 1.0))"))
mut("C12", 1, "_calc.py", ("            self._fixed_angles\n            and not self._monostatic", "            len(self._fixed_angles) in (1, 2, 3)\n            and not self._monostatic"))
mut("C12", 1, "_calc.py", ("            angs = [angs[1], angs[0], angs[3], angs[2]]", "            angs = [angs[1], angs[0], angs[2], angs[3]]"))
mut("C13", 1, "_calc.py", ("            for i in range(2, self.SRF.ncoefs + self.V.ncoefs + 1)\n            if i % 2 == 0", "            for i in range(2, 2 * min(self.SRF.ncoefs, self.V.ncoefs) + 1)\n            if i % 2 == 0"))
mut("C13", 1, "_calc.py", ("            for i in range(1, self.SRF.ncoefs + self.V.ncoefs - 1)\n            if i % 2 == 0", "            for i in range(1, self.SRF.ncoefs + self.V.ncoefs - 2)\n            if i % 2 == 0"))
mut("C13", 0, "_calc.py", ("            return (2 ** (-i)) * sp.binomial(i, i * sp.Rational(1, 2))", "            return sp.Mul(*(sp.Rational(k - 1, k) for k in range(2, i + 1, 2)))"))

# ---- wave 5
mut("C15", 0, "_calc.py", ("return func(**{key: self.param_dict[key] for key in params})", "return func(*[self.param_dict[key] for key in params])"))
mut("C15", 1, "_calc.py", ("return func(**{key: self.param_dict[key] for key in params})", "return func(*[self.param_dict[key] for key in sorted(params)])"))
mut("C15", 1, "_calc.py", ("return func(**{key: self.param_dict[key] for key in params})", "return func(**{key: self.param_dict.get(key, 0) for key in params})"))
mut("C15", 1, "_calc.py", ("        self._clear_param_cache()\n        self._omega = value", "        self._clear_param_cache()\n        self._omega = min(value, 1.0) if isinstance(value, float) else value"))
mut("C15", 0, "_calc.py", ("        self._clear_param_cache()\n        self._omega = value", "        self._omega = value\n        self._clear_param_cache()"))
mut("C15", 1, "_calc.py", ("                if missing:\n", "                if len(missing) > 1:\n"))
mut("C15", 1, "_calc.py", ("        # only attempt to lambdify strings and sympy.Basic objects\n        if not isinstance(getattr(self, f\"_{param}\"), (str, sp.Basic)):", "        # only attempt to lambdify strings and sympy.Basic objects\n        if not isinstance(getattr(self, f\"_{param}\"), (str, sp.Symbol)):"))
mut("C14 C15", 1, "_calc.py", ("        self._clear_param_cache()\n        self._tau = value", "        if type(value) is not type(self._tau):\n            self._clear_param_cache()\n        self._tau = value"))
mut("C14", 1, "_calc.py", ("        self._clear_param_cache()\n        self._bsf = value", "        self._clear_cache('_get_param_funcs')\n        self._bsf = value"))
# C23
mut("C23", 1, "__init__.py", ("    assert lambda_backend in [", "    assert lambda_backend.lower() in ["))
mut("C23", 1, "helpers.py", ("def _lambdify(variables, functions):", "def _lambdify(variables, functions, default=get_lambda_backend()):"), ("backend = get_lambda_backend() if", "backend = default if"))
mut("C23", 0, "helpers.py", ("*args, *(kwargs[key] for key in var_names[len(args) :])", "*args, *map(kwargs.__getitem__, var_names[len(args) :])"))
mut("C23", 1, "helpers.py", ("*args, *(kwargs[key] for key in var_names[len(args) :])", "*args, *map(kwargs.__getitem__, sorted(var_names[len(args) :]))"))
mut("C23", 1, "helpers.py", ("    else:\n        raise TypeError(f\"lambda_backend {backend} is not available\")\n\n    return lambda_func", "    return lru_cache()(lambda_func) if False else _store.setdefault(tuple(map(str, var)) + (str(funcs),), lambda_func)\n\n\n_store = {}"))
mut("C23", 1, "_calc.py", ("        backend = get_lambda_backend()\n        if backend == \"symengine\":", "        backend = _backend_at_import\n        if backend == \"symengine\":"), ("class RT1(object):", "_backend_at_import = get_lambda_backend()\n\n\nclass RT1(object):"))
# C24
mut("C24", 0, "__init__.py", ("except ImportError:\n    _init_lambda_backend", "except ModuleNotFoundError:\n    _init_lambda_backend"))
mut("C24", 1, "plot.py", ("def polarplot(", "import symengine\n\n\ndef polarplot("))
mut("C24", 1, "helpers.py", ("from . import _log, get_lambda_backend\n", "from . import _log, get_lambda_backend\nfrom symengine import Lambdify\n"), ("        from symengine import Lambdify\n", ""))
mut("C24", 0, "_calc.py", ("class RT1(object):", "import importlib.util\n\n_has_seng = importlib.util.find_spec('symengine') is not None\n\n\nclass RT1(object):"))
# C25
mut("C25", 1, "_calc.py", ("        state = self.__dict__.copy()", "        state = self.__dict__"))
mut("C25", 1, "_calc.py", ("        for Nonekey in [", "        state['_param_dict'] = {k: float(np.mean(v)) for k, v in state['_param_dict'].items()}\n        for Nonekey in ["))
mut("C25", 1, "_calc.py", ("        for Nonekey in [", "        self._param_dict.pop('t', None)\n        for Nonekey in ["))
mut("C25", 0, "_calc.py", ("        state = self.__dict__.copy()", "        state = dict(vars(self))"))
# C26
mut("C26", 1, "helpers.py", ('("N", "S", "Q", "O")', '("N", "S", "O")'))
mut("C26", 1, "helpers.py", ("{key: sp.Symbol(key) for key", "{key: sp.Symbol(key, positive=True) for key"))
mut("C26", 0, "helpers.py", ("return sp.parse_expr(val, local_dict=_local_variable_symbols)", "return sp.sympify(val, locals=dict(_local_variable_symbols))"))
mut("C26", 1, "helpers.py", ("return sp.parse_expr(val, local_dict=_local_variable_symbols)", "return sp.parse_expr(val, local_dict=globals())"))
mut("C26", 1, "_calc.py", ("                _parse_sympy_param(getattr(self, f\"_{param}\")), sp.Symbol(key)", "                sp.sympify(getattr(self, f\"_{param}\")), sp.Symbol(key)"))
# C28
mut("C28", 1, "plot.py", ("simps(simps(z, y), x)", "simps(simps(z, x), y)"))
mut("C28", 0, "plot.py", ("z = integfunkt(x[:, None], y)", "z = integfunkt(x, y[:, None])"), ("simps(simps(z, y), x)", "simps(simps(z, x), y)"))
mut("C28", 1, "plot.py", ("y = np.linspace(0.0, 2 * np.pi, simps_N)", "y = np.linspace(0.0, 2 * np.pi, simps_N, endpoint=False)"))
mut("C28", 0, "plot.py", ("x = np.linspace(0.0, np.pi / 2.0, simps_N)", "x = np.linspace(0.0, np.pi / 2.0, simps_N + 1)"))
mut("C28", 1, "plot.py", ("* BRDF(theta_0, theta_s, phi_0, phi_s, param_dict=param_dict)", "* BRDF(theta_s, theta_0, phi_0, phi_s, param_dict=param_dict)"))
mut("C28", 1, "plot.py", ("incnum = np.arange(t_0_min, t_0_max, t_0_step)", "incnum = np.arange(t_0_min, t_0_max, t_0_step)[1:]"))
mut("C28", 0, "plot.py", ("if np.any(sol > 1.0):", "if np.max(sol) > 1.0:"))
mut("C28", 1, "plot.py", ("if np.any(sol > 1.0):", "if np.all(sol > 1.0):"))
mut("C28 C17", 1, "plot.py", ('NormBRDF = param_dict.get("NormBRDF", 1)', 'NormBRDF = param_dict.setdefault("NormBRDF", 1)'))
mut("C28", 1, "plot.py", ('NormBRDF = param_dict.get("NormBRDF", 1)', 'NormBRDF = param_dict.get("NormBRDF") or 1'))
mut("C28", 1, "plot.py", ("x = np.linspace(0.0, np.pi / 2.0, simps_N)", "x = np.linspace(0.0, np.pi / 2.0 - np.pi / 2.0 / simps_N, simps_N)"))
# C29
mut("C29", 1, "plot.py", ("phasefunktapprox(ti, thetass, 0.0, 0.0, **params)", "phasefunktapprox(thetass, ti, 0.0, 0.0, **params)"))
mut("C29", 1, "plot.py", ("[*angs, *params.keys()], [V_SRF", "[*angs, *param_dict[0].keys()], [V_SRF"))
mut("C29", 1, "plot.py", ("            plottis = np.deg2rad(inc)", "            plottis = np.deg2rad(inc[: len(use_colors)])"))
mut("C29", 1, "plot.py", ("            plottis = np.deg2rad(inc)", "            plottis = np.deg2rad(inc if n_p == 0 else inc[:1])"))
mut("C29", 0, "plot.py", ("            plottis = np.deg2rad(inc)", "            plottis = [np.deg2rad(ang) for ang in inc]"))
mut("C29", 1, "plot.py", ("    for params in param_dict:\n        missing = required_symbs - set(params)", "    for params in param_dict[:1]:\n        missing = required_symbs - set(params)"))
mut("C29", 1, "plot.py", ("    for params in param_dict:\n        missing = required_symbs - set(params)", "    for params in [dict(kv for p in param_dict for kv in p.items())]:\n        missing = required_symbs - set(params)"))
# C30
mut("C30", 0, "plot.py", ('(p["valmax"] + p["valmin"]) / 2)', 'p["valmin"] + 0.5 * (p["valmax"] - p["valmin"]))'))
mut("C30", 1, "plot.py", ('            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)', '            p["valinit"] = p.get("valinit") or (p["valmax"] + p["valmin"]) / 2'))
mut("C30", 1, "plot.py", ('            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)', '            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)'))
mut("C30", 1, "plot.py", ("        finally:\n            self.R.int_Q = init_int_q", "        except Exception:\n            raise\n        else:\n            self.R.int_Q = init_int_q"))
mut("C30", 0, "plot.py", ('            if "i" in self._contributions:\n                self.R.int_Q = True\n            else:\n                self.R.int_Q = False', '            self.R.int_Q = "i" in self._contributions'))
mut("C30", 1, "plot.py", ("        startvals = {key: s.val for key, s in self.sliders.items()}\n        inc = ", "        startvals = {key: round(s.val, 3) for key, s in self.sliders.items()}\n        inc = "))
mut("C30", 1, "plot.py", ("        startvals = {key: s.val for key, s in self.sliders.items()}\n        self.R", "        startvals = {key: s.val for key, s in self.sliders.items() if s.val}\n        self.R"))
mut("C30", 0, "plot.py", ("        really_missing = ignored_params - set(R.param_dict)", "        really_missing = ignored_params - set(R.param_dict) - set(additional_params) - set(R._all_param_symbs)"))
# C31
mut("C31", 1, "__init__.py", ("_set_logfmt(*_log_format_presets.get(fmt, (fmt,)))", "_set_logfmt(*_log_format_presets[fmt])"))
mut("C31", 1, "__init__.py", ("    _ensure_handler().setLevel(level)", "    _ensure_handler().setLevel(max(level, 10) if isinstance(level, int) else level)"))
mut("C31", 0, "__init__.py", ("    _log.setLevel(level)\n    _ensure_handler().setLevel(level)", "    for target in (_log, _ensure_handler()):\n        target.setLevel(level)"))
mut("C31", 1, "__init__.py", ("    _log.addHandler(handler)\n", "    _logging.getLogger().addHandler(handler)\n"))
# C32
mut("C32", 1, "helpers.py", ("        except Exception:\n            _log.debug(\n                \"There was", "        except (ValueError, KeyError, AttributeError):\n            _log.debug(\n                \"There was"))
mut("C32", 0, "helpers.py", ("old_p = any(i for i in comb[\"Parameters\"] if i.name == p.name)", "old_p = p.name in {i.name for i in comb[\"Parameters\"]}"))
mut("C32", 1, "helpers.py", ("                    if not old_p:\n                        comb[\"Parameters\"] += [p]", "                    if old_p:\n                        comb[\"Parameters\"] = [q for q in comb[\"Parameters\"] if q.name != p.name]\n                    comb[\"Parameters\"] += [p]"))
mut("C32", 1, "helpers.py", ("        return decorated_f\n\n    return inner", "        return wraps(decorated_f)(lambda *a, **k: decorated_f(*a, **k)) if not isinstance(decorated_f, type) else decorated_f\n\n    return inner"), ("import numpy as np\n", "import numpy as np\nfrom functools import wraps\n"))
# C17
mut("C17", 0, "_calc.py", ("        ret = val * signorm\n", "        ret = np.multiply(val, signorm)\n"))
mut("C17", 1, "_scatter.py", ("        func = self._lambda_func(*param_dict.keys())", "        param_dict.setdefault('t', 0.0)\n        func = self._lambda_func(*param_dict.keys())"))
mut("C17", 1, "_calc.py", ("        jac = []\n        for key in param_list:", "        jac = []\n        param_list.sort()\n        for key in param_list:"))
mut("C17", 1, "_calc.py", ("        return np.atleast_1d(value)\n", "        value = np.atleast_1d(value)\n        value.setflags(write=False)\n        return value\n"))
mut("C09", 1, "_calc.py", ("if np.size(self.param_dict[key]) == 1:", "if np.ndim(self.param_dict[key]) == 1:"))
mut("C09", 0, "_calc.py", ("if np.size(self.param_dict[key]) == 1:", "if not np.size(self.param_dict[key]) > 1:"))
mut("C09", 1, "_calc.py", ("            for key, j in zip(param_list, jac):", "            for key, j in zip(set(param_list), jac):"))
mut("C09", 0, "_calc.py", ("jac_columns += csr_matrix(j.ravel())", "jac_columns.extend(csr_matrix(np.ravel(j)))"))
mut("C08", 1, "_calc.py", ("            return diff\n        else:\n            return 1", "            return diff.subs(sp.Symbol(key), 1) if diff.is_polynomial(sp.Symbol(key)) else diff\n        else:\n            return 1"))
mut("C27", 1, "_calc.py", ("np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),", "np.array([Isurf + Ivol, Isurf, Ivol]),"))
mut("C09", 1, "_calc.py", ("        jac = [j * np.ones(shape) for j in jac]\n", "        jac = [j * np.ones(np.shape(self.t_0)) for j in jac]\n"))

mut("C09", 0, "_calc.py", ("if np.size(self.param_dict[key]) == 1:", "if np.ndim(self.param_dict[key]) == 0 or np.size(self.param_dict[key]) == 1:"))
mut("C09", 0, "_calc.py", ("if np.size(self.param_dict[key]) == 1:", "if np.shape(self.param_dict[key]) == () or np.size(self.param_dict[key]) == 1:"))
mut("C09", 0, "_calc.py", ("if np.size(self.param_dict[key]) == 1:", "if np.isscalar(self.param_dict[key]) or np.size(self.param_dict[key]) == 1:"))
# -- wave 6
mut("C01", 1, "_calc.py", ("np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)", "np.broadcast_arrays(\n                            Isurf + Ivol + np.maximum(Iint, 0.0), Isurf, Ivol, Iint\n                        )"))
mut("C05", 1, "_calc.py", ("            ret = 10.0 * np.log10(ret)\n", "            ret = 10.0 * np.log10(np.maximum(ret, 1e-15))\n"))
mut("C04", 1, "_calc.py", ("        Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)\n", "        Iint = np.where(np.isclose(self.tau, 0.0), 0.0, Iint)\n"))
mut("C04", 1, "_calc.py", ("        nadir = np.equal(mu, 1.0)\n", "        nadir = np.isclose(mu, 1.0, atol=1e-4)\n"))
mut("C14 C18", 1, "_scatter.py", ("    @lru_cache()\n    def _lambda_func(self, *args):\n", "    _compiled = {}\n\n    def _lambda_func(self, *args):\n        key = (type(self), *args)\n        if key not in self._compiled:\n            self._compiled[key] = self._compile(*args)\n        return self._compiled[key]\n\n    def _compile(self, *args):\n"))
mut("C18", 0, "_scatter.py", ("    @lru_cache()\n    def _lambda_func(self, *args):\n", "    _compiled = {}\n\n    def _lambda_func(self, *args):\n        key = (id(self), *args)\n        if key not in self._compiled:\n            self._compiled[key] = self._compile(*args)\n        return self._compiled[key]\n\n    def _compile(self, *args):\n"))
mut("C14 C16", 1, "_calc.py", ("        self._param_dict = dict(bsf=0)\n", "        self._param_dict = self._defaults\n"), ("    # list of names of cached properties\n", "    _defaults = dict(bsf=0)\n\n    # list of names of cached properties\n"))
mut("C14", 1, "_calc.py", ("        self._fixed_angles = set()\n", "        self._fixed_angles = self._no_angles\n"), ("    # list of names of cached properties\n", "    _no_angles = set()\n\n    # list of names of cached properties\n"))
mut("C22", 1, "_scatter.py", ("        self._weights, self._objs = [], []\n        for w, o in choices:\n", "        for w, o in choices:\n"), ("class _LinComb(_Scatter):\n", "class _LinComb(_Scatter):\n    _weights, _objs = [], []\n\n"))
mut("C02", 1, "_scatter.py", ("        func = self._lambda_func(*param_dict.keys())\n", "        func = self._lambda_func(*sorted(param_dict))\n"), ("        res = func(t_0, t_ex, p_0, p_ex, **param_dict)\n", "        res = func(t_0, t_ex, p_0, p_ex, *param_dict.values())\n"))
mut("C12", 1, "_calc.py", ("            angs = [angs[1], angs[0], angs[3], angs[2]]\n", "            angs = [angs[1], angs[0], angs[2], angs[3]]\n"))
mut("C12", 1, "_calc.py", ("            self._fixed_angles\n            and not self._monostatic\n", "            len(self._fixed_angles) > 1\n            and not self._monostatic\n"))
mut("C12", 0, "_calc.py", ("            self._fixed_angles\n            and not self._monostatic\n", "            self._fixed_angles & {\"t_0\", \"t_ex\", \"p_0\", \"p_ex\"}\n            and not self._monostatic\n"))
mut("C12", 1, "_calc.py", ("            self._fixed_angles\n            and not self._monostatic\n", "            self._fixed_angles & {\"t_0\", \"p_0\"}\n            and not self._monostatic\n"))
mut("C08", 0, "_calc.py", ("            if str(key) in self._get_param_symbs(param):\n", "            if str(key) in str(getattr(self, f\"_{param}\")):\n"))
mut("C08", 1, "_calc.py", ("                ret = ret + derivative() * inner\n", "                ret = derivative() * inner\n"))
mut("C04", 1, "_calc.py", ("            np.euler_gamma + np.log(tau),\n", "            np.euler_gamma + np.log1p(tau),\n"))
mut("C30", 1, "plot.py", ("        self._inc_range = (0.1, 89.9)\n", "        self._inc_range = (0.1, 89.9)\n        self.R.int_Q = \"i\" in contributions\n"))
mut("C16", 1, "_calc.py", ("            and \"bsf\" not in self.param_dict\n", ""))
mut("C15", 0, "_calc.py", ("                missing = set(params).difference(self.param_dict)\n", "                missing = set(params).difference(self.param_dict) - {\"bsf\"}\n"))
