From 380cbed1469aedb69f283ed7003c30b90e7e1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 01/27] fix: use the exit cosine (not its inverse) in the
 tau-derivative of the volume term

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..cbe1f72 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1156,7 +1156,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From 48c52f7eff5fa7925fa972df968134ac4f3bc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 02/27] fix: normalize the linear sigma0 jacobian with the
 incident intensity

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index cbe1f72..f89b877 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1540,7 +1540,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From ee94f6bbc8fb2473c5cdd85d71cce9a2e0c00170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 03/27] fix: name the fixed angle in the error raised by
 set_geometry

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f89b877..af855c0 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -396,7 +396,7 @@ class RT1(object):
         self._geom_ang_symbs = geom_ang_symbs
 
     def _sanitize_geometry_parameter(self, name, value):
-        assert name not in self._fixed_angles, "The angle {name} is fixed!"
+        assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
         return np.atleast_1d(value)
 
-- 
2.43.0


From 082085a9c762828d601c90d09c81dc0d1227e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 04/27] fix: do not inject parameter symbols into the namespace
 of the module

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index af855c0..2f13f45 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -856,7 +856,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
+            variables = sp.symbols(
                 ("theta_0", "phi_0", "theta_ex", "phi_ex")
                 + tuple(map(str, self.param_dict.keys()))
             )
-- 
2.43.0


From e49048ab8abee861203b0abf0dfdd46b2c94de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 05/27] fix: use the total derivative over all roles of a
 parameter in the jacobian

---
 src/rt1_model/_calc.py | 89 ++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 2f13f45..4b1389e 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1359,37 +1359,38 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
+        # direct dependency via the volume scattering function
+        dIvol = (
+            self.I0
+            * self.omega
+            * self._mu_0
+            / (self._mu_0 + self._mu_ex)
+            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
+            * self._d_volume_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_domega() * inner
+        )
+        dIvol = (1.0 - self.bsf) * dIvol
+
+        # use chain rule for all parameter functions that depend on the key
+        return dIvol + self._chain_ddummy(
+            key,
+            tau=self._dvolume_dtau,
+            omega=self._dvolume_domega,
+            bsf=self._dvolume_dbsf,
+        )
 
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
-            dIvol = (
-                self.I0
-                * self.omega
-                * self._mu_0
-                / (self._mu_0 + self._mu_ex)
-                * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
+    def _chain_ddummy(self, key, **derivatives):
+        # sum of the inner derivatives of all parameters (NormBRDF, tau, omega, bsf)
+        # that depend on the key multiplied by the associated outer derivatives
+        ret = 0.0
+        for param, derivative in derivatives.items():
+            if str(key) in self._get_param_symbs(param):
+                inner = self._dparam_ddummy_lambda(param, key)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
-            )
-            return (1.0 - self.bsf) * dIvol
+                ret = ret + derivative() * inner
+        return ret
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1436,31 +1437,25 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
+        # direct dependency via the BRDF
+        dI_bs = (
+            self.I0
+            * self._mu_0
+            * self._d_surface_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dsurface_dbsf() * inner
-        else:
-            dI_bs = (
-                self.I0
-                * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
+        )
 
-            dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+        dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+        dIsurf = self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        # use chain rule for all parameter functions that depend on the key
+        return dIsurf + self._chain_ddummy(
+            key,
+            tau=self._dsurface_dtau,
+            NormBRDF=self._dsurface_dNormBRDF,
+            bsf=self._dsurface_dbsf,
+        )
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
-- 
2.43.0


From 1329e07cccd68d5456d781d5d67cb89527f108bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 06/27] fix: evaluate parameter functions that are given as
 sympy expressions

---
 src/rt1_model/_calc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 4b1389e..456346c 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -744,8 +744,8 @@ class RT1(object):
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
         p = getattr(self, f"_{param}")
-        if isinstance(p, str):
-            expr = _parse_sympy_param(getattr(self, f"_{param}"))
+        if isinstance(p, (str, sp.Basic)):
+            expr = _parse_sympy_param(p)
 
             symbs = list(map(str, expr.free_symbols))
         else:
@@ -1325,7 +1325,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
-- 
2.43.0


From 00f8e60f079a165bce4f597b0cc7612becb38045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 07/27] fix: drop compiled functions if new parameter names are
 added

---
 src/rt1_model/_calc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 456346c..9a84111 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -481,6 +481,12 @@ class RT1(object):
         ):
             kwargs.setdefault("bsf", 0)
 
+        # functions that are compiled for the currently known parameter names cannot be
+        # re-used if new names are added
+        if not set(kwargs).issubset(self.param_dict):
+            self._fnevals_ = None
+            self._clear_cache("_d_volume_dummy_lambda", "_d_surface_dummy_lambda")
+
         self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
 
     def calc(self, **params):
-- 
2.43.0


From 9fa4892bb0670f5fa41a61497788f1fe05703f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 08/27] fix: evaluate the interaction-term for the actual exit
 azimuth in bistatic geometry

---
 src/rt1_model/_calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9a84111..e82a0c1 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -954,9 +954,7 @@ class RT1(object):
 
         angs = self._geom_ang_symbs
 
-        brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
-        ).doit()
+        brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
         ).doit()
-- 
2.43.0


From cb072e04dfceb72e52aea040cef464da9e58fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 09/27] fix: exchange incident and exit direction also for
 fixed angles

---
 src/rt1_model/_calc.py | 64 ++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index e82a0c1..94e1447 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -338,6 +338,8 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fn_ex_ = None
+        self._fnevals_ex_ = None
 
         if p_0 is not None:
             assert isinstance(
@@ -372,6 +374,8 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fn_ex_ = None
+        self._fnevals_ex_ = None
 
         angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
@@ -485,6 +489,7 @@ class RT1(object):
         # re-used if new names are added
         if not set(kwargs).issubset(self.param_dict):
             self._fnevals_ = None
+            self._fnevals_ex_ = None
             self._clear_cache("_d_volume_dummy_lambda", "_d_surface_dummy_lambda")
 
         self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
@@ -862,12 +867,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.symbols(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
-
-            self._fnevals_ = _lambdify(variables, self._fn)
+            self._fnevals_ = _lambdify(self._fn_variables, self._fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -878,6 +878,25 @@ class RT1(object):
         else:
             return None
 
+    @property
+    def _fn_variables(self):
+        return sp.symbols(
+            ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            + tuple(map(str, self.param_dict.keys()))
+        )
+
+    @property
+    def _fnevals_ex(self):
+        # fnevals-functions for exchanged incident and exit directions
+        # (required for fixed angles since those are already part of the coefficients!)
+        if getattr(self, "_fn_ex_", None) is None:
+            self._fn_ex_ = self._extract_coefficients(
+                self._calc_interaction_expansion(exchange=True)
+            )
+        if getattr(self, "_fnevals_ex_", None) is None:
+            self._fnevals_ex_ = _lambdify(self._fn_variables, self._fn_ex_)
+        return self._fnevals_ex_
+
     def _extract_coefficients(self, expr):
         """
         Extract Fn coefficients from given forumula.
@@ -922,7 +941,7 @@ class RT1(object):
 
         return fn
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, exchange=False):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -939,6 +958,12 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        exchange : bool, optional
+            Indicator if incident- and exit direction should be exchanged.
+            The default is False.
+
         Returns
         -------
         res : sympy expression
@@ -953,6 +978,8 @@ class RT1(object):
         phi_s = sp.Symbol("phi_s")
 
         angs = self._geom_ang_symbs
+        if exchange:
+            angs = [angs[1], angs[0], angs[3], angs[2]]
 
         brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
@@ -1130,15 +1157,22 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_ex,
-            self.p_ex,
-            self.t_0,
-            self.p_0,
-            *self.param_dict.values(),
-        )
+        if (
+            self._fixed_angles
+            and not self._monostatic
+            and self.fn_input is None
+            and self.fnevals_input is None
+        ):
+            # exchanging the arguments has no effect on fixed angles!
+            fnevals = self._fnevals_ex
+            angs = (self.t_0, self.p_0, self.t_ex, self.p_ex)
+        else:
+            fnevals = self._fnevals
+            angs = (self.t_ex, self.p_ex, self.t_0, self.p_0)
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        args = np.broadcast_arrays(*angs, *self.param_dict.values())
+
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From af8a12748b8069b84267a8d400f97bf057e1004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 10/27] fix: leave the geometry unchanged if fixed angles are
 rejected

---
 src/rt1_model/_calc.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 94e1447..c2dbfc5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -332,6 +332,10 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        assert p_0 is None or isinstance(
+            p_0, (int, float, np.number)
+        ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -342,9 +346,6 @@ class RT1(object):
         self._fnevals_ex_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -367,6 +368,11 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+        assert all(
+            ang is None or isinstance(ang, (int, float, np.number)) for ang in angs
+        ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -377,7 +383,6 @@ class RT1(object):
         self._fn_ex_ = None
         self._fnevals_ex_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -389,9 +394,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
-- 
2.43.0


From c2fec377da3f1164024e79c54279a212222a6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 11/27] fix: broadcast parameters and angles for each expansion
 order individually

---
 src/rt1_model/_calc.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index c2dbfc5..e6b3d4b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1119,6 +1119,13 @@ class RT1(object):
 
         return S2 + hlp1
 
+    @staticmethod
+    def _sum_fn(fn, mu_x, S2):
+        # evaluate the sum over the expansion orders individually for each order to
+        # make sure that the values of all parameters and angles are properly broadcasted
+        assert len(fn) == len(S2), "The number of fn-coefficients is not correct!"
+        return sum(f * m * s for f, m, s in zip(fn, mu_x, S2))
+
     def _calc_Fint_1(self):
         """
         Numerical evaluation of the F_int() function.
@@ -1140,11 +1147,9 @@ class RT1(object):
             *self.param_dict.values(),
         )
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
-
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        return self._sum_fn(
+            self._fnevals(*args), self._mu_0_x, self._S2_mu(self._mu_0, self.tau)
+        )
 
     def _calc_Fint_2(self):
         """
@@ -1174,11 +1179,9 @@ class RT1(object):
 
         args = np.broadcast_arrays(*angs, *self.param_dict.values())
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
-
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
-        return S
+        return self._sum_fn(
+            fnevals(*args), self._mu_ex_x, self._S2_mu(self._mu_ex, self.tau)
+        )
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
     def _dvolume_dtau(self):
-- 
2.43.0


From 3f593b0139e3c6d9f0d21eec9305f151e5d3e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 12/27] fix: evaluate to zero interaction wherever there is no
 canopy (tau = 0)

---
 src/rt1_model/_calc.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index e6b3d4b..8caba5b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -543,23 +543,8 @@ class RT1(object):
             else:
                 Isurf = self._surface()
                 Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
                 if self.int_Q is True:
                     Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
@@ -713,6 +698,9 @@ class RT1(object):
             )
         )
 
+        # without canopy there is no interaction (S2 is not defined for tau = 0)
+        Iint = np.where(np.equal(self.tau, 0.0), 0.0, Iint)
+
         return self.NormBRDF * (1.0 - self.bsf) * Iint
 
     def _surface_volume(self):
-- 
2.43.0


From ae6f7b6c3038619196027ea638135cb0b61080c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 13/27] fix: broadcast the contributions to a common shape

---
 src/rt1_model/_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 8caba5b..608ac83 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -548,11 +548,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
-- 
2.43.0


From 371c4367deba18250ccbe1e9fe3183e76afe65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 14/27] fix: evaluate scattering functions with the full shape
 of the provided values

---
 src/rt1_model/_scatter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 3ced2b1..592730e 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -2,6 +2,7 @@
 
 from functools import lru_cache, wraps, partial, update_wrapper
 
+import numpy as np
 import sympy as sp
 from . import _log
 from .helpers import _lambdify, _parse_sympy_param
@@ -172,7 +173,14 @@ class _Scatter:
         """
         func = self._lambda_func(*param_dict.keys())
 
-        return func(t_0, t_ex, p_0, p_ex, **param_dict)
+        res = func(t_0, t_ex, p_0, p_ex, **param_dict)
+
+        # functions compiled with sympy only broadcast the variables that are part of the
+        # expression (e.g. they return a scalar if the function is a constant)
+        shape = np.broadcast_shapes(
+            *map(np.shape, (res, t_0, t_ex, p_0, p_ex, *param_dict.values()))
+        )
+        return res if np.shape(res) == shape else np.full(shape, res)
 
     def _register_plotfuncs(self):
         # register quick-plot functions for distribution functions
-- 
2.43.0


From dc9f0abcd9392aeaa19048d1954107175ecd5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 15/27] fix: use the shape of the measurements for all entries
 of the jacobian

---
 src/rt1_model/_calc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 608ac83..0408dc8 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1594,6 +1594,16 @@ class RT1(object):
                     + str(key)
                     + " is not in param_dict"
                 )
+
+        # make sure all entries have the shape of the measurements
+        shape = np.broadcast_shapes(
+            *map(
+                np.shape,
+                (self.t_0, self.t_ex, self.p_0, self.p_ex, *self.param_dict.values()),
+            )
+        )
+        jac = [j * np.ones(shape) for j in jac]
+
         if format == "list":
             return jac
         elif format == "scipy_least_squares":
-- 
2.43.0


From b61084ea1600faa73d50eb8fe8a5b5dd394a1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 16/27] fix: do not modify the model on pickling and restore it
 with all methods

---
 src/rt1_model/_calc.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 0408dc8..6f48f32 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -127,27 +127,19 @@ class RT1(object):
     def __getstate__(self):
         # this is required since functions created by
         # symengine are currently not pickleable!
+        state = self.__dict__.copy()
+
         _log.warning("Dropping fn-coefficients to allow pickling...")
-        for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
-                _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
-        for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
-                _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
-
-        if get_lambda_backend() == "symengine":
+        for Nonekey in ["_fn_", "_fnevals_", "_fn_ex_", "_fnevals_ex_"]:
+            state[Nonekey] = None
+
+        if self.fnevals_input is not None and get_lambda_backend() == "symengine":
             _log.warning(
                 "The dump of the _fnevals functions "
                 + "generated by symengine will be platform-dependent!"
             )
 
-        # drop plot-functions (they are not pickleable and re-attached on unpickle)
-        for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
-
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From e9814284f7016465faefe6585b965e343170060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 17/27] fix: use the center of the range and the provided name
 for analyzer sliders

---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..df19e5d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 2647308bea7952293205f14d3b57b7c5b0edfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 18/27] fix: accept the documented log-format 'basic'

---
 src/rt1_model/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..13591c8 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -109,6 +109,7 @@ def _set_logfmt(fmt=None, datefmt=None):
 
 _log_format_presets = {
     "minimal": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
+    "basic": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
     "timed": (
         "%(asctime)s.%(msecs)03d %(levelname)s: %(message)s",
         "%H:%M:%S",
-- 
2.43.0


From 8695a76e04ccf55bd628f665fa403f97faffb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 19/27] fix: interpret S, Q and O as parameter names

---
 src/rt1_model/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..c9f3429 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -4,7 +4,7 @@ from ._numpydoc_docscrape import NumpyDocString
 import sympy as sp
 import numpy as np
 
-_local_variable_symbols = dict(N=sp.Symbol("N"))
+_local_variable_symbols = {key: sp.Symbol(key) for key in ("N", "S", "Q", "O")}
 
 
 def _parse_sympy_param(val):
-- 
2.43.0


From 4e8854c4173584831457398aff8a502b7bf1aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 20/27] fix: support constant expressions also with symengine

---
 src/rt1_model/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c9f3429..2a47adb 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -47,7 +47,8 @@ def _lambdify(variables, functions):
 
     # use symengine's Lambdify if symengine has been used within
     # the fn-coefficient generation
-    backend = get_lambda_backend()
+    # (symengine does not support functions without variables)
+    backend = get_lambda_backend() if len(var) > 0 else "sympy"
     if backend == "symengine":
         from symengine import Lambdify
 
-- 
2.43.0


From 61f8d359fbe99438215f41741aab90fcc414b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 21/27] fix: define the nadir-normalized HG function also for
 t=0

---
 src/rt1_model/surface.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..d2fbd5a 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -225,19 +225,18 @@ class HG_nadirnorm(SurfaceScatter):
     def phase_function(self):
         """Define Phase function as sympy object."""
 
+        # (using a form that is also defined for t=0)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
             / (
                 2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
+                * (
+                    1.0
+                    - self.t * (-self.t + self.a[0])
+                    + sp.sqrt(
+                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
+                    )
+                )
                 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
             )
         )
@@ -256,19 +255,18 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
+        # (using a form that is also defined for t=0)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
             / (
                 2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
+                * (
+                    1.0
+                    - self.t * (-self.t + self.a[0])
+                    + sp.sqrt(
+                        (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
+                    )
+                )
                 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
             )
         )
-- 
2.43.0


From 707517b671498cd812ff6ced81873b53dc5c6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 22/27] fix: plot constant approximations of scattering
 functions also with sympy

---
 src/rt1_model/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index df19e5d..6b85b45 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -172,6 +172,8 @@ def polarplot(
                     radapprox = np.array(
                         phasefunktapprox(ti, thetass, 0.0, 0.0, **params)
                     ).squeeze()
+                    # (sympy returns a scalar if the approximation is a constant)
+                    radapprox = np.broadcast_to(radapprox, np.shape(rad))
                 # set theta direction to clockwise
                 ax.set_theta_direction(-1)
                 # set theta to start at z-axis
-- 
2.43.0


From a347ebdd798c0cf7a06db7107c21e065b9500bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 23/27] fix: evaluate the limit of the interaction-term for
 nadir incidence

---
 src/rt1_model/_calc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 6f48f32..0ff5849 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1081,11 +1081,15 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+        # the singularities of the logarithm and the exponential integral at nadir (mu=1)
+        # cancel, e.g. their sum approaches the value: euler_gamma + log(tau)
+        nadir = np.equal(mu, 1.0)
+        mu_off = np.where(nadir, 0.5, mu)
+        hlp1 = np.exp(-tau / mu) * np.where(
+            nadir,
+            np.euler_gamma + np.log(tau),
+            np.log(mu_off / (1.0 - mu_off)) + expi(tau / mu_off - tau),
+        ) - expi(-tau)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From 608c1562600e1c5877de474c7e75dbf0589d4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 24/27] fix: evaluate exactly one fn-coefficient for
 single-order expansions

---
 src/rt1_model/_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 0ff5849..0d34aa7 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -923,7 +923,8 @@ class RT1(object):
             repln = dict([[sp.cos(theta_s) ** int(n), 1]])
             fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]
 
-        return fn
+        # there is no f_1 coefficient if both functions consist of a single order
+        return fn[:N_fn]
 
     def _calc_interaction_expansion(self, exchange=False):
         """
-- 
2.43.0


From 04dcd1879a6e563e955ff9de1c57ac4a4f07a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 25/27] fix: restrict CosineLobe to the positive half-range
 also for i=0

---
 src/rt1_model/surface.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index d2fbd5a..cedf1a5 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -143,15 +143,13 @@ class CosineLobe(SurfaceScatter):
     @property
     def phase_function(self):
         """Phase function as sympy object."""
+        # (the lobe is always restricted to the positive half-range, also if i=0)
         return (
             1.0
             / sp.pi
-            * (
-                self.scattering_angle_symbolic
-                * (1.0 + sp.sign(self.scattering_angle_symbolic))
-                / 2.0
-            )
-            ** self.i
+            * self.scattering_angle_symbolic**self.i
+            * (1.0 + sp.sign(self.scattering_angle_symbolic))
+            / 2.0
         )
 
 
-- 
2.43.0


From a72dddd615110cab3d8cb52149ddaab0f2c6398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 26/27] fix: do not export the plot module if matplotlib is not
 available

'from rt1_model import *' failed with a ModuleNotFoundError without matplotlib.
---
 src/rt1_model/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 13591c8..ab4ea25 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -52,7 +52,7 @@ def set_lambda_backend(lambda_backend):
     _log.debug(f"Lambda backend set to {lambda_backend}")
 
 
-from ._calc import RT1
+from ._calc import RT1, _register_plotfuncs
 from . import volume
 from . import surface
 
@@ -60,11 +60,14 @@ __all__ = [
     "RT1",
     "volume",
     "surface",
-    "plot",
     "set_lambda_backend",
     "get_lambda_backend",
 ]
 
+if _register_plotfuncs:
+    # the plot-module is only available if matplotlib is installed
+    __all__.append("plot")
+
 
 @lru_cache()
 def _ensure_handler():
-- 
2.43.0


From 3c6ba75f232cc3de506573ad4a893b2a8ed43b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 27/27] fix: reject complex numbers as fixed angles

---
 src/rt1_model/_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 0d34aa7..74568f7 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -325,7 +325,7 @@ class RT1(object):
 
         """
         assert p_0 is None or isinstance(
-            p_0, (int, float, np.number)
+            p_0, (int, float, np.integer, np.floating)
         ), "The p_0 angle must be a number for monostatic geometry!"
 
         self._monostatic = True
@@ -362,7 +362,8 @@ class RT1(object):
         """
         angs = [t_0, t_ex, p_0, p_ex]
         assert all(
-            ang is None or isinstance(ang, (int, float, np.number)) for ang in angs
+            ang is None or isinstance(ang, (int, float, np.integer, np.floating))
+            for ang in angs
         ), "The fixed angle must be a number!"
 
         # handle bistatic assignments
-- 
2.43.0

