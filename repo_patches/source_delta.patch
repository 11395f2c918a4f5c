From 2e6ee9fd710540a8b3b40596e14e0d22fabe9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 01/27] fix: return broadcast float arrays from
 sympy-lambdified functions

Functions created with the sympy backend returned unbroadcast scalars (e.g. for
constant expressions), failed on unused keyword arguments and on integer
arrays, in contrast to functions created with the symengine backend.
---
 src/rt1_model/helpers.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..27c164e 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -79,13 +79,32 @@ def _lambdify(variables, functions):
         # using sympy's lambdify without "common subexpression
         # elimination" to perform lambdification
 
-        lambda_func = sp.lambdify(
+        sp_lambda_func = sp.lambdify(
             var,
             funcs,
             modules=["numpy", "sympy"],
             dummify=False,
             cse=True,
         )
+
+        var_names = list(map(str, var))
+
+        def lambda_func(*args, **kwargs):
+            # provide the same call signature and return the same array-shapes as
+            # functions created with symengine (e.g. use only required kwargs and
+            # broadcast the results with respect to the provided variables)
+            args = [
+                np.asarray(i, dtype=float)
+                for i in (*args, *(kwargs[key] for key in var_names[len(args) :]))
+            ]
+            shape = np.broadcast_shapes(*map(np.shape, args))
+            res = sp_lambda_func(*args)
+
+            if isinstance(funcs, list):
+                return np.array([np.broadcast_to(i, shape) for i in res], dtype=float)
+
+            return np.array(np.broadcast_to(res, shape), dtype=float)
+
     else:
         raise TypeError(f"lambda_backend {backend} is not available")
 
-- 
2.43.0


From 7059ae21c1e33fbb02e056864cb5be4544408359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 02/27] fix: use the actual exit azimuth for the interaction
 term of bistatic geometries

The exit azimuth of the BRDF expansion was shifted by pi irrespective of the
geometry. The shift is only valid for monostatic geometry (phi_ex = phi_0 + pi).
---
 src/rt1_model/_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..b7dc22a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -949,7 +949,7 @@ class RT1(object):
         angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
+            theta_s, angs[1], phi_s, angs[3]
         ).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
-- 
2.43.0


From 1d338502f8e9f8df46bce9a3651583990b16e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 03/27] fix: use properly reversed coefficients for fixed
 angles in bistatic geometry

The second part of the interaction term was evaluated by exchanging the angles
in the numerical evaluation of the coefficients, which has no effect on angles
that have already been replaced by fixed values.
---
 src/rt1_model/_calc.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b7dc22a..b4a438b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -836,6 +836,15 @@ class RT1(object):
             # extract the expansion coefficients
             tic = timeit.default_timer()
             self._fn_ = self._extract_coefficients(expr_int)
+
+            if not self._monostatic and self._fixed_angles:
+                # If numerical values are used for some of the angles, it is not
+                # possible to get the coefficients for the reversed path by
+                # exchanging the angles in the numerical evaluation, so they are
+                # appended as additional set of coefficients.
+                self._fn_ = self._fn_ + self._extract_coefficients(
+                    self._calc_interaction_expansion(exchange=True)
+                )
             toc = timeit.default_timer()
             _log.info(f"Coefficients extracted, it took {toc - tic:.5f} sec.")
             return self._fn_
@@ -914,9 +923,9 @@ class RT1(object):
             repln = dict([[sp.cos(theta_s) ** int(n), 1]])
             fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]
 
-        return fn
+        return fn[:N_fn]
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, exchange=False):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -933,6 +942,11 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        exchange : bool
+            If True, incidence- and exit angles are exchanged.
+
         Returns
         -------
         res : sympy expression
@@ -947,6 +961,8 @@ class RT1(object):
         phi_s = sp.Symbol("phi_s")
 
         angs = self._geom_ang_symbs
+        if exchange:
+            angs = [angs[1], angs[0], angs[3], angs[2]]
 
         brdfexp = self.SRF.legendre_expansion(
             theta_s, angs[1], phi_s, angs[3]
@@ -1107,7 +1123,10 @@ class RT1(object):
             *self.param_dict.values(),
         )
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        n_fn = self.V.ncoefs + self.SRF.ncoefs - 1
+        fn = np.broadcast_arrays(
+            *(np.atleast_1d(i) for i in self._fnevals(*args)[:n_fn])
+        )
 
         multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1134,7 +1153,12 @@ class RT1(object):
             *self.param_dict.values(),
         )
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        n_fn = self.V.ncoefs + self.SRF.ncoefs - 1
+        fn = self._fnevals(*args)
+        if len(fn) > n_fn:
+            # use the coefficients of the reversed path (for fixed angles)
+            fn = self._fnevals(*args[2:4], *args[:2], *args[4:])[n_fn:]
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From 539d2b399edf3df6440efcd22b7be7f3df26cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 04/27] fix: properly broadcast the interaction term for axes
 of different rank

The product of coefficients and cosine-powers was evaluated with stacked arrays,
so that the leading axis was mixed up with the axes of the data (resulting in
errors or wrong values) if the cosine-powers had less axes than the parameters.
---
 src/rt1_model/_calc.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b4a438b..f8b876f 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -550,11 +550,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
@@ -1128,8 +1130,14 @@ class RT1(object):
             *(np.atleast_1d(i) for i in self._fnevals(*args)[:n_fn])
         )
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # sum up the individual terms separately to make sure that the axes of the
+        # factors are properly broadcasted (they can have a different number of axes)
+        S = sum(
+            f * mu_x * s2
+            for f, mu_x, s2 in zip(
+                fn, self._mu_0_x, self._S2_mu(self._mu_0, self.tau)
+            )
+        )
         return S
 
     def _calc_Fint_2(self):
@@ -1160,8 +1168,14 @@ class RT1(object):
             fn = self._fnevals(*args[2:4], *args[:2], *args[4:])[n_fn:]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # sum up the individual terms separately to make sure that the axes of the
+        # factors are properly broadcasted (they can have a different number of axes)
+        S = sum(
+            f * mu_x * s2
+            for f, mu_x, s2 in zip(
+                fn, self._mu_ex_x, self._S2_mu(self._mu_ex, self.tau)
+            )
+        )
         return S
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
-- 
2.43.0


From 6f2163ffed0646538eed1de9c7a9d01898ca16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 05/27] fix: use proper limits in the interaction term for
 nadir, tau=0 and thick layers

The evaluation of the exponential integrals resulted in nan-values for
nadir-incidence, vanishing optical depth (only partly handled in calc()) and
large values of tau/cos(theta).
---
 src/rt1_model/_calc.py | 45 ++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f8b876f..fc041bc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -14,7 +14,7 @@ import timeit
 
 import numpy as np
 import sympy as sp
-from scipy.special import expi, expn
+from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
@@ -530,23 +530,8 @@ class RT1(object):
             else:
                 Isurf = self._surface()
                 Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
                 if self.int_Q is True:
                     Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
@@ -1084,11 +1069,29 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+
+        x = tau * (1.0 - mu) / mu
+        with np.errstate(all="ignore"):
+            # exp(-x) * expi(x) (use an asymptotic expansion for large arguments
+            # since exp(-x) and expi(x) are no longer representable)
+            exp_expi = np.where(
+                x < 300.0,
+                np.exp(-np.minimum(x, 300.0)) * expi(np.minimum(x, 300.0)),
+                sum(factorial(n) * x ** (-(n + 1.0)) for n in range(7)),
+            )
+            hlp1 = (
+                np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
+                - expi(-tau)
+                + np.exp(-tau) * exp_expi
+            )
+            # limiting value for nadir-incidence (mu = 1)
+            hlp1 = np.where(
+                mu < 1.0,
+                hlp1,
+                np.exp(-tau) * (np.log(tau) + np.euler_gamma) - expi(-tau),
+            )
+        # limiting value for a non-existing canopy (tau = 0)
+        hlp1 = np.where(tau > 0.0, hlp1, 0.0)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From bbdedf4a06e9d2962e044af080c42e2b9e4f227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 06/27] fix: evaluate compiled coefficients and derivatives
 with named parameters

Compiled functions have been created for the parameters assigned at the time of
compilation and evaluated by position, so introducing new parameters (or using
fnevals_input of a model with a different parameter order) resulted in errors or
mixed up parameters. sp.var() also injected the parameter names as symbols into
the module namespace (e.g. a parameter called 'sp' or 'np' broke the module).
---
 src/rt1_model/_calc.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index fc041bc..f9ecaa8 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -852,12 +852,12 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
+            # (use only parameters that are required to evaluate the coefficients
+            # so that the functions are independent of the current param_dict)
+            angs = ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            symbs = {str(s) for fn in self._fn for s in fn.free_symbols} - set(angs)
 
-            self._fnevals_ = _lambdify(variables, self._fn)
+            self._fnevals_ = _lambdify([*angs, *sorted(symbs)], self._fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -1126,11 +1126,14 @@ class RT1(object):
             self.t_ex,
             self.p_ex,
             *self.param_dict.values(),
-        )
+        )[:4]
 
         n_fn = self.V.ncoefs + self.SRF.ncoefs - 1
         fn = np.broadcast_arrays(
-            *(np.atleast_1d(i) for i in self._fnevals(*args)[:n_fn])
+            *(
+                np.atleast_1d(i)
+                for i in self._fnevals(*args, **self.param_dict)[:n_fn]
+            )
         )
 
         # sum up the individual terms separately to make sure that the axes of the
@@ -1162,13 +1165,13 @@ class RT1(object):
             self.t_0,
             self.p_0,
             *self.param_dict.values(),
-        )
+        )[:4]
 
         n_fn = self.V.ncoefs + self.SRF.ncoefs - 1
-        fn = self._fnevals(*args)
+        fn = self._fnevals(*args, **self.param_dict)
         if len(fn) > n_fn:
             # use the coefficients of the reversed path (for fixed angles)
-            fn = self._fnevals(*args[2:4], *args[:2], *args[4:])[n_fn:]
+            fn = self._fnevals(*args[2:], *args[:2], **self.param_dict)[n_fn:]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         # sum up the individual terms separately to make sure that the axes of the
@@ -1456,12 +1459,11 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        angs = (theta_0, theta_ex, phi_0, phi_ex)
+        diff = sp.diff(self.V.phase_function, sp.Symbol(key))
+        symbs = sorted(map(str, diff.free_symbols.difference(angs)))
 
-        return _lambdify(
-            args,
-            sp.diff(self.V.phase_function, sp.Symbol(key)),
-        )
+        return _lambdify(angs + tuple(symbs), diff)
 
     def _d_surface_ddummy(self, key):
         """
@@ -1527,12 +1529,11 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        angs = (theta_0, theta_ex, phi_0, phi_ex)
+        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        symbs = sorted(map(str, diff.free_symbols.difference(angs)))
 
-        return _lambdify(
-            args,
-            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
-        )
+        return _lambdify(angs + tuple(symbs), diff)
 
     def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
         """
-- 
2.43.0


From 401a70609a6ef8bf307913323b08fcb22e255b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 07/27] fix: correct exponent in the tau-derivative of the
 volume contribution

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f9ecaa8..5d99bdc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1200,7 +1200,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From 466ce3a7af92de7ec8596cfd95104cf6e6698790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 08/27] fix: normalize the jacobian of sigma0 (linear units) by
 the incident intensity

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 5d99bdc..cff5767 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1582,7 +1582,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From 1450096ee8aac27ddfced884f442d166c3fbd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 09/27] fix: use the full chain-rule for the derivatives of the
 jacobian

The impact of symbols that are used in the definition of tau on the surface
contribution was ignored, and symbols that appear in more than one of tau, omega,
NormBRDF, bsf, V and SRF were only considered once.
---
 src/rt1_model/_calc.py | 120 ++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 62 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index cff5767..f8c265f 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1389,6 +1389,19 @@ class RT1(object):
 
         return _lambdify(args, diff)
 
+    def _chain_rule(self, key, **derivatives):
+        # sum up all contributions that originate from the parameters (NormBRDF, tau,
+        # omega, bsf) that depend on the given symbol
+        ret = 0.0
+        for param, derivative in derivatives.items():
+            if str(key) in self._get_param_symbs(param):
+                ret = ret + derivative() * self._dparam_ddummy_lambda(param, key)(
+                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
+                )
+            elif str(key) == param:
+                ret = ret + derivative()
+        return ret
+
     def _d_volume_ddummy(self, key):
         """
         Volume contribution derivative with respect to a given parameter (incl. bsf).
@@ -1403,37 +1416,29 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_domega() * inner
+        # make sure the result is broadcasted with respect to all parameters
+        angs = np.broadcast_arrays(
+            self.t_0, self.t_ex, self.p_0, self.p_ex, *self.param_dict.values()
+        )[:4]
 
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
-            dIvol = (
-                self.I0
-                * self.omega
-                * self._mu_0
-                / (self._mu_0 + self._mu_ex)
-                * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
-            return (1.0 - self.bsf) * dIvol
+        # direct dependency of the phase function
+        dIvol = (
+            self.I0
+            * self.omega
+            * self._mu_0
+            / (self._mu_0 + self._mu_ex)
+            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
+            * self._d_volume_dummy_lambda(key)(*angs, **self.param_dict)
+        )
+
+        # use chain rule for symbols used to specify parameters
+        return (1.0 - self.bsf) * dIvol + self._chain_rule(
+            key,
+            tau=self._dvolume_dtau,
+            omega=self._dvolume_domega,
+            NormBRDF=self._dvolume_dNormBRDF,
+            bsf=self._dvolume_dbsf,
+        )
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1479,31 +1484,30 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dbsf() * inner
-        else:
-            dI_bs = (
-                self.I0
-                * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
+        # make sure the result is broadcasted with respect to all parameters
+        angs = np.broadcast_arrays(
+            self.t_0, self.t_ex, self.p_0, self.p_ex, *self.param_dict.values()
+        )[:4]
 
-            dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+        # direct dependency of the BRDF
+        dI_bs = (
+            self.I0
+            * self._mu_0
+            * self._d_surface_dummy_lambda(key)(*angs, **self.param_dict)
+        )
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+
+        # use chain rule for symbols used to specify parameters
+        return self.NormBRDF * (
+            (1.0 - self.bsf) * dI_s + self.bsf * dI_bs
+        ) + self._chain_rule(
+            key,
+            tau=self._dsurface_dtau,
+            omega=self._dsurface_domega,
+            NormBRDF=self._dsurface_dNormBRDF,
+            bsf=self._dsurface_dbsf,
+        )
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
@@ -1590,15 +1594,7 @@ class RT1(object):
 
         jac = []
         for key in param_list:
-            if key == "omega":
-                jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
-            elif key == "tau":
-                jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
-            elif key == "NormBRDF":
-                jac += [(self._dsurface_dNormBRDF() + self._dvolume_dNormBRDF()) * norm]
-            elif key == "bsf":
-                jac += [(self._dsurface_dbsf() + self._dvolume_dbsf()) * norm]
-            elif key in self.param_dict:
+            if key in ("omega", "tau", "NormBRDF", "bsf") or key in self.param_dict:
                 jac += [
                     (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
                 ]
-- 
2.43.0


From 5f337e0e46f6b02bdcc9a43fa0e27be11ae85603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 10/27] fix: do not modify the model when pickling or copying
 it

__getstate__ changed the original object and replaced the analyze methods of
both the original and the restored object with None (they are class-methods and
therefore not part of the pickled state).
---
 src/rt1_model/_calc.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f8c265f..dd71b34 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -127,15 +127,18 @@ class RT1(object):
     def __getstate__(self):
         # this is required since functions created by
         # symengine are currently not pickleable!
+        # (use a copy to make sure the original object remains unchanged!)
+        state = self.__dict__.copy()
+
         _log.warning("Dropping fn-coefficients to allow pickling...")
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -143,11 +146,7 @@ class RT1(object):
                 + "generated by symengine will be platform-dependent!"
             )
 
-        # drop plot-functions (they are not pickleable and re-attached on unpickle)
-        for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
-
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From 569074a28beb5e518c3c76975913ca8c30567a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 11/27] fix: use a stable form of the HG_nadirnorm
 normalization

The normalization factor evaluated to nan for t=0 and suffered from cancellation
for small values of t.
---
 src/rt1_model/surface.py | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..6f6786e 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -225,22 +225,10 @@ class HG_nadirnorm(SurfaceScatter):
     def phase_function(self):
         """Define Phase function as sympy object."""
 
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
-        )
+        # (this form is numerically stable and well defined for t -> 0)
+        A = sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
+        B = sp.sqrt(1.0 + self.t**2.0)
+        nadir_hemreflect = 4.0 * (1.0 - self.t**2.0) / (A * (A + B) ** 2)
 
         func = (1.0 / nadir_hemreflect) * (
             (1.0 - self.t**2.0)
@@ -256,22 +244,10 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
-        )
+        # (this form is numerically stable and well defined for t -> 0)
+        A = sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
+        B = sp.sqrt(1.0 + self.t**2.0)
+        nadir_hemreflect = 4.0 * (1.0 - self.t**2.0) / (A * (A + B) ** 2)
 
         n = sp.Symbol("n")
         legendre_coefficients = (1.0 / nadir_hemreflect) * (
-- 
2.43.0


From d07c808e2647db73ae7840fa766ac1d481254917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 12/27] fix: use center of range and name of parameter-tuples
 in analyze widgets

The default start-value was half the width of the range, and the (documented)
name of the parameter-tuple was ignored.
---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..df19e5d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 29ce9d4085a54db88a600844c10169098b72ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 13/27] fix: add missing log-format preset 'basic'

The format is documented in set_loglevel() but resulted in an error.
---
 src/rt1_model/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..13591c8 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -109,6 +109,7 @@ def _set_logfmt(fmt=None, datefmt=None):
 
 _log_format_presets = {
     "minimal": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
+    "basic": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
     "timed": (
         "%(asctime)s.%(msecs)03d %(levelname)s: %(message)s",
         "%H:%M:%S",
-- 
2.43.0


From cae9a22e117a90e5064368ecc0ed9c793fb2b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 14/27] fix: report missing V and SRF parameters in RT1.calc()

Missing parameters of the scattering distributions resulted in a RuntimeError
(symengine) or NameError (sympy) instead of the intended error message.
---
 src/rt1_model/_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index dd71b34..38fe721 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -545,7 +545,8 @@ class RT1(object):
 
             return ret
 
-        except TypeError as ex:
+        except Exception as ex:
+            # (the type of the exception depends on the used lambda-backend)
             symbs = (
                 {
                     *self._all_param_symbs,
@@ -564,7 +565,7 @@ class RT1(object):
             if len(symbs) > 0:
                 raise TypeError(
                     f"Model evaluation requires parameter specification for {symbs}."
-                )
+                ) from ex
             else:
                 raise ex
 
-- 
2.43.0


From ee4cce1ca7fddcaeab49c10e91d5b89aa9983712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 15/27] fix: support sympy expressions and constant strings as
 parameter definitions

---
 src/rt1_model/_calc.py   | 4 ++--
 src/rt1_model/helpers.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 38fe721..9175b79 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -731,7 +731,7 @@ class RT1(object):
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
         p = getattr(self, f"_{param}")
-        if isinstance(p, str):
+        if isinstance(p, (str, sp.Basic)):
             expr = _parse_sympy_param(getattr(self, f"_{param}"))
 
             symbs = list(map(str, expr.free_symbols))
@@ -1369,7 +1369,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 27c164e..31e5b78 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -51,6 +51,11 @@ def _lambdify(variables, functions):
     if backend == "symengine":
         from symengine import Lambdify
 
+        if len(var) == 0:
+            # symengine requires at least one variable to create a function
+            const = np.array(funcs, dtype=float)
+            return lambda **kwargs: const
+
         # using symengines own "common subexpression elimination"
         # routine to perform lambdification
 
-- 
2.43.0


From 0b77c9117484d12c98a40827a5d28e00809c1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 16/27] fix: support the parameter names S and Q (similar to N)

The names parse to sympy's singleton registry and assumption keys.
---
 src/rt1_model/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 31e5b78..3390c86 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -4,7 +4,7 @@ from ._numpydoc_docscrape import NumpyDocString
 import sympy as sp
 import numpy as np
 
-_local_variable_symbols = dict(N=sp.Symbol("N"))
+_local_variable_symbols = {key: sp.Symbol(key) for key in ("N", "S", "Q")}
 
 
 def _parse_sympy_param(val):
-- 
2.43.0


From ffd5f3e91cc9132e70237dca098b662e2f39ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 17/27] fix: evaluate NormBRDF with the provided parameters in
 hemreflect

NormBRDF values provided in param_dict have been ignored if the BRDF is given as
RT1 object (resulting in an error if no value is assigned to the model).
---
 src/rt1_model/plot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index df19e5d..0592fc7 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -315,11 +315,14 @@ def hemreflect(
     if R is not None:
         BRDF = R.SRF.calc
 
-        try:
-            Nsymb = R.NormBRDF.free_symbols
-            Nfunc = _lambdify(list(Nsymb), [R.NormBRDF])
-            NormBRDF = np.array(Nfunc(*[param_dict[str(i)] for i in Nsymb])).squeeze()
-        except Exception:
+        Nfunc = R._get_param_funcs("NormBRDF")
+        if Nfunc is not None:
+            # use the values of the model for parameters not provided in param_dict
+            Nparams = {**R.param_dict, **param_dict}
+            NormBRDF = Nfunc(
+                **{key: Nparams[key] for key in R._get_param_symbs("NormBRDF")}
+            ).squeeze()
+        else:
             NormBRDF = R.NormBRDF
     elif SRF is not None:
         BRDF = SRF.calc
-- 
2.43.0


From 6ea869122f5f60161157afde4a82e0d69419123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 18/27] fix: support tuples of scattering distributions in
 polarplot

(as stated in the docstring of the function)
---
 src/rt1_model/plot.py | 50 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 0592fc7..c26be4f 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -86,15 +86,6 @@ def polarplot(
         plotted on top of each other.
 
     """
-    if aprox is True:
-        try:
-            V_SRF.ncoefs
-        except Exception:
-            _log.warning(
-                "To print scatter function approximations, ncoefs must be provided!"
-            )
-            aprox = False
-
     assert isinstance(inc, list), (
         "Error: incidence-angles for " + "polarplot must be a list"
     )
@@ -105,6 +96,19 @@ def polarplot(
     if V_SRF is None:
         assert False, "Error: You must provide a volume- or surface object!"
 
+    # support both a single object and a tuple of objects
+    V_SRFs = V_SRF if isinstance(V_SRF, (tuple, list)) else (V_SRF,)
+
+    if aprox is True:
+        try:
+            for V_SRF in V_SRFs:
+                V_SRF.ncoefs
+        except Exception:
+            _log.warning(
+                "To print scatter function approximations, ncoefs must be provided!"
+            )
+            aprox = False
+
     use_colors = ["k", "r", "g", "b", "c", "m", "y"]
 
     if param_dict is None:
@@ -113,7 +117,9 @@ def polarplot(
         param_dict = [param_dict]
 
     # Check if all required parameters have been provided in the param_dict
-    required_symbs = set(map(str, V_SRF.phase_function.free_symbols)) - {
+    required_symbs = {
+        str(symb) for V_SRF in V_SRFs for symb in V_SRF.phase_function.free_symbols
+    } - {
         "phi_0",
         "phi_ex",
         "theta_0",
@@ -134,23 +140,23 @@ def polarplot(
         fig = ax.figure
         assert ax.name == "polar", "You must provide axes in polar-projection!"
 
-    if isinstance(V_SRF, SurfaceScatter):
-        if label is None:
-            label = "Surface-Scattering Phase Function"
-        angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]
+    # plot scattering distribution function
+    for n_V_SRF, V_SRF in enumerate(V_SRFs):
+        if isinstance(V_SRF, SurfaceScatter):
+            if label is None:
+                label = "Surface-Scattering Phase Function"
+            angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]
 
-        thetass = np.arange(-np.pi / 2.0, np.pi / 2.0, 0.01)
+            thetass = np.arange(-np.pi / 2.0, np.pi / 2.0, 0.01)
 
-    if isinstance(V_SRF, VolumeScatter):
-        if label is None:
-            label = "Volume-Scattering Phase Function"
+        if isinstance(V_SRF, VolumeScatter):
+            if label is None:
+                label = "Volume-Scattering Phase Function"
 
-        angs = ["theta_0", "theta_s", "phi_0", "phi_s"]
+            angs = ["theta_0", "theta_s", "phi_0", "phi_s"]
 
-        thetass = np.arange(0.0, 2.0 * np.pi, 0.01)
+            thetass = np.arange(0.0, 2.0 * np.pi, 0.01)
 
-    # plot scattering distribution function
-    for n_V_SRF, V_SRF in enumerate(np.atleast_1d(V_SRF)):
         for n_p, params in enumerate(param_dict):
             # define a plotfunction of the legendre-approximation of p
             if aprox is True:
-- 
2.43.0


From 070d958773a0a417de9d178ea71d3ba4616f26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 19/27] fix: use integer exponents to get finite derivatives
 for t=0

---
 src/rt1_model/surface.py | 20 ++++++++++----------
 src/rt1_model/volume.py  | 10 +++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 6f6786e..a6eca95 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -183,10 +183,10 @@ class HenyeyGreenstein(SurfaceScatter):
 
         return (
             1.0
-            * (1.0 - self.t**2.0)
+            * (1.0 - self.t**2)
             / (
                 (sp.pi)
-                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+                * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
                 ** 1.5
             )
         )
@@ -226,15 +226,15 @@ class HG_nadirnorm(SurfaceScatter):
         """Define Phase function as sympy object."""
 
         # (this form is numerically stable and well defined for t -> 0)
-        A = sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-        B = sp.sqrt(1.0 + self.t**2.0)
-        nadir_hemreflect = 4.0 * (1.0 - self.t**2.0) / (A * (A + B) ** 2)
+        A = sp.sqrt(1.0 + self.t**2 - 2.0 * self.a[0] * self.t)
+        B = sp.sqrt(1.0 + self.t**2)
+        nadir_hemreflect = 4.0 * (1.0 - self.t**2) / (A * (A + B) ** 2)
 
         func = (1.0 / nadir_hemreflect) * (
-            (1.0 - self.t**2.0)
+            (1.0 - self.t**2)
             / (
                 (sp.pi)
-                * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+                * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
                 ** 1.5
             )
         )
@@ -245,9 +245,9 @@ class HG_nadirnorm(SurfaceScatter):
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
         # (this form is numerically stable and well defined for t -> 0)
-        A = sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-        B = sp.sqrt(1.0 + self.t**2.0)
-        nadir_hemreflect = 4.0 * (1.0 - self.t**2.0) / (A * (A + B) ** 2)
+        A = sp.sqrt(1.0 + self.t**2 - 2.0 * self.a[0] * self.t)
+        B = sp.sqrt(1.0 + self.t**2)
+        nadir_hemreflect = 4.0 * (1.0 - self.t**2) / (A * (A + B) ** 2)
 
         n = sp.Symbol("n")
         legendre_coefficients = (1.0 / nadir_hemreflect) * (
diff --git a/src/rt1_model/volume.py b/src/rt1_model/volume.py
index f460021..bad9769 100644
--- a/src/rt1_model/volume.py
+++ b/src/rt1_model/volume.py
@@ -120,7 +120,7 @@ class Rayleigh(VolumeScatter):
     @property
     def phase_function(self):
         """Phase function as sympy expression."""
-        return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2.0)
+        return 3.0 / (16.0 * sp.pi) * (1.0 + self.scattering_angle_symbolic**2)
 
     @property
     def legendre_coefficients(self):
@@ -162,9 +162,9 @@ class HenyeyGreenstein(VolumeScatter):
     @property
     def phase_function(self):
         """Phase function as sympy expression."""
-        func = (1.0 - self.t**2.0) / (
+        func = (1.0 - self.t**2) / (
             (4.0 * sp.pi)
-            * (1.0 + self.t**2.0 - 2.0 * self.t * self.scattering_angle_symbolic)
+            * (1.0 + self.t**2 - 2.0 * self.t * self.scattering_angle_symbolic)
             ** 1.5
         )
 
@@ -211,11 +211,11 @@ class HGRayleigh(VolumeScatter):
                 1.0
                 / (2.0 + self.t**2)
                 * (1 + self.scattering_angle_symbolic**2)
-                * (1.0 - self.t**2.0)
+                * (1.0 - self.t**2)
                 / (
                     (
                         1.0
-                        + self.t**2.0
+                        + self.t**2
                         - 2.0 * self.t * self.scattering_angle_symbolic
                     )
                     ** 1.5
-- 
2.43.0


From 2a0707935a1509af8c9d8eae4a5fbef269388843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 20/27] fix: do not partially apply rejected angle changes

---
 src/rt1_model/_calc.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9175b79..7999494 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -331,6 +331,12 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        # check the angle before changing anything
+        if p_0 is not None:
+            assert isinstance(
+                p_0, (int, float, np.number)
+            ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -339,9 +345,6 @@ class RT1(object):
         self._fnevals_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -364,6 +367,14 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+
+        # check all angles before changing anything
+        for ang in angs:
+            assert ang is None or isinstance(
+                ang, (int, float, np.number)
+            ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -372,7 +383,6 @@ class RT1(object):
         self._fn_ = None
         self._fnevals_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -384,9 +394,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
@@ -395,7 +402,7 @@ class RT1(object):
         self._geom_ang_symbs = geom_ang_symbs
 
     def _sanitize_geometry_parameter(self, name, value):
-        assert name not in self._fixed_angles, "The angle {name} is fixed!"
+        assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
         return np.atleast_1d(value)
 
@@ -438,10 +445,16 @@ class RT1(object):
                 "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
             )
 
+        # check all angles before changing anything
+        angs = {
+            key: self._sanitize_geometry_parameter(key, val)
+            for key, val in kwargs.items()
+        }
+
         self._clear_geom_cache()
 
-        for key, val in kwargs.items():
-            setattr(self, f"_{key}", self._sanitize_geometry_parameter(key, val))
+        for key, val in angs.items():
+            setattr(self, f"_{key}", val)
 
     def update_params(self, **kwargs):
         """
-- 
2.43.0


From e633fc7ce2f272ac8a9cd12271948d55543e61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 21/27] fix: avoid name clashes with symengine's common
 subexpressions

---
 src/rt1_model/helpers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 3390c86..ee33c0e 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -1,6 +1,8 @@
 from . import _log, get_lambda_backend
 from ._numpydoc_docscrape import NumpyDocString
 
+import re
+
 import sympy as sp
 import numpy as np
 
@@ -49,13 +51,23 @@ def _lambdify(variables, functions):
     # the fn-coefficient generation
     backend = get_lambda_backend()
     if backend == "symengine":
-        from symengine import Lambdify
+        from symengine import Lambdify, sympify
 
         if len(var) == 0:
             # symengine requires at least one variable to create a function
             const = np.array(funcs, dtype=float)
             return lambda **kwargs: const
 
+        # symengine uses "x0", "x1", ... as names for common subexpressions, so make
+        # sure that the variables are not overwritten
+        rename = {v: sp.Symbol(f"_{v}_") for v in var if re.match(r"x\d+$", str(v))}
+        if rename:
+            var = [rename.get(v, v) for v in var]
+            if isinstance(funcs, list):
+                funcs = [sympify(f).xreplace(rename) for f in funcs]
+            else:
+                funcs = sympify(funcs).xreplace(rename)
+
         # using symengines own "common subexpression elimination"
         # routine to perform lambdification
 
-- 
2.43.0


From 1ccb74efc27ebadedb052f3cb27424c9f3c88b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 22/27] fix: avoid clash of parameter-name n with the summation
 index

---
 src/rt1_model/_calc.py   |  8 ++++----
 src/rt1_model/helpers.py | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 7999494..72b56e6 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -18,7 +18,7 @@ from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
-from .helpers import _lambdify, _parse_sympy_param
+from .helpers import _get_symbol, _lambdify, _parse_sympy_param
 
 try:
     from .plot import Analyze, Analyze3D
@@ -1384,7 +1384,7 @@ class RT1(object):
 
         if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
-                _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
+                _parse_sympy_param(getattr(self, f"_{param}")), _get_symbol(key)
             )
             return diff
         else:
@@ -1478,7 +1478,7 @@ class RT1(object):
         phi_ex = sp.Symbol("phi_ex")
 
         angs = (theta_0, theta_ex, phi_0, phi_ex)
-        diff = sp.diff(self.V.phase_function, sp.Symbol(key))
+        diff = sp.diff(self.V.phase_function, _get_symbol(key))
         symbs = sorted(map(str, diff.free_symbols.difference(angs)))
 
         return _lambdify(angs + tuple(symbs), diff)
@@ -1547,7 +1547,7 @@ class RT1(object):
         phi_ex = sp.Symbol("phi_ex")
 
         angs = (theta_0, theta_ex, phi_0, phi_ex)
-        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        diff = sp.diff(self.SRF.phase_function, _get_symbol(key))
         symbs = sorted(map(str, diff.free_symbols.difference(angs)))
 
         return _lambdify(angs + tuple(symbs), diff)
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index ee33c0e..03b6de1 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -8,12 +8,23 @@ import numpy as np
 
 _local_variable_symbols = {key: sp.Symbol(key) for key in ("N", "S", "Q")}
 
+# a parameter named "n" must be distinguishable from the summation-index used in the
+# Legendre expansion
+_local_variable_symbols["n"] = sp.Symbol("n", real=True)
+
+
+def _get_symbol(name):
+    # get the symbol that represents a parameter
+    return _local_variable_symbols.get(name, sp.Symbol(name))
+
 
 def _parse_sympy_param(val):
     # convenience function to set parameters as sympy.Symbols if a string
     # was used as value
     if isinstance(val, str):
         return sp.parse_expr(val, local_dict=_local_variable_symbols)
+    elif isinstance(val, sp.Basic):
+        return val.xreplace({sp.Symbol("n"): _get_symbol("n")})
     else:
         return val
 
@@ -40,7 +51,7 @@ def _lambdify(variables, functions):
 
     funcs = []
     for f in np.atleast_1d(functions):
-        funcs.append(_parse_sympy_param(f))
+        funcs.append(_parse_sympy_param(f) if isinstance(f, str) else f)
 
     # make sure that we don't add additional axes to the returned dataset
     # if a single function is evaluated
-- 
2.43.0


From afbdcb0e7cfa4ef7fcca9bd60e8aee27ee86c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 23/27] fix: reject missing variables in sympy-lambdified
 functions

---
 src/rt1_model/helpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 03b6de1..27074bd 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -107,6 +107,13 @@ def _lambdify(variables, functions):
         # using sympy's lambdify without "common subexpression
         # elimination" to perform lambdification
 
+        # (sympy would treat missing variables as symbols so they remain unnoticed in
+        # case they vanish in the numerical evaluation)
+        symbs = {str(s) for f in np.atleast_1d(funcs) for s in sp.sympify(f).free_symbols}
+        missing = symbs - set(map(str, var))
+        if missing:
+            raise TypeError(f"The variables {missing} are not specified!")
+
         sp_lambda_func = sp.lambdify(
             var,
             funcs,
-- 
2.43.0


From 153619511b02a87a75281c68ac0e1bd759b3fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 24/27] fix: support derivatives of cosine-lobes with symbolic
 scattering-angle parameters

---
 src/rt1_model/_calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 72b56e6..8f934fa 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1548,6 +1548,8 @@ class RT1(object):
 
         angs = (theta_0, theta_ex, phi_0, phi_ex)
         diff = sp.diff(self.SRF.phase_function, _get_symbol(key))
+        # the sign-function (used to define the cosine-lobe) is piecewise constant
+        diff = diff.replace(lambda x: isinstance(x, (sp.Subs, sp.Derivative)), lambda x: 0)
         symbs = sorted(map(str, diff.free_symbols.difference(angs)))
 
         return _lambdify(angs + tuple(symbs), diff)
-- 
2.43.0


From a0c4b7f24bd4a658ca88bfc9be595066b643f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 25/27] fix: consider the shape of omega for bare soil defined
 via a numeric tau

---
 src/rt1_model/_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 8f934fa..b777714 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -537,8 +537,10 @@ class RT1(object):
                     else:
                         Iint = np.array([0.0])
                 else:
-                    Ivol = np.full_like(Isurf, 0.0)
-                    Iint = np.full_like(Isurf, 0.0)
+                    # (omega might still determine the shape of the results)
+                    shape = np.broadcast_shapes(np.shape(Isurf), np.shape(self.omega))
+                    Ivol = np.zeros(shape)
+                    Iint = np.zeros(shape)
             else:
                 Isurf = self._surface()
                 Ivol = self._volume()
-- 
2.43.0


From d7c3b33777f8e345959db879faca80b30daa26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 26/27] fix: consider numeric arrays used to define tau, omega,
 NormBRDF or bsf in the shape of all results

---
 src/rt1_model/_calc.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b777714..d4ecb40 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -537,10 +537,8 @@ class RT1(object):
                     else:
                         Iint = np.array([0.0])
                 else:
-                    # (omega might still determine the shape of the results)
-                    shape = np.broadcast_shapes(np.shape(Isurf), np.shape(self.omega))
-                    Ivol = np.zeros(shape)
-                    Iint = np.zeros(shape)
+                    Ivol = np.full_like(Isurf, 0.0)
+                    Iint = np.full_like(Isurf, 0.0)
             else:
                 Isurf = self._surface()
                 Ivol = self._volume()
@@ -623,7 +621,9 @@ class RT1(object):
 
         Isurf = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * I_bs
 
-        return self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)
+        return self._broadcast_definitions(
+            self.NormBRDF * ((1.0 - self.bsf) * Isurf + self.bsf * I_bs)
+        )
 
     def volume(self, **params):
         """
@@ -662,7 +662,7 @@ class RT1(object):
             )
         )
 
-        return (1.0 - self.bsf) * vol
+        return self._broadcast_definitions((1.0 - self.bsf) * vol)
 
     def interaction(self, **params):
         """
@@ -704,6 +704,15 @@ class RT1(object):
 
         return self.NormBRDF * (1.0 - self.bsf) * Iint
 
+    def _broadcast_definitions(self, val):
+        # make sure that numeric arrays that are used to define tau, omega, NormBRDF
+        # or bsf are considered in the shape of the results
+        shapes = (
+            np.shape(getattr(self, f"_{key}"))
+            for key in ("tau", "omega", "NormBRDF", "bsf")
+        )
+        return val * np.ones(np.broadcast_shapes(*shapes))
+
     def _surface_volume(self):
         # convenience function to get surface + volume (e.g. without interaction)
 
@@ -1613,7 +1622,10 @@ class RT1(object):
         for key in param_list:
             if key in ("omega", "tau", "NormBRDF", "bsf") or key in self.param_dict:
                 jac += [
-                    (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
+                    self._broadcast_definitions(
+                        (self._d_surface_ddummy(key) + self._d_volume_ddummy(key))
+                        * norm
+                    )
                 ]
             else:
                 assert False, (
-- 
2.43.0


From 277b364e3b8d6409cddc23facec7f6cfa089a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 27/27] fix: place the 135 degree label of polarplot at 135
 degrees

---
 src/rt1_model/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index c26be4f..43e8445 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -188,7 +188,7 @@ def polarplot(
                     ax.plot(thetass, radapprox, color + "--")
 
                 ax.fill_between(thetass, rad, alpha=0.2, color=color)
-                ax.set_xticks(np.deg2rad([0, 45, 90, 125, 180]))
+                ax.set_xticks(np.deg2rad([0, 45, 90, 135, 180]))
                 ax.set_xticklabels(
                     [
                         r"$0^\circ$",
-- 
2.43.0

