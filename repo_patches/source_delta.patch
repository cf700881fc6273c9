From 611629291616b655df454719f972fe9427b370fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 01/17] fix: derivative of the volume contribution with respect
 to tau

The factor of the exit direction was 1 / mu_ex**(-1) = mu_ex instead of 1 / mu_ex.
---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..cbe1f72 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1156,7 +1156,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From a201383ee8a513a206ef7272f3d9f4223a10849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 02/17] fix: jacobian in linear sigma0 units is missing the
 division by I0

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index cbe1f72..f89b877 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1540,7 +1540,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From 87d66b247ec019a3af30c50fdc6af762c5d531f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 03/17] fix: exit azimuth angle of the fn-coefficients for
 bistatic geometry

The relation phi_ex = phi_0 + pi only holds for monostatic geometry, but the shift was
also added to the exit azimuth angle of bistatic geometries.
---
 src/rt1_model/_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f89b877..f35769e 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -949,7 +949,7 @@ class RT1(object):
         angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
+            theta_s, angs[1], phi_s, angs[3]
         ).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
-- 
2.43.0


From 7831fa0b00f498418b02f524d472050bb2db6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 04/17] fix: pickling a model replaced its analyzers by None

__getstate__ changed the object itself, so the analyze-functions were lost for the pickled
object as well as for all objects restored from the pickle.
---
 src/rt1_model/_calc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f35769e..e1f5f85 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -128,14 +128,17 @@ class RT1(object):
         # this is required since functions created by
         # symengine are currently not pickleable!
         _log.warning("Dropping fn-coefficients to allow pickling...")
+        # (use a copy to make sure that the object itself remains unchanged)
+        state = self.__dict__.copy()
+
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -145,9 +148,9 @@ class RT1(object):
 
         # drop plot-functions (they are not pickleable and re-attached on unpickle)
         for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
+            state.pop(key, None)
 
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From 7956aa7ddf341b42aad7301cdab88b16f5d4cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 05/17] fix: re-create compiled functions if new parameters are
 introduced

The compiled fn-coefficients and phase function derivatives are functions of the
parameter names known at the time of their first evaluation.  Introducing a new
parameter afterwards resulted in an error.
---
 src/rt1_model/_calc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index e1f5f85..170ee48 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -484,6 +484,12 @@ class RT1(object):
         ):
             kwargs.setdefault("bsf", 0)
 
+        # the arguments of the compiled functions are defined by the parameter-names,
+        # so they must be re-created if new parameters are introduced
+        if not set(kwargs).issubset(self.param_dict):
+            self._clear_cache("_d_volume_dummy_lambda", "_d_surface_dummy_lambda")
+            self._fnevals_ = None
+
         self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
 
     def calc(self, **params):
-- 
2.43.0


From c7e660e3d4b3a5eafb73247d0a9209002d76b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 06/17] fix: default start-value and label of the analyzer
 sliders

The documented default for the start-value is the center of the range, and the
optional name was ignored.
---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..2aca1ca 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmin"] + p["valmax"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 90f5d46c01d9dabddc8cdf53679a51f99258138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 07/17] fix: hemispherical reflectance of constant BRDFs

For the isotropic BRDF (evaluated with sympy) the integrand does not depend on phi_s so
it has only one column, which made the integration fail.
---
 src/rt1_model/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 2aca1ca..4ad38e9 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -356,7 +356,8 @@ def hemreflect(
             )
 
         # evaluate the integral using Simpson's Rule twice
-        z = integfunkt(x[:, None], y)
+        # (the BRDF might be a constant, so make sure to get a value for each grid-point)
+        z = np.broadcast_to(integfunkt(x[:, None], y), (x.size, y.size))
         sol = sol + [simps(simps(z, y), x)]
 
     sol = np.array(sol) * NormBRDF
-- 
2.43.0


From 07b75ef52210e19b8730df996127e0880d63355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 08/17] fix: do not inject parameter-names into the module
 namespace

sp.var() defines global variables, so a parameter called e.g. 'np' or 'expi' replaced
the corresponding import.
---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 170ee48..9c69e50 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -865,7 +865,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
+            variables = sp.symbols(
                 ("theta_0", "phi_0", "theta_ex", "phi_ex")
                 + tuple(map(str, self.param_dict.keys()))
             )
-- 
2.43.0


From ce86a78406d326a5252c32badc5d1801098d7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 09/17] fix: name missing parameters of the scattering
 distributions

Depending on the lambda-backend, a missing parameter results in a TypeError, NameError
or RuntimeError.
---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9c69e50..e6f2f8f 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -568,7 +568,7 @@ class RT1(object):
 
             return ret
 
-        except TypeError as ex:
+        except Exception as ex:
             symbs = (
                 {
                     *self._all_param_symbs,
-- 
2.43.0


From d119617af62d91c737352c7c9ee60068127df794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 10/17] fix: support S and Q as parameter names

As for N, sympy would otherwise parse them as its own objects.
---
 src/rt1_model/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..9727376 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -4,7 +4,7 @@ from ._numpydoc_docscrape import NumpyDocString
 import sympy as sp
 import numpy as np
 
-_local_variable_symbols = dict(N=sp.Symbol("N"))
+_local_variable_symbols = {key: sp.Symbol(key) for key in ("N", "S", "Q")}
 
 
 def _parse_sympy_param(val):
-- 
2.43.0


From b0cb1862e6ba123f29b5b07c79777ee1ceb253ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 11/17] fix: jacobian of parameters that affect several model
 quantities

Only one of the places where a parameter occurs has been considered, and the effect of a
parameter of tau on the surface contribution was missing.
---
 src/rt1_model/_calc.py | 90 +++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 46 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index e6f2f8f..a5e3681 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1368,37 +1368,33 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
+        # direct contribution via the phase function
+        dIvol = (
+            self.I0
+            * self.omega
+            * self._mu_0
+            / (self._mu_0 + self._mu_ex)
+            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
+            * self._d_volume_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_domega() * inner
+        )
+        dvdk = (1.0 - self.bsf) * dIvol
 
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
-            dIvol = (
-                self.I0
-                * self.omega
-                * self._mu_0
-                / (self._mu_0 + self._mu_ex)
-                * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
+        # Check symbols used to specify parameters.
+        # If yes, use chain rule to evaluate derivatives
+        for param, derivative in (
+            ("tau", self._dvolume_dtau),
+            ("omega", self._dvolume_domega),
+            ("bsf", self._dvolume_dbsf),
+        ):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._dparam_ddummy_lambda(param, key)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
-            )
-            return (1.0 - self.bsf) * dIvol
+                dvdk = dvdk + derivative() * inner
+
+        return dvdk
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1445,31 +1441,33 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
+        # direct contribution via the BRDF
+        dI_bs = (
+            self.I0
+            * self._mu_0
+            * self._d_surface_dummy_lambda(key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dsurface_dbsf() * inner
-        else:
-            dI_bs = (
-                self.I0
-                * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
+        )
+
+        dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+
+        dsdk = self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+
+        # Check symbols used to specify parameters.
+        # If yes, use chain rule to evaluate derivatives
+        for param, derivative in (
+            ("tau", self._dsurface_dtau),
+            ("NormBRDF", self._dsurface_dNormBRDF),
+            ("bsf", self._dsurface_dbsf),
+        ):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._dparam_ddummy_lambda(param, key)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
-            )
-
-            dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+                dsdk = dsdk + derivative() * inner
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        return dsdk
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
-- 
2.43.0


From 8b523f9815e306799699230ba311792b500c26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 12/17] fix: broadcasting of angles and parameters with
 different shapes

The contributions have been stacked without broadcasting, and the leading axis of the
fn-coefficients was misaligned if angles, tau and other parameters differ in their number
of dimensions.
---
 src/rt1_model/_calc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a5e3681..c921f6a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -559,11 +559,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
@@ -1118,8 +1120,8 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        S2 = self._S2_mu(self._mu_0, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_0_x, S2))
         return S
 
     def _calc_Fint_2(self):
@@ -1145,8 +1147,8 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        S2 = self._S2_mu(self._mu_ex, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_ex_x, S2))
         return S
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
-- 
2.43.0


From 37de9079c43a4aa152d9c29b34901dc300ce4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 13/17] fix: scipy_least_squares jacobian of derivatives that
 need broadcasting

Derivatives that do not depend on a timeseries parameter have fewer elements than
measurements, which resulted in an error or a matrix with missing rows.
---
 src/rt1_model/_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index c921f6a..7f4160e 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1583,7 +1583,11 @@ class RT1(object):
             # column represents the derivatives with respect to the optimized parameter)
             jac_columns = []
 
+            # make sure that there is a derivative for each measurement
+            shape = np.shape(self._surface() + self._volume())
+
             for key, j in zip(param_list, jac):
+                j = np.broadcast_to(j, shape)
                 if np.size(self.param_dict[key]) == 1:
                     # Static parameters are affected by all measurements, so the
                     # corresponding row of the scipy-jacobian is given by the ravelled
-- 
2.43.0


From 12eb4ccd6e4d41ffb6ca91bbfb23a1d73606dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 14/17] fix: interaction contribution at nadir

For mu = 1 the result was nan because of a removable singularity.
---
 src/rt1_model/_calc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 7f4160e..584207d 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1077,11 +1077,13 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+        # (for mu = 1 the singularities of log and expi cancel out)
+        with np.errstate(divide="ignore", invalid="ignore"):
+            hlp1 = np.exp(-tau / mu) * np.where(
+                mu == 1.0,
+                np.euler_gamma + np.log(tau),
+                np.log(mu / (1.0 - mu)) + expi(tau / mu - tau),
+            ) - expi(-tau)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From 4f7fa2fbfb5b7d50b60f728fca33eb7f5c7612e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 15/17] fix: interaction contribution for bistatic geometry
 with fixed angles

Fixed angles are inserted in the fn-coefficients, so the coefficients cannot be re-used
with exchanged directions.
---
 src/rt1_model/_calc.py | 59 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 584207d..bcec142 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -341,6 +341,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_ex_ = None
 
         if p_0 is not None:
             assert isinstance(
@@ -375,6 +376,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_ex_ = None
 
         angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
@@ -489,6 +491,7 @@ class RT1(object):
         if not set(kwargs).issubset(self.param_dict):
             self._clear_cache("_d_volume_dummy_lambda", "_d_surface_dummy_lambda")
             self._fnevals_ = None
+            self._fnevals_ex_ = None
 
         self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
 
@@ -867,12 +870,7 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.symbols(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
-
-            self._fnevals_ = _lambdify(variables, self._fn)
+            self._fnevals_ = _lambdify(self._fnevals_variables, self._fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -883,6 +881,42 @@ class RT1(object):
         else:
             return None
 
+    @property
+    def _fnevals_variables(self):
+        return sp.symbols(
+            ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            + tuple(map(str, self.param_dict.keys()))
+        )
+
+    @property
+    def _fnevals_ex(self):
+        # The fnevals functions for exchanged incidence- and exit directions.
+        #
+        # Fixed angles of bistatic geometries are directly inserted in the
+        # fn-coefficients, so they must be evaluated separately for this case.
+        if (
+            self._monostatic
+            or len(self._fixed_angles) == 0
+            or self.fn_input is not None
+            or self.fnevals_input is not None
+        ):
+            return self._fnevals
+
+        if getattr(self, "_fnevals_ex_", None) is None:
+            t_0, t_ex, p_0, p_ex = (
+                symb if isinstance(ang, sp.Symbol) else ang
+                for symb, ang in zip(
+                    sp.symbols(("theta_ex", "theta_0", "phi_ex", "phi_0")),
+                    self._geom_ang_symbs,
+                )
+            )
+            fn = self._extract_coefficients(
+                self._calc_interaction_expansion([t_ex, t_0, p_ex, p_0])
+            )
+            self._fnevals_ex_ = _lambdify(self._fnevals_variables, fn)
+
+        return self._fnevals_ex_
+
     def _extract_coefficients(self, expr):
         """
         Extract Fn coefficients from given forumula.
@@ -927,7 +961,7 @@ class RT1(object):
 
         return fn
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, angs=None):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -944,6 +978,12 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        angs : list, optional
+              The angles [t_0, t_ex, p_0, p_ex] (e.g. symbols or fixed values).
+              The default is None in which case the currently set geometry is used.
+
         Returns
         -------
         res : sympy expression
@@ -957,7 +997,8 @@ class RT1(object):
         theta_s = sp.Symbol("theta_s")
         phi_s = sp.Symbol("phi_s")
 
-        angs = self._geom_ang_symbs
+        if angs is None:
+            angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
             theta_s, angs[1], phi_s, angs[3]
@@ -1147,7 +1188,7 @@ class RT1(object):
             *self.param_dict.values(),
         )
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals_ex(*args)))
 
         S2 = self._S2_mu(self._mu_ex, self.tau)
         S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_ex_x, S2))
-- 
2.43.0


From b4eba9e9fd0d6cb6d494599a1acceef81942fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 16/17] fix: raise an error if parameters of the scattering
 distributions are missing

In linear units and with sympy as lambda-backend, a missing parameter resulted in an array
of symbolic expressions instead of an error.
---
 src/rt1_model/_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index bcec142..17d0f0a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -571,6 +571,10 @@ class RT1(object):
                     np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
+            # (symbols without a value are retained if sympy is used as lambda-backend)
+            if ret.dtype == object:
+                raise TypeError("The result of the model evaluation is not numeric.")
+
             return ret
 
         except Exception as ex:
-- 
2.43.0


From 5d4a4eb922239c0fb8af2ec9c1ffaa310bbdd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 17/17] fix: use the provided parameter values for NormBRDF in
 hemreflect

---
 src/rt1_model/plot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 4ad38e9..f79cfb6 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -315,11 +315,14 @@ def hemreflect(
     if R is not None:
         BRDF = R.SRF.calc
 
-        try:
-            Nsymb = R.NormBRDF.free_symbols
-            Nfunc = _lambdify(list(Nsymb), [R.NormBRDF])
-            NormBRDF = np.array(Nfunc(*[param_dict[str(i)] for i in Nsymb])).squeeze()
-        except Exception:
+        Nfunc = R._get_param_funcs("NormBRDF")
+        if Nfunc is not None:
+            # values provided via param_dict take precedence over the model parameters
+            params = {**R.param_dict, **param_dict}
+            NormBRDF = Nfunc(
+                **{key: params[key] for key in R._get_param_symbs("NormBRDF")}
+            )
+        else:
             NormBRDF = R.NormBRDF
     elif SRF is not None:
         BRDF = SRF.calc
-- 
2.43.0

