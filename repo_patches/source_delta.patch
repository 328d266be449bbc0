From c2a9a884a179bc1c507db51ee7111af42c53fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/28] fix: shooting equation of motion uses the total
 nonlinear force

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From f42cb6f8185b9339b51a2f7ff99053330ea20f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/28] fix: shift_pm_pi wraps modulo 2 pi

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From 3f5426a0bcb4e1f048d4cd045f49ff3f4915245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 03/28] fix: set_new_C without arguments changes nothing,
 explicit C drops stale proportional coefficients

---
 tmdsimpy/vibration_system.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..211ecb9 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -258,13 +258,12 @@ class VibrationSystem:
                 warnings.warn('Ignoring C to overwrite with proportional'
                               + ' damping.')
             
-            C = ab[0]*self.M + ab[1]*self.K
+            self.C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        elif not (C is None):
             self.C = C
+            self.ab = None # no longer proportional to M and K in general
         
         return
     
-- 
2.43.0


From 8a70126dfe964fa22907dd00dbf4217809b6b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 04/28] fix: eigs does not modify its (default) subset_by_index
 argument

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..0310f20 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,8 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From 8c3069a3d722d942beec3c15d58f8b9f9889acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/28] fix: xtol_rel and etol_rel refer to their own error
 measures

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From 5dd80671f2edcfb43fa25fa4f0b2e8cc85b023d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/28] fix: silent continuation stops at a step that failed to
 converge

---
 tmdsimpy/continuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..a732454 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -837,8 +837,9 @@ class Continuation:
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
-- 
2.43.0


From e92481f1b6c65d1ec342fea050ce82327dccc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/28] fix: continuation stays silent on repeated calls

---
 tmdsimpy/continuation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index a732454..74ef2c9 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -713,8 +713,7 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        verbose = max(self.config['verbose'], 0)
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -816,7 +815,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -830,7 +829,7 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
@@ -845,7 +844,7 @@ class Continuation:
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From 4b5c9eb76100b19bd4277bdf9b14491fae5ff83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/28] fix: continuation does not modify the FracLamList of
 the caller

---
 tmdsimpy/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 74ef2c9..17ba627 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -209,7 +209,8 @@ class Continuation:
         if len(default_config['FracLamList']) == 0 \
             or not (default_config['FracLamList'][0] == default_config['FracLam']):
             
-            default_config['FracLamList'].insert(0, default_config['FracLam'])
+            default_config['FracLamList'] = [default_config['FracLam']] \
+                                        + list(default_config['FracLamList'])
             
         self.config = default_config
         
-- 
2.43.0


From 67f2787b329ca8fc22479454b662b587fe0f57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 09/28] fix: hysteretic AFT compares the end state to the
 previous cycle

---
 tmdsimpy/nlforces/nonlinear_force.py | 3 ++-
 tmdsimpy/nlforces/vector_iwan4.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..9cd6891 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -536,7 +536,8 @@ class HystereticForce(NonlinearForce):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            # Copy since ft is overwritten in the next repeat
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index ab42b49..242399e 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -191,7 +191,8 @@ class VectorIwan4(Iwan4Force):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            # Copy since ft is overwritten in the next repeat
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh, fsliders, dfslidersduh
     
-- 
2.43.0


From 88abbdf60d69c3d9d6a23ab76fccc38d41316853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 10/28] fix: aft of hysteretic forces accepts calc_grad as used
 by total_aft

---
 tmdsimpy/jax/nlforces/jenkins_element.py | 16 +++++++++++++---
 tmdsimpy/jax/nlforces/vector_jenkins.py  | 16 +++++++++++++---
 tmdsimpy/nlforces/nonlinear_force.py     | 12 +++++++++---
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/jenkins_element.py b/tmdsimpy/jax/nlforces/jenkins_element.py
index a88960f..e613c11 100644
--- a/tmdsimpy/jax/nlforces/jenkins_element.py
+++ b/tmdsimpy/jax/nlforces/jenkins_element.py
@@ -113,7 +113,7 @@ class JenkinsForce(NonlinearForce):
         
         self.Fs = self.real_Fs
         
-    def aft(self, U, w, h, Nt=128, tol=1e-7):
+    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
         """
         Implementation of the alternating frequency-time (AFT) method to
         extract harmonic nonlinear force coefficients.
@@ -134,6 +134,10 @@ class JenkinsForce(NonlinearForce):
             This argument is ignored, and is included for compatability of 
             interface. 
             The default is 1e-7.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be returned
+            in addition to the force coefficients.
+            The default is True.
         
         Returns
         -------
@@ -150,6 +154,8 @@ class JenkinsForce(NonlinearForce):
         to steady-state with two cycles of the hysteresis loop. Two cycles of
         the nonlinear forces are calculated automatically without the option to
         change this setting.
+        
+        If `calc_grad` is False, then the tuple `(Fnl,)` is returned.
 
         """
         
@@ -189,8 +195,12 @@ class JenkinsForce(NonlinearForce):
         
         pars = np.array([self.kt, self.Fs])
         
-        # # If no Grad is needed use:
-        # Flocal = _local_aft_jenkins(Uwlocal, pars, u0, tuple(h), Nt, u0h0)[0]
+        if not calc_grad:
+            Flocal = _local_aft_jenkins(Uwlocal, pars, u0, tuple(h), Nt, 
+                                        u0h0)[0]
+            Flocal = jnp.reshape(Flocal, (Ndnl, Nhc), 'F')
+            
+            return (np.reshape(self.T @ Flocal, (U.shape[0],), 'F'),)
         
         # Case with gradient and local force
         dFdUwlocal, Flocal = _local_aft_jenkins_grad(Uwlocal, pars, u0, \
diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index e16870e..9619e59 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -74,7 +74,7 @@ class VectorJenkins(NonlinearForce):
         
         self.u0 = u0
         
-    def aft(self, U, w, h, Nt=128, tol=1e-7):
+    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
         """
         Implementation of the alternating frequency-time (AFT) method to
         extract harmonic nonlinear force coefficients.
@@ -95,6 +95,10 @@ class VectorJenkins(NonlinearForce):
             This argument is ignored, and is included for compatability of 
             interface. 
             The default is 1e-7.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be returned
+            in addition to the force coefficients.
+            The default is True.
         
         Returns
         -------
@@ -111,6 +115,8 @@ class VectorJenkins(NonlinearForce):
         to steady-state with two cycles of the hysteresis loop. Two cycles of
         the nonlinear forces are calculated automatically without the option to
         change this setting.
+        
+        If `calc_grad` is False, then the tuple `(Fnl,)` is returned.
 
         """
         
@@ -150,8 +156,12 @@ class VectorJenkins(NonlinearForce):
         
         pars = np.array([self.kt, self.Fs])
         
-        # # If no Grad is needed use:
-        # Flocal = _local_aft_jenkins(Uwlocal, pars, u0, tuple(h), Nt, u0h0)[0]
+        if not calc_grad:
+            Flocal = _local_aft_jenkins(Uwlocal, pars, u0, tuple(h), Nt, 
+                                        u0h0)[0]
+            Flocal = jnp.reshape(Flocal, (Ndnl, Nhc), 'F')
+            
+            return (np.reshape(self.T @ Flocal, (U.shape[0],), 'F'),)
         
         # Case with gradient and local force
         dFdUwlocal, Flocal = _local_aft_jenkins_grad(Uwlocal, pars, u0, \
diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 9cd6891..85def98 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -545,7 +545,7 @@ class HystereticForce(NonlinearForce):
     # Write a slightly different AFT than instant since have derivatives output
     # w.r.t. harmonic coefs rather than u.
     def aft(self, U, w, h, Nt=128, tol=1e-7, max_repeats=2, atol=1e-10, 
-            rtol=1e-10):
+            rtol=1e-10, calc_grad=True):
         """
         Implementation of the alternating frequency-time method to extract 
         harmonic nonlinear force coefficients (hysteretic forces).
@@ -579,6 +579,10 @@ class HystereticForce(NonlinearForce):
             Relative tolerance on `local_force_history` force convergence 
             to steady-state (final state of cycle).
             The default is 1e-10.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be returned
+            in addition to the force coefficients.
+            The default is True.
 
         Returns
         -------
@@ -592,8 +596,7 @@ class HystereticForce(NonlinearForce):
         Notes
         -----
         
-        A `calc_grad` optional argument should be added in the future to allow
-        for compatibility with other functions/methods/classes.
+        If `calc_grad` is False, then the tuple `(Fnl,)` is returned.
         
         WARNING: Needs further verification for cases using multiple nonlinear 
         displacements and or nonlinear output forces.
@@ -640,6 +643,9 @@ class HystereticForce(NonlinearForce):
         
         F = hutils.get_fourier_coeff(h, ft)
         
+        if not calc_grad:
+            return (np.reshape(self.T @ F.T, (U.shape[0],), 'F'),)
+        
         # Gradient Calculation
         
         # Derivative of the time series of forces w.r.t harmonic coefficients
-- 
2.43.0


From 710ce3961ce9fad893b90d40d88f334bd24473c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 11/28] fix: static elastic dry friction includes the previous
 friction force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From dfed909ec74d6f6b0e3b293e2dd2a325d1e4a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 12/28] fix: local force history of elastic dry friction
 supports scalar and None u0

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 15 +--------------
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +--------------
 tmdsimpy/postprocess/harmonic.py             |  5 +++--
 3 files changed, 5 insertions(+), 30 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..29e51ba 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -434,19 +434,6 @@ class ElasticDryFriction2D(NonlinearForce):
 
         """
         
-         #########################
-         # Determine Slider Starting Position
-         
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-        
-        pars = np.array([self.kt, self.kn, self.mu])
-        
-        fxyn_t = _local_force_history(unlt, pars, u0[::2], self.meso_gap)
-        
         #########################
         # Determine Slider Starting Position
 
@@ -454,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..e759f1e 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -445,19 +445,6 @@ class ElasticDryFriction3D(NonlinearForce):
 
         """
         
-         #########################
-         # Determine Slider Starting Position
-         
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-        
-        pars = np.array([self.kt, self.kn, self.mu])
-        
-        fxyn_t = _local_force_history(unlt, pars, u0[self.ti], self.meso_gap)
-        
         #########################
         # Determine Slider Starting Position
 
@@ -465,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..a7f28c2 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,13 +84,14 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
             
             else:
-                # Basic hysteretic force initialization
+                # Basic hysteretic force initialization, also the
+                # initialization if `u0` is None
                 unlth0 = Uh[0, :]
             
             ft = nlforce.local_force_history(ut, unltdot, h, cst, unlth0, 
-- 
2.43.0


From 987350dce594b6f19a50625908c933af107a8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 13/28] fix: harmonic_wise_conditioning returns all extra
 unknowns for array delta

---
 tmdsimpy/utils/harmonic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..5e8423c 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -369,12 +369,13 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
     else: 
         h0 = h[0] == 0
         
-        CtoP = np.ones((Ndof*2, h.shape[0]+extras))*np.atleast_2d(delta)
+        CtoP = np.ones((Ndof*2, h.shape[0]))\
+                    *np.atleast_2d(delta)[:, :h.shape[0]]
         CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
         
         if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+            # Same minimum value for all terms after the harmonic unknowns
+            CtoP = np.hstack((CtoP, np.ones(m)*np.atleast_1d(delta)[-1]))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 5927a591bd338c89c8bfcc16301be3253428485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 14/28] fix: traced vector Jenkins keeps all reversals when
 extrema fall between samples

---
 tmdsimpy/jax/nlforces/vector_jenkins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index 9619e59..c57fe7f 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -325,9 +325,10 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     vector_set = jnp.not_equal(jnp.sign(dup), jnp.sign(dun))
     vector_set = vector_set.at[0].set(True) # This makes it much easier to write the loop below and is assumed.
     
-    # Maximum number of critical points is 2*(Hmax)
+    # Maximum number of extrema is 2*(Hmax). An extremum midway between two 
+    # samples gives two equal values and thus flags two points.
     # Add 1 for ease of implementation by including the first time instant
-    Ncrit = htuple[-1]*2+1
+    Ncrit = min(htuple[-1]*4+1, Nt)
     
     _,inds = jax.lax.top_k(vector_set.T, Ncrit)
     
-- 
2.43.0


From 9cedd8a81ea4647e1d2d9684ac00c29ba3df3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 15/28] fix: shooting output times never exceed the period

The last output time (Nt*Period)/Nt could round to just above Period, which
the integrator rejects, for sample counts that are not powers of two.
---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 211ecb9..81a3780 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -1121,7 +1121,7 @@ class VibrationSystem:
         
         ivp_res = solve_ivp(ydotfun, (0.0, Period), UV_dUVdUV0, 
                         max_step=Period/Nt,
-                        t_eval=np.array(range(Nt+1))*Period/Nt) 
+                        t_eval=np.linspace(0.0, Period, Nt+1)) 
         
         Yfinal = ivp_res['y'][:, -1]
         Yfinal_dot = ydotfun(Period, Yfinal)
-- 
2.43.0


From 198744cc9d95e9d92d744edfa54b419cfa76646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 16/28] fix: linear_frf_base with several base DOFs

All base DOFs move together, so the base force is the sum over their columns;
before, more than one base DOF failed or gave wrong results.
---
 tmdsimpy/vibration_system.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 81a3780..08948e9 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -996,12 +996,14 @@ class VibrationSystem:
         # modal_fsin = V.T @ f_base_sin.T
         
         # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
+        # (all base DOFs move together, so their columns are added)
+        Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 1240a1be90f1dcf1d59d366b924e41d7cf248e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 17/28] fix: linear_frf_base includes inertial coupling to the
 base

hbm_base_res includes the mass columns of the base DOFs; the linear response
ignored them, which is wrong for mass matrices that couple base and free DOFs.
---
 tmdsimpy/vibration_system.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 08948e9..b0da4ce 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -995,15 +995,18 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
+        # Just using the matrix columns to generate base forces
         # (all base DOFs move together, so their columns are added)
         Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
         Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
         
-        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
-        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
+        Mbase = self.M[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w + Mbase*Ub[0]*w**2
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w + Mbase*Ub[1]*w**2
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From ff5a47fe3ee5387230de4c6af26c4af1c019755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:51 +0000
Subject: [PATCH 18/28] fix: nsolve never leaves its xtol in the solver
 configuration

The tolerance of one call was written to the configuration and stayed there
when the residual function raised an exception.
---
 tmdsimpy/jax/solvers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..b68acf8 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -534,10 +534,10 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances of this call, the configuration itself is not changed 
+        # (also if fun raises an exception).
+        tol_dict = dict(self.config)
+        tol_dict['xtol'] = xtol
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +699,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_dict, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +729,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_dict, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +744,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From 929a5ff72a9efce33a124528188cdccbfb8c9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:41 +0000
Subject: [PATCH 19/28] fix: align output labels with their columns in
 print_vprnm_amp_phase_stats

---
 tmdsimpy/utils/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..1028b98 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -697,7 +697,8 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                             'Force Sine [N]',
                                             'Frequency [Hz]'))
             
-            harmonic_line = ('{:^18s} & {:^18s} '.format('','')) \
+            harmonic_line = ('{:^18s} & {:^18s} & {:^18s} & {:^18s} '\
+                             .format('','','','')) \
                 + ''.join(['& {:^22s}'.format('dof={}, h={}'.format(ind, rh[1])) \
                            for ind,rh in enumerate(output_recov_harmonic_list)]) \
                 + '\n'
-- 
2.43.0


From 313ed0614f7a622616f735aa4621efd083edfda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 20/28] fix: EPMC ROMs evaluate the modal equation without
 cancellation at low damping

---
 tmdsimpy/roms/epmc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/roms/epmc.py b/tmdsimpy/roms/epmc.py
index c9b385d..2762fbc 100644
--- a/tmdsimpy/roms/epmc.py
+++ b/tmdsimpy/roms/epmc.py
@@ -243,7 +243,10 @@ def constant_force(epmc_bb, Ndof, h, Fl=None, w=None, zeta=None,
     pm = np.array([[1], [-1]])
     
     # mask out negatives before square root to avoid warning
-    root_arg = p2**2 - w**4 + phi_Fl**2 / q**2
+    # This is p2**2 - w**4 + phi_Fl**2 / q**2, written without the cancellation
+    # of the w**4 terms, which loses the resonance for small zeta
+    root_arg = 4*(zeta*w)**4 \
+                + (phi_Fl/q - 2*zeta*w**2)*(phi_Fl/q + 2*zeta*w**2)
     root_pos = root_arg >= 0
     root_arg[np.logical_not(root_pos)] = 0.0
     
@@ -454,10 +457,9 @@ def constant_displacement(epmc_bb, h, Flcos, Omega, control_point,
     
     phiH_Fl_abs = np.sqrt(phiH_Fl_real**2 + phiH_Fl_imag**2)
     
-    p2 = modal_w**2 - 2*(modal_w*modal_z)**2
-    
     # Calculate the force scaling
-    force_magnitude = modal_q*np.sqrt(Omega**4 - 2*Omega**2*p2 + modal_w**4) \
+    force_magnitude = modal_q*np.sqrt((modal_w**2 - Omega**2)**2 \
+                                      + (2*modal_z*modal_w*Omega)**2) \
                         / phiH_Fl_abs
     
     # Convert back to log10 amplitude for output
-- 
2.43.0


From c46ffd41a80e8b5fbf1a7dc848c5eb285a9d74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 21/28] fix: VPRNM ROM peak check is relative to the modal
 amplitude

---
 tmdsimpy/roms/vprnm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/roms/vprnm.py b/tmdsimpy/roms/vprnm.py
index 0cf3f74..0f463f6 100644
--- a/tmdsimpy/roms/vprnm.py
+++ b/tmdsimpy/roms/vprnm.py
@@ -314,7 +314,9 @@ def constant_h1_displacement(epmc_fund_bb, h_fund, epmc_rhi_bb, h_rhi,
     # this is a check everytime since it is very difficult to write a test
     # for it. This check failed due to bugs with frequency scaling to match
     # the VPRNM frequency.
-    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12, \
+    # The tolerance is relative since modal amplitudes are not near unity
+    # in general.
+    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-10*q_S_EPMC, \
         'Superharmonic reconstruction did not recover VPRNM peak.'
     
     h0_rhi = h_rhi[0] == 0
-- 
2.43.0


From 87093143a940be8997c6320158cc0d65cb5da5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 22/28] fix: conditioning_wrapper scales Jacobian rows by a
 vector RPtoC

Continuation accepts a vector RPtoC and passes it to the initial solve; the
conditioned Jacobian was scaled by columns, so that it was not the derivative
of the conditioned residual and the initial solve failed.
---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 0310f20..f1f549c 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -287,7 +287,8 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        # Rows scale like the residual, columns like the unknowns
+        dRcdXc = np.reshape(RPtoC, (-1, 1))*dRdXp*CtoP
         
         return (Rc, dRcdXc)
         
-- 
2.43.0


From 92653e0b64c6bc09976791a501509415a692fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:51 +0000
Subject: [PATCH 23/28] fix: phase resonance residual accepts integer force
 vectors

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index b0da4ce..b01c4e5 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -1471,7 +1471,7 @@ class VibrationSystem:
         # Baseline HBM for first set of Equations
         
         # Evaluate the N Harmonic Balance Equations
-        Fscale = np.copy(Fl)
+        Fscale = np.array(Fl, dtype=float)
         Fscale[(h[0]==0)*Ndof:] *= UwF[-1]
         
         Rhbm_dRhbmdU_dRhbmdw = self.hbm_res(UwF[:-1], Fscale, h, 
-- 
2.43.0


From f5dc059ba019f41c637955ddb08ba4cd30e9923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:51 +0000
Subject: [PATCH 24/28] fix: phase rotation of integer harmonic vectors is not
 truncated

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 5e8423c..9c0bdbf 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -763,7 +763,7 @@ def rotate_subtract_phase(U_orig, Ndof, h, phase_angle, h_rotate):
     """
     
     U_orig = np.atleast_2d(U_orig)
-    U_rot = np.copy(U_orig)
+    U_rot = np.array(U_orig, dtype=float)
     
     h0 = h[0] == 0 # flag for 0th harmonic
     
-- 
2.43.0


From 110cf1d238d6f9a48f9f33bd7480a20edd5650ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:35 +0000
Subject: [PATCH 25/28] fix: linear frequency responses of systems with rigid
 body modes are not NaN

---
 tmdsimpy/vibration_system.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index b01c4e5..3153d50 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -621,25 +621,24 @@ class VibrationSystem:
             
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(self.K, self.M, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # Modal Forcing:
         modal_f = V.T @ Fl
         modal_fsin = V.T @ Flsin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_2zw = self.ab[0] + self.ab[1]*wnsq # 2*zeta*wn, also for wn=0
         
         # Modes in second direction
         modal_f = np.atleast_2d(modal_f).T
         modal_fsin = np.atleast_2d(modal_fsin).T
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_2zw = np.atleast_2d(modal_2zw).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_2zw)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_2zw)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_2zw)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_2zw)**2 )
         
         Xw = np.vstack((V @ qcos, V @ qsin, w)).T
         
@@ -985,7 +984,6 @@ class VibrationSystem:
         
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(Krel, Mrel, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # # Base Excitation as real force (based on relative coords)
         # f_base_cos = -(Mrel.sum(axis=0) * Ub[0]) * w.reshape(-1,1)**2
@@ -1013,11 +1011,11 @@ class VibrationSystem:
         # Modal Forcing:
         modal_f = V.T @ f_base_cos
         modal_fsin = V.T @ f_base_sin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_2zw = self.ab[0] + self.ab[1]*wnsq # 2*zeta*wn, also for wn=0
         
         # Modes in second direction
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_2zw = np.atleast_2d(modal_2zw).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         #######################
         # # From Inman (SDOF):
@@ -1032,11 +1030,11 @@ class VibrationSystem:
         
         #######################
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_2zw)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_2zw)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_2zw)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_2zw)**2 )
         
         # Stack output plus transform back from relative to absolute coordinates
         
-- 
2.43.0


From 8aee74baad5f11015c690bfa3d0c434eadeef74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:35 +0000
Subject: [PATCH 26/28] fix: static residual accepts integer displacement
 vectors

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 3153d50..12c7f13 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -302,7 +302,7 @@ class VibrationSystem:
 
         """
         
-        Fnl = np.zeros_like(U)
+        Fnl = np.zeros(U.shape[0])
         dFnldU = np.zeros((U.shape[0], U.shape[0]))
         
         
-- 
2.43.0


From b33a5275a46170e8cdb02e85873a275d785c73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:48 +0000
Subject: [PATCH 27/28] fix: traced elements accept the zeroth harmonic as the
 only harmonic

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py        | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py        | 2 +-
 tmdsimpy/jax/nlforces/jenkins_element.py            | 2 +-
 tmdsimpy/jax/nlforces/roughcontact/rough_contact.py | 2 +-
 tmdsimpy/jax/nlforces/vector_jenkins.py             | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 29e51ba..bbf0337 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -631,7 +631,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = (Uwlocal.shape[0] - 1) // Nhc
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index e759f1e..9179ed1 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -651,7 +651,7 @@ def _local_aft_eldry(Uwlocal, pars, u0, htuple, Nt, u0h0, meso_gap):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = (Uwlocal.shape[0] - 1) // Nhc
         
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/jenkins_element.py b/tmdsimpy/jax/nlforces/jenkins_element.py
index e613c11..96d60dc 100644
--- a/tmdsimpy/jax/nlforces/jenkins_element.py
+++ b/tmdsimpy/jax/nlforces/jenkins_element.py
@@ -295,7 +295,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = (Uwlocal.shape[0] - 1) // Nhc
     
     # Recover pars for convenience
     kt = pars[0]
diff --git a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
index 0081a4c..041f006 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/rough_contact.py
@@ -998,7 +998,7 @@ def _local_aft(Uwlocal, unlth0, mu, meso_gap, gaps, gap_weights,
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = (Uwlocal.shape[0] - 1) // Nhc
     
     # Uwlocal is arranged as all of harmonic 0, then all of 1c, etc. 
     # For each harmonic it has the DOFs in order. Finally there is frequency.
diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index c57fe7f..595a274 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -284,7 +284,7 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     
     # Size Calculation
     Nhc = hutils.Nhc(np.array(htuple))
-    Ndnl = int(Uwlocal.shape[0] / Nhc)
+    Ndnl = (Uwlocal.shape[0] - 1) // Nhc
     
     # Recover pars for convenience
     kt = pars[0]
-- 
2.43.0


From 7bd1fe1ee2013d1af2d07120bc80d5e359b1df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:29 +0000
Subject: [PATCH 28/28] fix: statistics of the zeroth harmonic do not mix in
 the first harmonic

---
 tmdsimpy/utils/continuation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index 1028b98..1fbfa4e 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -770,7 +770,10 @@ def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     Nhc_before = hutils.Nhc(h[h < output_harmonic])
     
     amp_cos = output_recov @ U[Nhc_before*Ndof:(Nhc_before+1)*Ndof]
-    amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
+    if output_harmonic == 0: # zeroth harmonic has no sine component
+        amp_sin = 0.0
+    else:
+        amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
     
     amp = np.sqrt(amp_cos**2 + amp_sin**2) *((output_harmonic*w)**order)
                         
-- 
2.43.0

