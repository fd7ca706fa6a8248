From 8c3dedea344630b75e1a67ccb5b49e06cce6af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 01/28] fix: RK2 forward covariance predictor uses the linear
 parameter A(t), not S(t)

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From e69691aafb5f469236f551c83e7d604939a830d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 02/28] fix: backward mean multiplier is propagated with A(t)
 transposed

lam(t) is stored as a 1-D vector, so (A^T lam) is lam.dot(A); lam.dot(A.T)
is A lam, which is not the adjoint of the forward mean equation when A is
not symmetric.
---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..cbf5722 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (A.T * lam)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From adf60b692b681b8e1eeee2a9e47180912c1ef69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 03/28] fix: scalar KL0 counts log(s0) with weight one half

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From 0f4d178e8cae703e582e824af903c829edf99561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 04/28] fix: nD KL0 uses the outer product of the mean offset
 and log_det of each covariance

z0 is a 1-D vector, so z0.T.dot(z0) is a scalar that was added to every entry;
log_det (Cholesky) was applied to tau0*inv(s0), which is not symmetric in general.
---
 src/var_bayes/prior_kl0.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..1fe3b42 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
-        # Energy of the initial moment.
+        # Distance from the prior mean.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From cdd6cc2e7ff50feb4f4cfe8e12ce57418ac119b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 05/28] fix: double-well energy weights the sixth moment with
 16, as its gradients do

---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From df764829aec5aed99b2a29a384b02e6d8506a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 06/28] fix: nD likelihood energy takes S(t) at the observation
 times

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..cd71d13 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -142,7 +142,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 1cbb271b205cd749f077409a0035c27bc9f6ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 07/28] fix: Gaussian likelihood applies the observation
 operator and the full noise matrix

The residual is y - H m (not (y - m) H), the variance term is
trace(R^-1 H S H^T), and the scalar energy and gradients use H as well.
Nothing changes for the identity operator and diagonal noise.
---
 src/var_bayes/gaussian_like.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index cd71d13..f9340c0 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -87,8 +87,11 @@ class GaussianLikelihood(Likelihood):
         # at observation times only.
         Ex2 = (m[obs_t] ** 2) + s[obs_t]
 
+        # Observation operator.
+        H = self.operator
+
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -116,13 +119,13 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
+        # Pre-compute this only once.
+        HRH = H.T.dot(inv_rn).dot(H)
 
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
@@ -130,19 +133,13 @@ class GaussianLikelihood(Likelihood):
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
+            Eobs += zn_sq + np.trace(HRH.dot(s[tn]))
         # _end_for_
 
         # Compute the final including the constants.
@@ -185,10 +182,10 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
         dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
@@ -219,7 +216,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 7df7b1e4036a3f4014a8140c757572c577558d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 08/28] fix: scalar noise gradient of the observation energy

---
 src/var_bayes/gaussian_like.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index f9340c0..fb93bdc 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -188,7 +188,8 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = -0.5 * (((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] +
+                                   (H ** 2) * Ex2) / self.noise - 1.0) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From 8ab5ef15c8639a138c2e1c8d984574ad6ec85e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 09/28] fix: nD noise gradient of the observation energy was
 identically zero

and was sized by the number of observations instead of their dimension.
---
 src/var_bayes/gaussian_like.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index fb93bdc..5a1e839 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -63,7 +63,7 @@ class GaussianLikelihood(Likelihood):
 
         :return: Energy from the observation likelihood, (scalar).
         """
-        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m)
+        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m, s)
     # _end_def_
 
     def gauss_1d(self, m: np.ndarray, s: np.ndarray):
@@ -195,20 +195,22 @@ class GaussianLikelihood(Likelihood):
         return dEobs_dm, dEobs_ds, dEobs_dr
     # _end_def
 
-    def gradients_nd(self, m: np.ndarray):
+    def gradients_nd(self, m: np.ndarray, s: np.ndarray):
         """
         nD gradients of Eobs.
 
         :param m: marginal means m(t), (dim_n x dim_d).
 
-        :return: Energy from the observation likelihood, (scalar).
+        :param s: marginal variances s(t), (dim_n x dim_d x dim_d).
+
+        :return: dEobs_dm, dEobs_ds, dEobs_dr.
         """
         # Extract the observation values and times
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
         # Dimensions of observations.
-        dim_o, _ = obs_y.shape
+        _, dim_o = obs_y.shape
 
         # Dimensions of input array.
         dim_n, dim_d = m.shape
@@ -234,6 +236,10 @@ class GaussianLikelihood(Likelihood):
 
             # Gradient of E_{obs} w.r.t. S(tn).
             dEobs_ds[tn] = 0.5 * H.T.dot(inv_rn).dot(H)
+
+            # Gradient of E_{obs} w.r.t. the noise matrix.
+            Q = np.outer(W[n], W[n]) + H.dot(s[tn]).dot(H.T)
+            dEobs_dr[tn] = 0.5 * (inv_rn - inv_rn.dot(Q).dot(inv_rn))
         # _end_for_
 
         # Gradients of energy Eobs.
-- 
2.43.0


From 8072dbb3b8b1815c7bb3267e743944ff9c5adffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 10/28] fix: Lorenz models accept a scalar system noise

np.isscalar() is False for the 0-d array made by np.asarray(), so the shipped
L63 / L96 parameter files were rejected.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From f72c5939d57f3f42cdf24f6ffc755ede71be2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 11/28] fix: Lorenz sigma setters reject every matrix that is
 not positive definite

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..f3cf214 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 1181b2f319d9ef0662059f46a16f777d7b945bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 12/28] fix: off-diagonal entries of the Lorenz-63 covariance
 gradient were doubled

The backward equation pairs the gradient with S(t) as a matrix: dE = tr(G dS).
---
 src/dynamics/lorenz_63.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f3cf214..96ad59a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,11 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: dSxy, dSxz, dSyz are derivatives w.r.t. both symmetric
+        # entries of S(t), so each entry of the matrix takes one half.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From a208aba8a69e1b7190b5d12a82f4abbe93061c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 13/28] fix: Lorenz sample paths draw noise with covariance
 sigma * dt

scipy's cholesky() returns the upper factor U by default and U U^T is not sigma
when sigma has off-diagonal entries.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 96ad59a..bacd001 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..f652fae 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -288,7 +288,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From 846421a4d8a806bf27113c8c10e72ecf9985e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 14/28] fix: covariance estimate of the unscented transform

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..2bbce10 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -300,7 +300,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
 
     # Compute the approximate covariance.
     w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
-    Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
+    Q = w_m.T.dot(np.diag(weights.ravel())).dot(w_m)
 
     # Compute the new approximate covariance.
     y_cov = y.T.dot(Q).dot(y)
-- 
2.43.0


From 6c207ab7a5777796ada066c3e55e4a286efc13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 15/28] fix: the diagonal fall-back of the unscented transform
 keeps the sigma point scale

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 2bbce10..73dd7b5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From 1a0f9a7872442934b029c109df6d34790beedcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 16/28] fix: random seed zero is a seed

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From aeab79934af0e14308f6f682e75ef58c6146a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 17/28] fix: shape mismatch in GaussianMoments raises the
 intended RuntimeError

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From c310185384a8478fe23fe9909da6a31a163babd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 18/28] fix: the time window of a sample path does not run past
 tf

arange(t0, tf + dt, dt) returns an extra point whenever (tf + dt - t0) / dt is
rounded up, e.g. t0=0, tf=0.2, dt=0.1.
---
 src/dynamics/double_well.py        | 2 +-
 src/dynamics/lorenz_63.py          | 2 +-
 src/dynamics/lorenz_96.py          | 2 +-
 src/dynamics/ornstein_uhlenbeck.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 712fc49..54e7fd2 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -130,7 +130,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual time points.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index bacd001..58d27ba 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -185,7 +185,7 @@ class Lorenz63(StochasticProcess):
         :return: None.
         """
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index f652fae..94e3512 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -261,7 +261,7 @@ class Lorenz96(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index af89dd0..25e8e91 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -136,7 +136,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
-- 
2.43.0


From f4a408e09b9303a8c0076216f2613dfad301480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 19/28] fix: stored posterior moments belong to the stored
 variational parameters

When the optimizer stops after a rejected step, the moments kept by VarGP are
those of the rejected point.
---
 src/var_bayes/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..7243254 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -233,6 +233,10 @@ class Simulation(object):
         # Stop the timer.
         time_tf = time.perf_counter()
 
+        # The last point that was evaluated is not always the one returned,
+        # so make sure the output moments correspond to the returned 'x'.
+        _ = vgpa.free_energy(x)
+
         # Final gradient test.
         # optimize.check_gradient_function(x.copy())
 
-- 
2.43.0


From 91bb09d240421afb8c1621e9c351660c467e1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 20/28] fix: Lorenz-96 drift of many state vectors wraps each
 vector on itself

np.roll() without an axis rolls the flattened array, so the sigma points of the
unscented transform leaked into each other at the periodic boundary.
---
 src/dynamics/lorenz_96.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 94e3512..dfec8f3 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -28,7 +28,13 @@ def bwd_2(x: np.ndarray) -> np.ndarray:
 def shift_vectors(x: np.ndarray) -> tuple:
     # Return ALL the shifted
     # vectors: (-1, +1, +2).
-    return np.roll(x, -1), np.roll(x, +1), np.roll(x, +2)
+    #
+    # NOTE: np.roll() works on the flattened array, so with many
+    # state vectors (one per row) we roll the transposed array by
+    # whole blocks. This way each row is shifted periodically.
+    n = x.size // x.shape[-1]
+
+    return np.roll(x.T, -n).T, np.roll(x.T, +n).T, np.roll(x.T, +2 * n).T
 # _end_def_
 
 @njit
-- 
2.43.0


From 94f8e757116326ae3f51343737d9760f5dd3cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 21/28] fix: observation masks given as arrays or with a single
 observed component

An array mask has no truth value, and one column of shape (M, 1) cannot take
M noise values in place.
---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..de61e84 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
@@ -195,7 +195,7 @@ class StochasticProcess(object):
             sq_rn = np.sqrt(obs_noise)
 
             # Fixed Gaussian noise.
-            obs_y += sq_rn * self.rand_g.standard_normal(dim_m)
+            obs_y += sq_rn * self.rand_g.standard_normal(obs_y.shape)
 
         else:
             # Multidimensional case.
-- 
2.43.0


From 938edb774adeb344431f0c0b1136700b6595b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 22/28] fix: a simulation with supplied observations has an
 observation noise

run() failed with KeyError('obs_noise').
---
 src/var_bayes/simulation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 7243254..839f09b 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -146,6 +146,16 @@ class Simulation(object):
         if data is not None:
             self.m_data["obs_t"] = data[0]
             self.m_data["obs_y"] = data[1]
+
+            # Observation noise, as in collect_obs().
+            obs_noise = np.asarray(self.m_data["noise"]["obs"])
+
+            if not self.m_data["single_dim"]:
+                # Diagonal matrix (from scalar, vector or matrix).
+                obs_noise = obs_noise * np.eye(np.shape(data[1])[-1])
+            # _end_if_
+
+            self.m_data["obs_noise"] = obs_noise
         else:
             # Sample observations from the trajectory.
             obs_t, obs_y, obs_noise = self.m_data["model"].collect_obs(self.m_data["obs_setup"]["density"],
-- 
2.43.0


From bfba1203e30061a56415b0fb90f0bb21468ccac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 23/28] fix: the observations of a --data file reach the
 simulation as (times, values)

setup() reads data[0] and data[1], which are not columns of the data frame.
---
 vgpa_main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vgpa_main.py b/vgpa_main.py
index 77193b8..b922081 100755
--- a/vgpa_main.py
+++ b/vgpa_main.py
@@ -111,6 +111,9 @@ def main(params_file=None, data_file=None):
             # The file should have two columns.
             obs_data = pd.read_csv(input_file,
                                    names=["t", "Yt"])
+            # Separate the times (indexes) from the values.
+            obs_data = (obs_data["t"].to_numpy(),
+                        obs_data["Yt"].to_numpy())
         # _end_with_
     # _end_if_
 
-- 
2.43.0


From e2552a2993df934d5c5f7d2089ed2ec13e6c5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 24/28] fix: load() could not read back any saved dataset

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 839f09b..70d3995 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -351,7 +351,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From ae356b30c590ceb1c47d0fbfda72a710c63049e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 25/28] fix: pass the extra parameters to the curvature
 evaluation in SCG

---
 src/numerics/optim_scg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..2eef735 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -164,7 +164,7 @@ class SCG(object):
                 # Because we evaluate the gradient at a new point
                 # we run the f(x) too,  so that we get consistent
                 # variational and Lagrangian parameters.
-                g_plus = self.df(x_plus, eval_fun=True)
+                g_plus = self.df(x_plus, *args, eval_fun=True)
 
                 # Increase function/gradients evaluations by one.
                 self.stats["f_eval"] += 1
-- 
2.43.0


From b309bcf980ccbe44658cd33402659cb98e9f2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 26/28] fix: allow for round-off of the time window when
 observations are counted

---
 src/dynamics/stochastic_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index de61e84..25d1883 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -157,13 +157,14 @@ class StochasticProcess(object):
         # Check if the required number of observations
         # per time unit exceeds the available capacity
         # of samples.
-        if n_obs > int(1.0 / dt):
+        # (NOTE: 'dt' is a difference of floats, so allow for their round-off.)
+        if n_obs > int(1.0 / dt + 1.0e-6):
             raise ValueError(f" {self.__class__.__name__}:"
                              f" Observation density exceeds the number of samples.")
         # _end_def_
 
         # Total number of observations.
-        dim_m = int(np.floor(np.abs(self.tk[0] - self.tk[-1]) * n_obs))
+        dim_m = int(np.floor(np.abs(self.tk[0] - self.tk[-1]) * n_obs + 1.0e-6))
 
         # Number of discrete time points.
         dim_t = self.tk.size
-- 
2.43.0


From b0e36c85f7ee363d602de5ec5e69d3270c717e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:47 +0000
Subject: [PATCH 27/28] fix: invert matrices of whole numbers (noise given as
 integers)

---
 src/numerics/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 73dd7b5..4d20c26 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -226,8 +226,9 @@ def chol_inv(x):
     :return: inverted 'x' and inverted Cholesky factor.
     """
 
-    # Make sure input is array.
-    x = np.asarray(x)
+    # Make sure input is array (of floats: numba's
+    # linear algebra does not accept whole numbers).
+    x = np.asarray(x, dtype=float)
 
     # Check if the input is scalar.
     if x.ndim == 0:
-- 
2.43.0


From d2f834df3ab3bfe1a22c5dcad80b1746af08548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:17 +0000
Subject: [PATCH 28/28] fix: set-up of a simulation accepts prior arrays and
 does not change them

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 70d3995..ff863d9 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -182,8 +182,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0

