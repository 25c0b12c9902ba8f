From 16fe97352a6462cad609f8e6ac936414331a05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 01/55] fix: kalman.update() and update_steadystate() accept
 plain numbers as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..9566373 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1471,7 +1471,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1559,7 +1559,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From c905d84049bc71ed7eed14b6ee03220f2f148aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 02/55] fix: kalman.update() log-likelihood uses the predicted,
 not the updated, state

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 9566373..7fb55cd 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1503,7 +1503,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(z, Hx, S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From 0d1fef3177d0e29c3598f34acd1df72cb904feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 03/55] fix: rts_smoother() uses the transition of the step
 being smoothed across

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 7fb55cd..8f297e5 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1848,11 +1848,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From 9d2d3f255e3fc44a995e05bd77d7ab9f5d21bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 04/55] fix: batch filters accept missing measurements among
 array measurements

---
 filterpy/kalman/fading_memory.py      | 2 +-
 filterpy/kalman/information_filter.py | 2 +-
 filterpy/kalman/kalman_filter.py      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..2af4249 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -330,7 +330,7 @@ class InformationFilter(object):
         # this is a copy of the code from kalman_filter, it has not been
         # turned into the information filter yet. DO NOT USE.
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 8f297e5..3b76734 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -937,7 +937,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1741,7 +1741,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 6c0afa22a1e37e7559117849bca39b17f89ebc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 05/55] fix: KalmanFilter.batch_filter() without us means no
 control input

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 3b76734..8923947 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -949,7 +949,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From a6f8985111490ae3d52746d62e6e69ba4daa66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 06/55] fix: EKF predict_update() linearises at, and records,
 the predicted state

---
 filterpy/kalman/EKF.py | 50 ++----------------------------------------
 1 file changed, 2 insertions(+), 48 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..ba88422 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -201,55 +201,9 @@ class ExtendedKalmanFilter(object):
         u : np.array or scalar
             optional control vector input to the filter.
         """
-        #pylint: disable=too-many-locals
+        self.predict(u)
+        self.update(z, HJacobian, Hx, args=args, hx_args=hx_args)
 
-        if not isinstance(args, tuple):
-            args = (args,)
-
-        if not isinstance(hx_args, tuple):
-            hx_args = (hx_args,)
-
-        if np.isscalar(z) and self.dim_z == 1:
-            z = np.asarray([z], float)
-
-        F = self.F
-        B = self.B
-        P = self.P
-        Q = self.Q
-        R = self.R
-        x = self.x
-
-        H = HJacobian(x, *args)
-
-        # predict step
-        x = dot(F, x) + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
-
-        # update step
-        PHT = dot(P, H.T)
-        self.S = dot(H, PHT) + R
-        self.SI = linalg.inv(self.S)
-        self.K = dot(PHT, self.SI)
-
-        self.y = z - Hx(x, *hx_args)
-        self.x = x + dot(self.K, self.y)
-
-        I_KH = self._I - dot(self.K, H)
-        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
-        # set to None to force recompute
-        self._log_likelihood = None
-        self._likelihood = None
-        self._mahalanobis = None
 
     def update(self, z, HJacobian, Hx, R=None, args=(), hx_args=(),
                residual=np.subtract):
-- 
2.43.0


From c1c3a8441138fb69190c3c624e5f6eb814de92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 07/55] fix: UKF rts_smoother() honours the Qs it is given

---
 filterpy/kalman/UKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..6386e8f 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -718,7 +718,7 @@ class UnscentedKalmanFilter(object):
                 sigmas_f[i] = self.fx(sigmas[i], dts[k])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 55857950dc308ddd6db8fa57689926fdf7126236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 08/55] fix: UKF rts_smoother() uses the time step leading into
 the next epoch

---
 filterpy/kalman/UKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 6386e8f..38c7781 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,7 +715,7 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
                 sigmas_f, self.Wm, self.Wc, Qs[k+1],
-- 
2.43.0


From 0043c8a221023c93c9078a9dc49690b561a4ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 09/55] fix: UKF batch_filter() accepts a missing first
 measurement

---
 filterpy/kalman/UKF.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 38c7781..f21bf4d 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -591,12 +591,14 @@ class UnscentedKalmanFilter(object):
         #pylint: disable=too-many-arguments
 
         try:
-            z = zs[0]
+            z = next((z for z in zs if z is not None), None)
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
-            if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
+        if z is None:
+            pass # every measurement is missing
+        elif self._dim_z == 1:
+            if not(isscalar(z) or (np.ndim(z) == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
             if len(z) != self._dim_z:
-- 
2.43.0


From 520057c8abc04968b2297d7e60f814de014fec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 10/55] fix: UKF batch_filter() accepts the documented scalar
 dts

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f21bf4d..db4e8ef 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -612,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 88db8cbc6deb3d5fd0f8b87d22ddc2620d9a7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 11/55] fix: InformationFilter without prior information, and
 its likelihood

Starting with a singular P_inv, predict() propagated neither P_inv nor the
information vector, and update() before predict() raised. S (documented as
HPH' + R) was the posterior information matrix, so the log-likelihood was
not that of the innovation.
---
 filterpy/kalman/information_filter.py | 57 ++++++++++++++++++---------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 2af4249..8ea3141 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -202,36 +202,52 @@ class InformationFilter(object):
         elif np.isscalar(R_inv):
             R_inv = eye(self.dim_z) * R_inv
 
+        z = reshape_z(z, self.dim_z, np.ndim(self.x))
+
         # rename for readability and a tiny extra bit of speed
         H = self.H
         H_T = H.T
         P_inv = self.P_inv
         x = self.x
 
-        if self._no_information:
-            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-            self.log_likelihood = math.log(sys.float_info.min)
-            self.likelihood = sys.float_info.min
+        self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
+        self.log_likelihood = math.log(sys.float_info.min)
+        self.likelihood = sys.float_info.min
+
+        try:
+            P = self.inv(self.P_inv)
+        except np.linalg.LinAlgError:
+            P = None
+
+        if self._no_information or P is None:
+            # without information about every state x holds the
+            # information vector P_inv * x, until the measurements
+            # determine the state.
+            if not self._no_information:
+                x = dot(P_inv, x)
+            self.x = x + dot(H_T, R_inv).dot(z)
+            self._no_information = P is None
+            if P is not None:
+                self.x = dot(P, self.x)
 
         else:
             # y = z - Hx
             # error (residual) between measurement and prediction
             self.y = z - dot(H, x)
 
-            # S = HPH' + R
-            # project system uncertainty into measurement space
-            self.S = P_inv + dot(H_T, R_inv).dot(H)
-            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
-
             # x = x + Ky
             # predict new x with residual scaled by the kalman gain
+            self.K = dot(P, H_T).dot(R_inv)
             self.x = x + dot(self.K, self.y)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
 
-            self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
+            # S = HPH' + R
+            # project system uncertainty into measurement space
+            try:
+                self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+            except np.linalg.LinAlgError:
+                self.S = None   # the prior is improper
 
-            if self.compute_log_likelihood:
+            if self.compute_log_likelihood and self.S is not None:
                 self.log_likelihood = logpdf(x=self.y, cov=self.S)
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
@@ -256,6 +272,7 @@ class InformationFilter(object):
         # x = Fx + Bu
 
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
+        no_information = self._no_information
         #pylint: disable=bare-except
         try:
             AI = self.inv(A)
@@ -278,15 +295,17 @@ class InformationFilter(object):
             self.P_inv_prior = np.copy(self.P_inv)
             self.x_prior = np.copy(self.x)
         else:
-            I_PF = self._I - dot(self.P_inv, self._F_inv)
-            FTI = self.inv(self._F.T)
-            FTIX = dot(FTI, self.x)
-            AQI = self.inv(A + self.Q)
-            self.x = dot(FTI, dot(I_PF, AQI).dot(FTIX))
+            # propagate the information vector P_inv * x
+            if not no_information:
+                self.x = dot(self.P_inv, self.x)
+            I_AQ = self.inv(self._I + dot(A, self.Q))
+            self.P_inv = dot(I_AQ, A)
+            self.x = (dot(I_AQ, dot(self._F_inv.T, self.x)) +
+                      dot(self.P_inv, zeros(self.x.shape) + dot(self.B, u)))
 
             # save priors
             self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(AQI)
+            self.P_inv_prior = np.copy(self.P_inv)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From f1d52dd38c4cc733e84edb47b926099dcdf98346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 12/55] fix: SquareRootKalmanFilter.P_post is the posterior
 covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..f24833c 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -300,7 +300,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From fbae846b97a954272aaf3432f67f7ecaa61e9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 13/55] fix: SquareRootKalmanFilter.update() does not modify
 the caller's state array

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index f24833c..e7aec86 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 2ab1c25c3ce7f0210774fdb6fc895656d0e836c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 14/55] fix: update_sequential() does not modify the caller's
 state array

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 8923947..9951157 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
-- 
2.43.0


From a6ff422b90b836c50a7fb1fada76b21992967102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 15/55] fix: MMAEFilterBank covariance spreads the models about
 the mixed state

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..d00ed72 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From c746d58191f68164dd9041eeec0037d74a0d1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 16/55] fix: MMAEFilterBank does not modify the caller's
 probabilities

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index d00ed72..3adb352 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 8d4868ed4c03dacd1345b0423083c623a517e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 17/55] fix: IMM and MMAE banks are unchanged by a missing
 measurement, as documented

The likelihood of the previous measurement was counted a second time.
---
 filterpy/kalman/IMM.py  | 8 +++++++-
 filterpy/kalman/mmae.py | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..0f1a1f8 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -172,7 +172,13 @@ class IMMEstimator(object):
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-            self.likelihood[i] = f.likelihood
+            if z is not None:
+                self.likelihood[i] = f.likelihood
+
+        if z is None:
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
 
         # update mode probabilities from total probability * likelihood
         self.mu = self.cbar * self.likelihood
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 3adb352..4d8b0f8 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -183,7 +183,14 @@ class MMAEFilterBank(object):
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-            self.p[i] *= f.likelihood
+            if z is not None:
+                self.p[i] *= f.likelihood
+
+        if z is None:
+            self.z = None
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
 
         self.p /= sum(self.p) # normalize
 
-- 
2.43.0


From 1d5df561a9c00135ed17fdc446a70b74ee61ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 18/55] fix: MMAEFilterBank.predict() publishes the predicted,
 not the previous, estimate

---
 filterpy/kalman/mmae.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 4d8b0f8..7b5023f 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -153,6 +153,8 @@ class MMAEFilterBank(object):
         for f in self.filters:
             f.predict(u)
 
+        self._compute_state_estimate()
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
@@ -194,7 +196,19 @@ class MMAEFilterBank(object):
 
         self.p /= sum(self.p) # normalize
 
-        # compute estimated state and covariance of the bank of filters.
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
+        """
+        Computes the bank's mixed state estimate from each filter, using
+        the probabilities self.p
+        """
+
         self.P = np.zeros(self.filters[0].P.shape)
 
         # state can be in form [x,y,z,...] or [[x, y, z,...]].T
@@ -212,12 +226,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From 5d83d6e8073f735f6e764f0ed041f8a479d8ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:47 +0000
Subject: [PATCH 19/55] fix: CubatureKalmanFilter.update() accepts a 1-D
 measurement of any size

---
 filterpy/kalman/CubatureKalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..2a7d0cf 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -26,7 +26,7 @@ import numpy as np
 from numpy import eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str, outer_product_sum
+from filterpy.common import pretty_str, outer_product_sum, reshape_z
 
 
 def spherical_radial_sigmas(x, P):
@@ -373,7 +373,7 @@ class CubatureKalmanFilter(object):
         Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = self.residual_z(reshape_z(z, self.dim_z, zp.ndim), zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From 8eb56ec0081b9caa24f58a29bd373f91665a9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 20/55] fix: CubatureKalmanFilter.update() uses cubature points
 of the predicted estimate

The points propagated by predict() lack the process noise, so the gain and
innovation covariance ignored Q and the filter was not the Kalman filter on
linear models.
---
 filterpy/kalman/CubatureKalmanFilter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 2a7d0cf..5b59895 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -359,8 +359,11 @@ class CubatureKalmanFilter(object):
         elif isscalar(R):
             R = eye(self.dim_z) * R
 
+        # cubature points of the current estimate; those of predict() do not
+        # include the process noise
+        sigmas = spherical_radial_sigmas(self.x, self.P)
         for k in range(self._num_sigmas):
-            self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
+            self.sigmas_h[k] = self.hx(sigmas[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
         zp, self.S = ckf_transform(self.sigmas_h, R)
@@ -370,12 +373,12 @@ class CubatureKalmanFilter(object):
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        Pxz = outer_product_sum(sigmas - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(reshape_z(z, self.dim_z, zp.ndim), zp)   # residual
 
-        self.x = self.x + dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y).reshape(self.x.shape)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
 
 
-- 
2.43.0


From 2b44a6708468f94afcc7ee893585e41a64809c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 21/55] fix: InformationFilter recognises a numerically
 singular information matrix

np.linalg.inv raises for exactly singular matrices only, so rounding
decided whether a state was known.
---
 filterpy/kalman/information_filter.py | 60 +++++++++++++--------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 8ea3141..5f6d9f7 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -214,10 +214,7 @@ class InformationFilter(object):
         self.log_likelihood = math.log(sys.float_info.min)
         self.likelihood = sys.float_info.min
 
-        try:
-            P = self.inv(self.P_inv)
-        except np.linalg.LinAlgError:
-            P = None
+        P = self._covariance(self.P_inv)
 
         if self._no_information or P is None:
             # without information about every state x holds the
@@ -242,10 +239,11 @@ class InformationFilter(object):
 
             # S = HPH' + R
             # project system uncertainty into measurement space
-            try:
-                self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
-            except np.linalg.LinAlgError:
+            P = self._covariance(P_inv)
+            if P is None:
                 self.S = None   # the prior is improper
+            else:
+                self.S = dot(H, P).dot(H_T) + self.inv(R_inv)
 
             if self.compute_log_likelihood and self.S is not None:
                 self.log_likelihood = logpdf(x=self.y, cov=self.S)
@@ -271,41 +269,43 @@ class InformationFilter(object):
 
         # x = Fx + Bu
 
+        P = self._covariance(self.P_inv)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
-        no_information = self._no_information
-        #pylint: disable=bare-except
-        try:
-            AI = self.inv(A)
-            invertable = True
+        I_AQ = self.inv(self._I + dot(A, self.Q))
+
+        if P is not None:
             if self._no_information:
-                try:
-                    self.x = dot(self.inv(self.P_inv), self.x)
-                except:
-                    self.x = dot(0, self.x)
+                self.x = dot(P, self.x)
                 self._no_information = False
-        except:
-            invertable = False
-            self._no_information = True
 
-        if invertable:
             self.x = dot(self._F, self.x) + dot(self.B, u)
-            self.P_inv = self.inv(AI + self.Q)
-
-            # save priors
-            self.P_inv_prior = np.copy(self.P_inv)
-            self.x_prior = np.copy(self.x)
+            self.P_inv = dot(I_AQ, A)
         else:
             # propagate the information vector P_inv * x
-            if not no_information:
+            if not self._no_information:
                 self.x = dot(self.P_inv, self.x)
-            I_AQ = self.inv(self._I + dot(A, self.Q))
+                self._no_information = True
+
             self.P_inv = dot(I_AQ, A)
             self.x = (dot(I_AQ, dot(self._F_inv.T, self.x)) +
                       dot(self.P_inv, zeros(self.x.shape) + dot(self.B, u)))
 
-            # save priors
-            self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(self.P_inv)
+        # save priors
+        self.P_inv_prior = np.copy(self.P_inv)
+        self.x_prior = np.copy(self.x)
+
+    def _covariance(self, P_inv):
+        """ Inverse of the information matrix P_inv, or None if it is
+        numerically singular. The rank is judged on the matrix scaled to a
+        unit diagonal, so that the units of the states do not matter.
+        """
+
+        if np.ndim(P_inv) != 2 or np.any(np.diag(P_inv) <= 0):
+            return None
+        scale = 1. / np.sqrt(np.diag(P_inv))
+        if np.linalg.matrix_rank(P_inv * np.outer(scale, scale)) < self.dim_x:
+            return None
+        return self.inv(P_inv)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From 1e805936188d04b53296946d9d779f3a606f2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 22/55] fix: FixedLagSmoother computes the optimal fixed-lag
 estimates

The covariance of the lagged states with the current one is propagated
from step to step instead of being approximated by powers of the current
posterior; smooth() and smooth_batch() now give the conditional mean given
the measurements up to N steps later.
---
 filterpy/kalman/fixed_lag_smoother.py | 58 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..6c94419 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -126,6 +126,7 @@ class FixedLagSmoother(object):
         self._I = np.eye(dim_x)
 
         self.count = 0
+        self._PS = []   # covariances of the states within the lag with the current one
 
         if N is not None:
             self.xSmooth = []
@@ -188,27 +189,28 @@ class FixedLagSmoother(object):
         x = x_pre + dot(K, self.y)
 
         I_KH = self._I - dot(K, H)
+
+        # covariances of the errors of the last N+1 states with the error
+        # of the current prediction
+        if k == 0:
+            self._PS = []
+        self._PS = [dot(PS, F.T) for PS in self._PS] + [P]
+        self._PS = self._PS[-(N+1):]
+
         P = dot(I_KH, P).dot(I_KH.T) + dot(K, R).dot(K.T)
 
         self.xSmooth.append(x_pre.copy())
 
         #compute invariants
         HTSI = dot(H.T, SI)
-        F_LH = (F - dot(K, H)).T
 
-        if k >= N:
-            PS = P.copy() # smoothed P for step i
-            for i in range(N):
-                K = dot(PS, HTSI)  # smoothed gain
-                PS = dot(PS, F_LH) # smoothed covariance
+        for i, PS in enumerate(reversed(self._PS)):
+            K = dot(PS, HTSI)  # smoothed gain
 
-                si = k-i
-                self.xSmooth[si] = self.xSmooth[si] + dot(K, self.y)
-        else:
-            # Some sources specify starting the fix lag smoother only
-            # after N steps have passed, some don't. I am getting far
-            # better results by starting only at step N.
-            self.xSmooth[k] = x.copy()
+            si = k-i
+            self.xSmooth[si] = self.xSmooth[si] + dot(K, self.y)
+
+        self._PS = [dot(PS, I_KH.T) for PS in self._PS]
 
         self.count += 1
         self.x = x
@@ -265,6 +267,7 @@ class FixedLagSmoother(object):
         else:
             xSmooth = zeros((len(zs), self.dim_x, 1))
             xhat = zeros((len(zs), self.dim_x, 1))
+        PSs = []
         for k, z in enumerate(zs):
 
             # predict step of normal Kalman filter
@@ -285,6 +288,12 @@ class FixedLagSmoother(object):
             x = x_pre + dot(K, y)
 
             I_KH = self._I - dot(K, H)
+
+            # covariances of the errors of the last N+1 states with the error
+            # of the current prediction
+            PSs = [dot(PS, F.T) for PS in PSs] + [P]
+            PSs = PSs[-(N+1):]
+
             P = dot(I_KH, P).dot(I_KH.T) + dot(K, R).dot(K.T)
 
             xhat[k] = x.copy()
@@ -292,21 +301,14 @@ class FixedLagSmoother(object):
 
             #compute invariants
             HTSI = dot(H.T, SI)
-            F_LH = (F - dot(K, H)).T
-
-            if k >= N:
-                PS = P.copy() # smoothed P for step i
-                for i in range(N):
-                    K = dot(PS, HTSI)  # smoothed gain
-                    PS = dot(PS, F_LH) # smoothed covariance
-
-                    si = k-i
-                    xSmooth[si] = xSmooth[si] + dot(K, y)
-            else:
-                # Some sources specify starting the fix lag smoother only
-                # after N steps have passed, some don't. I am getting far
-                # better results by starting only at step N.
-                xSmooth[k] = xhat[k]
+
+            for i, PS in enumerate(reversed(PSs)):
+                K = dot(PS, HTSI)  # smoothed gain
+
+                si = k-i
+                xSmooth[si] = xSmooth[si] + dot(K, y)
+
+            PSs = [dot(PS, I_KH.T) for PS in PSs]
 
         return xSmooth, xhat
 
-- 
2.43.0


From b788f7424be8d83ffff1272f4ec8c31db16b4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 23/55] fix: HInfinityFilter.batch_filter() works without a
 saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..59c0df8 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -157,7 +157,7 @@ class HInfinityFilter(object):
         self.x = dot(self.F, self.x) + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From cad6d77b1328f153f11e039c98b8f0532204c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 24/55] fix: HInfinityFilter.batch_filter() accepts missing
 measurements among arrays

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 59c0df8..0e47395 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -185,7 +185,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
-- 
2.43.0


From c38bbdf7d8d6f1b3dc8d035a3e301f354aa9177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 25/55] fix: HInfinityFilter.update() stores the gain it
 documents as attribute K

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 0e47395..b0c0621 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -123,7 +123,7 @@ class HInfinityFilter(object):
         # common subexpression P*L
         PL = dot(P, L)
 
-        K = dot(F, PL).dot(HTVI)
+        self.K = K = dot(F, PL).dot(HTVI)
 
         self.y = z - dot(H, x)
 
-- 
2.43.0


From f33d1af850a1b999992a532c07eba681fff42054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 26/55] fix: GHKFilter variance reduction factors match the
 filter's actual variances

---
 filterpy/gh/gh_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..d575584 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -771,7 +771,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -829,8 +829,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / ((self.dt**2)*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From dc6ce8b80a33d0a68c87d978685f8e89b069ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 27/55] fix: g-h filters record the measurement in z as
 documented

---
 filterpy/gh/gh_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index d575584..b243468 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,6 +139,8 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        self.z = z
+
         if self.order == 0:
             if g is None:
                 g = self.g
@@ -158,8 +160,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -370,6 +370,7 @@ class GHFilter(object):
         self.x_prediction  = self.x + (self.dx*self.dt)
 
         # update step
+        self.z = z
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
@@ -671,6 +672,7 @@ class GHKFilter(object):
         self.x_prediction   = self.x  + self.dx*dt + .5*self.ddx*(dt_sqr)
 
         # update step
+        self.z = z
         self.y = z - self.x_prediction
 
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
-- 
2.43.0


From fcf8267abe5115faec15d3002da84f4567f28247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 28/55] fix: GHKFilter.batch_filter() runs the g-h-k, not the
 g-h, recursion

---
 filterpy/gh/gh_filter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index b243468..ddc7b77 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -684,9 +684,9 @@ class GHKFilter(object):
 
     def batch_filter(self, data, save_predictions=False):
         """
-        Performs g-h filter with a fixed g and h.
+        Performs g-h-k filter with a fixed g, h and k.
 
-        Uses self.x and self.dx to initialize the filter, but DOES NOT
+        Uses self.x, self.dx and self.ddx to initialize the filter, but DOES NOT
         alter self.x and self.dx during execution, allowing you to use this
         class multiple times without reseting self.x and self.dx. I'm not sure
         how often you would need to do that, but the capability is there.
@@ -718,6 +718,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -727,16 +728,19 @@ class GHKFilter(object):
         if save_predictions:
             predictions = np.zeros(n)
 
-        # optimization to avoid n computations of h / dt
+        # optimization to avoid n computations of h / dt and 2k / dt**2
         h_dt = self.h / self.dt
+        k_dt = 2*self.k / self.dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            dx_est = dx + (ddx*self.dt)
+            x_est = x + (dx*self.dt) + (0.5*ddx*self.dt**2)
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx   + k_dt   * residual
+            dx = dx_est + h_dt   * residual # i.e. dx = dx + h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0


From 3eb972d599f14330ce04d3f88247d015e0c807ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 29/55] fix: first order fading memory filter's P and e have
 the right powers of dt

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From 8870e78dc8ded37e3949eed7aa71e29448bd2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 30/55] fix: FadingMemoryFilter keeps fractions when started
 from integers

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From 7c51a54d118a78127dccf6b15dc9d4b0ca646276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 31/55] fix: LeastSquaresFilter records the residual in y as
 documented

---
 filterpy/leastsq/least_squares.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..30377ad 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,11 +125,10 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
-            y = z - x
+            y = z - x[0]
             x[0] += K[0] * y
 
         elif self._order == 1:
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From f78a667cdc9fa4bf2a1d4edbe7257cb97fce5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 32/55] fix: LeastSquaresFilter.errors() with fewer samples
 than the order needs

---
 filterpy/leastsq/least_squares.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 30377ad..cdbaba1 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -183,25 +183,25 @@ class LeastSquaresFilter(object):
             std[0] = sigma/sqrt(n)
 
         elif order == 1:
+            std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
-            std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
 
+            std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
             if n >= 3:
                 error[0] = sigma * sqrt(3*(3*n*n-3*n+2) / (n*(n+1)*(n+2)))
                 error[1] = sigma * sqrt(12*(16*n*n-30*n+11) /
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
-            std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From c163aeeda38734557e0391eb9050dd59477236d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 33/55] fix: residual_resample draws the remaining indices from
 the fractional parts of N*w

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..05f2817 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From 7d984fa082e95c86a5642871763f77ec2fd04cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 34/55] fix: multinomial and residual resampling never pick a
 zero-weight particle for a draw of 0

---
 filterpy/monte_carlo/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 05f2817..477bf4d 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -71,7 +71,7 @@ def residual_resample(weights):
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k))
+    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k), side='right')
 
     return indexes
 
@@ -173,4 +173,4 @@ def multinomial_resample(weights):
     """
     cumulative_sum = np.cumsum(weights)
     cumulative_sum[-1] = 1.  # avoid round-off errors: ensures sum is exactly one
-    return np.searchsorted(cumulative_sum, random(len(weights)))
+    return np.searchsorted(cumulative_sum, random(len(weights)), side='right')
-- 
2.43.0


From a63ede2f10d8297d3178a0ccfcbd5c7967c93eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 35/55] fix: discrete_bayes.predict does not truncate an
 integer-valued belief

---
 filterpy/discrete_bayes/discrete_bayes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 084ba8c..202be0a 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -121,6 +121,7 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
         prior = predict(belief, offset=2, kernel=[.1, .8, .1])
     """
 
+    pdf = np.asarray(pdf, dtype=float)
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-- 
2.43.0


From 2a444c7e1ce1b7ae8a7df76db586b54d034d6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 36/55] fix: compare_kf returns the differing attribute names
 instead of raising NameError

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..0a38e6e 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -466,7 +466,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 8edb230080f3724577bda89be475c82e772d3f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 37/55] fix: Saver records property values as snapshots, not
 references

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 0a38e6e..01f8f5c 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From a71c3798668f436847d03024a62e5c2dd4cc4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 38/55] fix: NEES accepts lists, as documented

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..aaf720e 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1172,7 +1172,7 @@ def NEES(xs, est_xs, ps):
 
     """
 
-    est_err = xs - est_xs
+    est_err = np.asarray(xs) - np.asarray(est_xs)
     errs = []
     for x, p in zip(est_err, ps):
         errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
-- 
2.43.0


From 5c8c00f729a1d439112c9ea1927925a7c5ad2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 39/55] fix: rand_student_t divides by a chi-squared variable,
 not twice one

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index aaf720e..fd23ddd 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1131,7 +1131,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0)  # chi-squared
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From 8a2fc7df715277f6e29181bfbfe21d664448ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 40/55] fix: compare_kf compares attributes which are not
 numeric instead of raising TypeError

---
 filterpy/common/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 01f8f5c..75506e8 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,13 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError):
+            # not numeric (None, a function), or of different shapes
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
-- 
2.43.0


From b0a0b4d5d34afcbe0b4f025c7147d506eb2f2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 41/55] fix: update_sequential() accepts a 1-D state

---
 filterpy/kalman/kalman_filter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 9951157..c8c2044 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -794,8 +794,10 @@ class KalmanFilter(object):
 
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
-        y_i = z_i - dot(H_i, self.x)
-        self.y[start:stop] = y_i
+        Hx = dot(H_i, self.x)
+        z_i = np.reshape(z_i, Hx.shape)
+        y_i = z_i - Hx
+        self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
         PHT = dot(self.P, H_i.T)
@@ -819,7 +821,7 @@ class KalmanFilter(object):
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
 
         # save measurement component #i and the posterior state
-        self.z[start:stop] = z_i
+        self.z[start:stop] = np.reshape(z_i, self.z[start:stop].shape)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-- 
2.43.0


From ec949bfa5bc32e2e6ec3e11749e82c32995f882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 42/55] fix: predict_steadystate() without a control input does
 not multiply B by a scalar zero

---
 filterpy/kalman/kalman_filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index c8c2044..c66102a 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -583,10 +583,9 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
-            self.x = dot(self.F, self.x) + dot(B, u)
-        else:
-            self.x = dot(self.F, self.x)
+        self.x = dot(self.F, self.x)
+        if B is not None and u is not None and not (isscalar(u) and u == 0):
+            self.x = self.x + dot(B, u)
 
         # save prior
         self.x_prior = self.x.copy()
-- 
2.43.0


From 6c6043d858780f2778c6fec5f430da8e8b3d283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 43/55] fix: FadingKalmanFilter.predict() without a control
 input keeps the shape of x

---
 filterpy/kalman/fading_memory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 2bce646..4bfd1c8 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
-- 
2.43.0


From d99dade9cd79a436416486f27fd33ef3bfb6e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 44/55] fix: ExtendedKalmanFilter.predict() without a control
 input keeps the shape of x

---
 filterpy/kalman/EKF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index ba88422..700aea8 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -302,7 +302,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
-- 
2.43.0


From 9bdc0629605aa9662c93382f8843b3307bb860a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 45/55] fix: SquareRootKalmanFilter.predict() without a control
 input keeps the shape of x

---
 filterpy/kalman/square_root.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index e7aec86..78a5bfe 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From 05b83589a127f827abfde4add39264ca50704489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 46/55] fix: InformationFilter.predict() without a control
 input keeps the shape of x

---
 filterpy/kalman/information_filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 5f6d9f7..12e406c 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -278,7 +278,9 @@ class InformationFilter(object):
                 self.x = dot(P, self.x)
                 self._no_information = False
 
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if u is not None and not (np.isscalar(u) and u == 0):
+                self.x = self.x + dot(self.B, u)
             self.P_inv = dot(I_AQ, A)
         else:
             # propagate the information vector P_inv * x
@@ -287,8 +289,9 @@ class InformationFilter(object):
                 self._no_information = True
 
             self.P_inv = dot(I_AQ, A)
-            self.x = (dot(I_AQ, dot(self._F_inv.T, self.x)) +
-                      dot(self.P_inv, zeros(self.x.shape) + dot(self.B, u)))
+            self.x = dot(I_AQ, dot(self._F_inv.T, self.x))
+            if u is not None and not (np.isscalar(u) and u == 0):
+                self.x = self.x + dot(self.P_inv, zeros(self.x.shape) + dot(self.B, u))
 
         # save priors
         self.P_inv_prior = np.copy(self.P_inv)
-- 
2.43.0


From 7457fe2afe8049ba986ace066775871fbd8a8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 47/55] fix: HInfinityFilter.predict() without a control input
 keeps the shape of x

---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index b0c0621..936f6d7 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs, update_first=False, saver=None):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if u is not None and not (np.isscalar(u) and u == 0):
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
-- 
2.43.0


From dc2cddc2e188946b542b8eb887eb6acb54dc1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 48/55] fix: MMAEFilterBank.predict() without a control input
 passes none to the models

---
 filterpy/kalman/mmae.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 7b5023f..bf5f3e5 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -151,7 +151,10 @@ class MMAEFilterBank(object):
         """
 
         for f in self.filters:
-            f.predict(u)
+            if u is None or (np.isscalar(u) and u == 0):
+                f.predict()
+            else:
+                f.predict(u)
 
         self._compute_state_estimate()
 
-- 
2.43.0


From e3c19e7e2cf3069c0d6b0a6786a9eb272b4af20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 49/55] fix: SquareRootKalmanFilter rejects an impossible dim_x

---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 78a5bfe..52a57a3 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,12 +125,12 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
-            raise ValueError('dim_x must be 0 or greater')
+            raise ValueError('dim_u must be 0 or greater')
 
         self.dim_x = dim_x
         self.dim_z = dim_z
-- 
2.43.0


From 4dbb4373ac8ad49aa88a1d407108a1983bf4e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 50/55] fix: SimplexSigmaPoints accepts the state as a list, as
 documented

---
 filterpy/kalman/sigma_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/sigma_points.py b/filterpy/kalman/sigma_points.py
index 37875ae..0a6354b 100644
--- a/filterpy/kalman/sigma_points.py
+++ b/filterpy/kalman/sigma_points.py
@@ -489,7 +489,7 @@ class SimplexSigmaPoints(object):
 
         if np.isscalar(x):
             x = np.asarray([x])
-        x = x.reshape(-1, 1)
+        x = np.reshape(x, (-1, 1))
 
         if np.isscalar(P):
             P = np.eye(n) * P
-- 
2.43.0


From dad3d48feaf09af3f14d4ab1ac89af206cda7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 51/55] fix: batch_filter() accepts None in us, as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index c66102a..9ea595d 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1760,6 +1760,10 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
     if us is None:
         us = [0.] * n
         Bs = [0.] * n
+    else:
+        # no control input in the steps where u is None
+        Bs = [0. if u is None else B for B, u in zip(Bs, us)]
+        us = [0. if u is None else u for u in us]
 
     if update_first:
         for i, (z, F, Q, H, R, B, u) in enumerate(zip(zs, Fs, Qs, Hs, Rs, Bs, us)):
-- 
2.43.0


From b216c733ac7569fbab1b2c31e1576d94d17317b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 52/55] fix: KalmanFilter accepts every documented form of a
 measurement when H is given

update() and update_correlated() only put z into the shape of the state
when they used the stored H. With H given (as batch_filter always does) a
list, a 1D array or a row was broadcast against a column state, and
the state became a matrix.
---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 9ea595d..22768a1 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -527,6 +527,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, np.shape(H)[0], self.x.ndim)
 
         # y = z - Hx
         # error (residual) between measurement and prediction
@@ -717,6 +719,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, np.shape(H)[0], self.x.ndim)
 
         # handle special case: if z is in form [[z]] but x is not a column
         # vector dimensions will not match
-- 
2.43.0


From 547a39f06269764c22f5454c6d545715ffe7037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 53/55] fix: module-level update() treats a scalar R as R times
 the identity

With two or more measurements a float R, which is documented, was added to every
element of S instead of to its diagonal.
---
 filterpy/kalman/kalman_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 22768a1..42724c9 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1478,6 +1478,9 @@ def update(x, P, z, R, H=None, return_all=False):
     Hx = np.atleast_1d(dot(H, x))
     z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
+    if np.isscalar(R) and Hx.shape[0] > 1:
+        R = eye(Hx.shape[0]) * R
+
     # error (residual) between measurement and prediction
     y = z - Hx
 
-- 
2.43.0


From 8650193ab0450fd44a6d41e64789cbfd285e01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 54/55] fix: UnscentedKalmanFilter.update() uses sigma points
 of the current estimate

It used the points drawn by the last predict(), so a second update (say from
another sensor), or an update of an assigned x and P, corrected the estimate
with the spread of a different one.
---
 filterpy/kalman/UKF.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index db4e8ef..6fb369e 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -456,6 +456,10 @@ class UnscentedKalmanFilter(object):
         elif isscalar(R):
             R = eye(self._dim_z) * R
 
+        # sigma points of the current estimate: those drawn by predict() are
+        # out of date after another update(), or once x or P has been assigned
+        self.sigmas_f = self.points_fn.sigma_points(self.x, self.P)
+
         # pass prior sigmas through h(x) to get measurement sigmas
         # the shape of sigmas_h will vary if the shape of z varies, so
         # recreate each time
-- 
2.43.0


From 8a9e896f042faea8d1abe6ba10cfa8a168949222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 55/55] fix: fading and square root filters accept
 one-dimensional and row measurements

---
 filterpy/kalman/fading_memory.py | 4 ++--
 filterpy/kalman/square_root.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 4bfd1c8..d93bdd1 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -27,7 +27,7 @@ import numpy as np
 from numpy import dot, zeros, eye
 import scipy.linalg as linalg
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str
+from filterpy.common import pretty_str, reshape_z
 
 class FadingKalmanFilter(object):
     """
@@ -221,7 +221,7 @@ class FadingKalmanFilter(object):
 
         # y = z - Hx
         # error (residual) between measurement and prediction
-        self.y = z - dot(self.H, self.x)
+        self.y = reshape_z(z, self.dim_z, self.x.ndim) - dot(self.H, self.x)
 
         PHT = dot(self.P, self.H.T)
 
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 52a57a3..8934df6 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -22,7 +22,7 @@ from copy import deepcopy
 import numpy as np
 from numpy import dot, zeros, eye
 from scipy.linalg import cholesky, qr, pinv
-from filterpy.common import pretty_str
+from filterpy.common import pretty_str, reshape_z
 
 
 class SquareRootKalmanFilter(object):
@@ -212,7 +212,7 @@ class SquareRootKalmanFilter(object):
 
         # y = z - Hx
         # error (residual) between measurement and prediction
-        self.y = z - dot(self.H, self.x)
+        self.y = reshape_z(z, self.dim_z, self.x.ndim) - dot(self.H, self.x)
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-- 
2.43.0

