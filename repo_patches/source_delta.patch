From 2808aa1dff0201ee25dcb1560629d0d26eb9f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 01/27] fix: keep the corrected mean a vector in
 Estimator.proj_meas

The innovation was reshaped to a column before being added to the (d,)
state mean, which broadcast the corrected mean to (d, d).  Every EP
measurement update on a system with more than one state dimension (and
every Taylor/Monte-Carlo one in 1-D) then failed or was wrong.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 4fd5783f82ecd563fc0b05018aa9fff156ecb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 02/27] fix: keep the Jacobian a matrix in TaylorTransform

Squeezing the (1, m, d) Jacobian of a batched function dropped the
output axis for m == 1 and the input axis for d == 1, so the transform
failed or returned moments without their matrix shape.
---
 MomentMatching/TaylorLinearisation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..01adb72 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -50,10 +50,8 @@ class TaylorTransform(MappingTransform):
         assert isinstance(state, Gaussian)
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
-        if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
-        mean = func(state.mean)
-        mean = np.squeeze(mean)
+        mean = np.atleast_1d(np.squeeze(func(state.mean)))
+        J_t = np.reshape(J_t, (mean.shape[0], state.dim))
         cov = J_t @ state.cov @ J_t.T
         cross_cov = state.cov @ J_t.T
         return mean, cov, cross_cov
-- 
2.43.0


From 98eb025ba3e96dc3d16ee0d7a90c5ae242a0eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 03/27] fix: honour the mean and size the default covariance of
 GaussianNoise

A given mean was dropped (sample() raised AttributeError) and the default
covariance was 1x1 whatever the dimension (sample() raised ValueError).
---
 Systems/DynamicSystem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..29a9702 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -12,13 +12,16 @@ class NoiseModel:
 
 
 class GaussianNoise(NoiseModel):
-    def __init__(self, dimension=1, cov=np.eye(1), mean=None):
+    def __init__(self, dimension=1, cov=None, mean=None):
+        if cov is None:
+            cov = np.eye(dimension)
         Gaussian = namedtuple('Gaussian', ['Q'])
         params = Gaussian(Q=cov)
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From e2e798534177139bd750cc53fb4cda1cf5517086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 04/27] fix: do not add noise in place while simulating

With an identity (or view-returning) transition or measurement the
in-place additions wrote the measurement noise into the latent state,
aliased all simulated states and overwrote the caller's x_zero.
---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 29a9702..af4305c 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -54,9 +54,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -113,9 +113,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From c2c90002292149472acb78a05ca02f154afa123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 05/27] fix: let build_nodes build a chain of one node

---
 ExpectationPropagation/Nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..e133acc 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -231,7 +231,7 @@ def build_nodes(
     for i, node in enumerate(nodes):
         if i == 0:
             node.prev_node = None
-            node.next_node = nodes[i + 1]
+            node.next_node = nodes[i + 1] if N > 1 else None
             continue
         if i == (N - 1):
             node.prev_node = nodes[i - 1]
-- 
2.43.0


From 66ac84ec81b2d01ae725172064eff8628137f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 06/27] fix: let build_nodes attach a system

build_nodes(..., system=...) called node_system without its measurements
and always raised TypeError.
---
 ExpectationPropagation/Nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index e133acc..207f974 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -216,7 +216,8 @@ def build_nodes(
     N: int,
     dim: int,
     estimator: Estimator = None,
-    system: DynamicSystemModel = None
+    system: DynamicSystemModel = None,
+    measurements: Union[np.ndarray, list] = None
     ) -> List[Node]:
     """
     This function builds the factor graph representation of a dynamical system (Figure 2).
@@ -224,6 +225,7 @@ def build_nodes(
     :dim: State dimension
     :estimator: Method of moment matching (e.g. Taylor transformation)
     :system: Dynamical system
+    :measurements: Observations y (needed when system is given)
     :return: Factor graph representation of a dynamical system
     """
     nodes = [Node(dim, index=i) for i in range(N)]
@@ -245,6 +247,6 @@ def build_nodes(
         nodes = node_estimator(nodes=nodes, estimator=estimator)
 
     if system is not None:
-        nodes = node_system(nodes=nodes, system_model=system)
+        nodes = node_system(nodes=nodes, system_model=system, measurements=measurements)
 
     return nodes
-- 
2.43.0


From a32dc063eb24bf6b756e62c19d7885c52b80994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 07/27] fix: sign of the linearisation offset in the iterated
 EKF update

The predicted measurement of Bell and Cathey is h(x_i) + H_i (x - x_i);
with the wrong sign the iterations diverged even for linear models.
---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From c42e85999879abae1a127f7c6f5d006437ebea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 08/27] fix: use every measurement component in the iterated
 EKF

[0] was meant to drop the batch axis, but for a measurement function
returning a plain (m,) vector it kept only the first component.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..36ec0d3 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -134,8 +134,8 @@ class IEKF(KalmanFilterSmoother):
         x = state.mean
         P = state.cov
         for i in range(self.num_iter):
-            h_i = self.measurement(state.mean, t, u)[0]
-            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
+            h_i = np.reshape(self.measurement(state.mean, t, u), (-1,))
+            H_i = np.reshape(jacobian(self.measurement, argnum=0)(state.mean, t, u), (h_i.shape[0], state.dim))
             z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
-- 
2.43.0


From 998aafa1fb736f6135f207d4b6a34f224b239692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 09/27] fix: do not leave the linearised model behind after an
 IEKS run

A second call on the same object ran its first pass with the linearised
functions left over from the previous call.
---
 Filters/KalmanFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 36ec0d3..ce7433d 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -234,6 +234,7 @@ class IEKS(KalmanFilterSmoother):
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
         # First iteration
+        self.transition, self.measurement = self.f, self.h
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
@@ -249,5 +250,6 @@ class IEKS(KalmanFilterSmoother):
             # Update linearisation points
             self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
-        
+
+        self.transition, self.measurement = self.f, self.h
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From e53431900cdd8f44120258f48001f7eb542c455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 10/27] fix: linearise the IEKS transitions at the state they
 start from

The transition into step i was linearised at the smoothed mean of step i
instead of step i-1, so the iterations were not the Gauss-Newton method of
Bell (1994) and their fixed point was not the MAP trajectory.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index ce7433d..81ff2b1 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -238,7 +238,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         for k in range(num_iter-1):
@@ -248,7 +248,7 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         self.transition, self.measurement = self.f, self.h
-- 
2.43.0


From cbf47cd97350eb1f835cd51d2b9b232c9c51aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 11/27] fix: let kalman_smoother start at the t_zero of
 kalman_filter

The filter accepts t_zero but the smoother always counted from 0, so the
smoothed states of a time-varying model filtered from t_zero != 0 used the
transitions of other time steps.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 81ff2b1..fc1554b 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From 08095c8712bc309737ec202bf5c1b362202c1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 12/27] fix: return a vector from
 generate_L96_initial_condition

The batched transition made it (1, dim), which the dimension check of L96
rejects, so L96() could not be constructed.
---
 Systems/L96.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..f633362 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -32,12 +32,11 @@ def generate_L96_initial_condition(dim=40, F=8):
     x0 = F * np.ones(dim)  # Initial state (equilibrium)
     x0[0] += 0.01  # Add small perturbation to the first variable
 
-    x = [x0]
+    x = x0
     for n in range(999):
-        x.append(f(x[-1]))
-    x = np.array(x)
+        x = f(x)
 
-    return x[-1]
+    return np.ravel(x)
 
 
 class L96(DynamicSystemModel):
-- 
2.43.0


From e2b6c373f49d031b1f51e253f0f3f8c6dec922d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 13/27] fix: use the default sensors when sensor_list is None

Only the measurement dimension fell back to the default list; measuring
then iterated over None.
---
 Systems/BearingOnlyTrackingTurn.py | 1 +
 Systems/BearingsOnlyTracking.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..74427e7 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,6 +73,7 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
+            sensor_list = Default_Sensor_List
             meas_dim = len(Default_Sensor_List)
             # meas_dim = 2*len(Default_Sensor_List)
         else:
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..05e38b6 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,6 +62,7 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
+            sensor_list = Default_Sensor_List
             meas_dim = len(Default_Sensor_List)
         else:
             meas_dim = len(sensor_list)
-- 
2.43.0


From 928812dd2cbbaeef0cbe3b54fa891761daa862a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 14/27] fix: import the renamed Experiments.EP_FullSweep

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 15f980c9c33a70bf8d228704a1ca0b1e18eef890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 15/27] fix: advect the Lorenz 96 model in the documented
 direction

The rolls had the wrong sign, so component i followed
(x[i-1] - x[i+2]) x[i+1] instead of (x[i+1] - x[i-2]) x[i-1].
---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index f633362..c2b6634 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = (np.roll(X, -1, 1) - np.roll(X, 2, 1)) * np.roll(X, 1, 1) - X + F
     return dXdt
 
 
-- 
2.43.0


From 27cf244e11e2791cf4fd1f93f37b46e25ee3a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 16/27] fix: let the turning target move straight

A zero turn rate made the transition (and its Jacobian) NaN instead of
taking the constant-velocity limit.
---
 Systems/BearingOnlyTrackingTurn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index 74427e7..c9b8570 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -25,9 +25,14 @@ def f(x, t=None, u=None, delta_t=1):
     ones = np.ones(xs.shape[0])
     zros = np.zeros(xs.shape[0])
     w = xs[:,-1]
-    f_t = np.array([[ones,      sin(w*dt)/w,       zros,      -(1-cos(w*dt))/w,       zros],
+    # A target that does not turn (w = 0) takes the limits of sin(w*dt)/w and (1-cos(w*dt))/w
+    straight = np.abs(w) < 1e-8
+    w_ = np.where(straight, 1.0, w)
+    sin_w = np.where(straight, dt, sin(w_*dt)/w_)
+    cos_w = np.where(straight, w*dt**2/2, (1-cos(w_*dt))/w_)
+    f_t = np.array([[ones,      sin_w,             zros,      -cos_w,                 zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
-                    [zros,      (1-cos(w*dt))/w,   ones,       sin(w*dt)/w,           zros],
+                    [zros,      cos_w,             ones,       sin_w,                 zros],
                     [zros,      sin(w*dt),         zros,       cos(w*dt),             zros],
                     [zros,      zros,              zros,       zros,                  ones]
                     ])
-- 
2.43.0


From bcc205bb41a51b150aafe5e1f43c6ded5dfc3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 17/27] fix: do not report a negative precision as a vague
 Gaussian

Only an almost zero precision is meant to become the flat state.  A
negative trace took the same branch, so in one dimension every improper
Gaussian had covariance 1e10 and passed validate_covariance: EP accepted
marginals and cavities with a negative precision.
---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..cd48c0a 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.trace(precision) < 1e-10:
+    if np.abs(np.trace(precision)) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From 4130e86f2eb00cfe0661cd710d633221d7875c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 18/27] fix: look for the last iteration of the sweep before
 skipping it

The check for an already computed sweep looked for iteration 50 whatever
--num-iter was: shorter sweeps were never recognised and longer ones were
taken as complete when they had been interrupted after 50 iterations.
---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..94c71dd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From 4c8d40ef85febc52f08b24586623d0b4e4b89840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 19/27] fix: let --override replace the saved results

The recomputed rows were inserted with OR IGNORE, so the results already
in the table were kept and the new ones dropped.
---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 Utils/Database.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 94c71dd..ee188ad 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -51,7 +51,7 @@ def create_experiment_table(db, table_name='BOTT_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?)"
 
diff --git a/Utils/Database.py b/Utils/Database.py
index 560b517..1467fd2 100644
--- a/Utils/Database.py
+++ b/Utils/Database.py
@@ -104,7 +104,7 @@ def create_experiment_table(db, table_name='UNGM_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?, ? )"
 
-- 
2.43.0


From 2a41224bf13c7fd93c8c22699b284d41c3910f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 20/27] fix: generate the L96 initial condition with the given
 forcing

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index c2b6634..1f38bc6 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = x0
     for n in range(999):
-        x = f(x)
+        x = f(x, F=F)
 
     return np.ravel(x)
 
-- 
2.43.0


From 56d6599bd1311233bdfba11bbeb188239fefbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 21/27] fix: keep the Jacobian of a slow turn free of
 cancellation

---
 Systems/BearingOnlyTrackingTurn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index c9b8570..a7e2a38 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -29,7 +29,7 @@ def f(x, t=None, u=None, delta_t=1):
     straight = np.abs(w) < 1e-8
     w_ = np.where(straight, 1.0, w)
     sin_w = np.where(straight, dt, sin(w_*dt)/w_)
-    cos_w = np.where(straight, w*dt**2/2, (1-cos(w_*dt))/w_)
+    cos_w = np.where(straight, w*dt**2/2, 2*sin(w_*dt/2)**2/w_)
     f_t = np.array([[ones,      sin_w,             zros,      -cos_w,                 zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
                     [zros,      cos_w,             ones,       sin_w,                 zros],
-- 
2.43.0


From da627a527ded0c24e490bf8181f1c3f301212b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 22/27] fix: refuse covariances that are not finite

---
 Utils/linalg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utils/linalg.py b/Utils/linalg.py
index 6ac56e1..d3edbf3 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -47,6 +47,8 @@ def symmetrize(cov):
 
 def validate_covariance(state):
 
+    if not np.all(np.isfinite(state.cov)):
+        raise np.linalg.LinAlgError('Covariance is not finite')
     np.linalg.cholesky(state.cov)
 
 
-- 
2.43.0


From c25453b2d4794451eb9e689eec5d2c72c2d4fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 23/27] fix: score states whose components have very different
 units

---
 StateModel/Gaussian.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index cd48c0a..4e785d4 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -234,7 +234,13 @@ class Gaussian:
         :param x:
         :return: -ve of logpdf (x, mean=self.mean, cov=self.cov)
         """
-        loglikelihood = multivariate_normal.logpdf(x, mean=self.mean, cov=self.cov, allow_singular=True)
+        mean, cov, log_scale = self.mean, self.cov, 0.0
+        std = np.sqrt(np.diag(cov))
+        corr = cov / np.outer(std, std) if np.all(std > 0) else None
+        if corr is not None and np.linalg.matrix_rank(corr, hermitian=True) == self.dim:
+            # logpdf drops variances that are tiny next to the largest one, so compare them in their own units
+            x, mean, cov, log_scale = x / std, mean / std, corr, np.sum(np.log(std))
+        loglikelihood = multivariate_normal.logpdf(x, mean=mean, cov=cov, allow_singular=True) - log_scale
         return -loglikelihood
 
     def squared_error(self, x):
-- 
2.43.0


From cf7a8923a9063d90cba451bfcbac8ab4a84d2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 24/27] fix: unscented covariances with tightly scaled sigma
 points (small alpha)

---
 MomentMatching/UnscentedTransform.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/MomentMatching/UnscentedTransform.py b/MomentMatching/UnscentedTransform.py
index f0da0f4..f8de931 100644
--- a/MomentMatching/UnscentedTransform.py
+++ b/MomentMatching/UnscentedTransform.py
@@ -30,7 +30,7 @@ class UnscentedTransform(MappingTransform):
     """
 
     def __init__(self, dim=1, alpha=1, beta=2, kappa=1):
-        self.w_m, self.W = self._weights(dim, alpha, beta, kappa)
+        self.w_m, self.w_c = self._weights(dim, alpha, beta, kappa)
         self.param_lambda = alpha * alpha * (dim + kappa) - dim
         super().__init__(approximation_method='Unscented Transform',
                          n=dim,
@@ -72,20 +72,19 @@ class UnscentedTransform(MappingTransform):
         w_m[0] = param_lambda / (n_plus_lambda)
         w_c[0] = w_m[0] + (1 - alpha * alpha + beta)
 
-        w_left = np.eye(2 * n + 1) - np.array(w_m)
-        W = w_left.T @ np.diag(w_c) @ w_left
-
-        W = symmetrize(W)
-
-        return w_m, W
+        return w_m, w_c
 
     def _transform(self, func, state):
 
         sigma_pts = self._sigma_points(state.mean, state.cov)
         Y = func(sigma_pts)
         mean = self.w_m @ Y
-        cov = symmetrize(Y.T @ self.W @ Y)
-        cross_cov = np.asarray(sigma_pts).T @ self.W @ Y
+        # weight the deviations: a small alpha makes the weights so large that an equivalent
+        # quadratic form in the sigma points themselves loses all digits
+        dX = np.asarray(sigma_pts) - state.mean
+        dY = Y - mean
+        cov = symmetrize((self.w_c * dY.T) @ dY)
+        cross_cov = (self.w_c * dX.T) @ dY
 
         return mean, cov, cross_cov
 
-- 
2.43.0


From 4739cccfb6abdeb859fbd9befb2ea996585ceed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 25/27] fix: an indefinite precision with zero trace is not
 almost zero

The test for an almost zero precision looked at the trace only.  A quotient
of two states whose precisions have the same trace (swapped variances, or a
pure correlation message) was reported as the vague state with covariance
1e10 and passed validate_covariance, although its precision is indefinite.
---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 4e785d4..952d33b 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.abs(np.trace(precision)) < 1e-10:
+    if np.abs(np.trace(precision)) < 1e-10 and np.max(np.abs(precision)) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From 3c03210979b75f38f7b31d596d7e1519598d9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 26/27] fix: an iterated-smoother run that fails leaves the
 model as it was

---
 Filters/KalmanFilter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index fc1554b..222071d 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -230,6 +230,13 @@ class IEKS(KalmanFilterSmoother):
         return list(reversed(result))
 
     def __call__(self, measurements, num_iter=5):
+        try:
+            return self._iterate(measurements, num_iter)
+        finally:
+            # whatever happened, leave the model itself behind and not a linearisation
+            self.transition, self.measurement = self.f, self.h
+
+    def _iterate(self, measurements, num_iter):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
@@ -251,5 +258,4 @@ class IEKS(KalmanFilterSmoother):
             self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
-        self.transition, self.measurement = self.f, self.h
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 58a06147a36f6a03d01f9d4384fe89a7172895b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:05 +0000
Subject: [PATCH 27/27] fix: let interrupts through the fallbacks of
 factorisations and solves

---
 MomentMatching/UnscentedTransform.py | 2 +-
 StateModel/Gaussian.py               | 4 ++--
 Utils/linalg.py                      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/MomentMatching/UnscentedTransform.py b/MomentMatching/UnscentedTransform.py
index f8de931..0febd3f 100644
--- a/MomentMatching/UnscentedTransform.py
+++ b/MomentMatching/UnscentedTransform.py
@@ -47,7 +47,7 @@ class UnscentedTransform(MappingTransform):
                                    lower=False, # needs to be upper triangular because we work with row vectors (arrays)
                                    overwrite_a=False,
                                    check_finite=True)
-        except:
+        except Exception:
             L = jittered_chol(cov, lower=False)
 
         scaledL = sqrt_n_plus_lambda * L
diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 952d33b..3025f03 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -48,7 +48,7 @@ def natural_to_moment(precision, shift):
                             assume_a='pos',
                             transposed=False)
 
-    except:
+    except Exception:
         cov = jittered_solve(precision,
                             np.eye(N=dim),
                             assume_a='pos')
@@ -68,7 +68,7 @@ def moment_to_natural(mean, cov):
                             overwrite_b=False,
                             assume_a='pos',
                             transposed=False)
-    except:
+    except Exception:
         precision = jittered_solve(cov, np.eye(N=dim), assume_a='pos')
         # print('possible bad covariance matrix {}'.format(cov))
         # raise LinAlgError
diff --git a/Utils/linalg.py b/Utils/linalg.py
index d3edbf3..87148f3 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -38,7 +38,7 @@ def jittered_solve(a, b, jitter=None, overwrite_a=False, overwrite_b=False, assu
     a = a + jitter * np.eye(a.shape[-1])
     try:
         x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a=assume_a, transposed=transposed)
-    except:
+    except Exception:
         x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a='gen', transposed=transposed)
     return x
 
-- 
2.43.0

