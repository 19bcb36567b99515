From 1d9ed946975192cf0ed4ddbc86615b6928a74d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:57 +0000
Subject: [PATCH 01/21] fix: apply coupling velocity of the Python Euler step
 like the compiled one

The coupling term is evaluated at the state before the substep and its
velocity is added before the position update. Precomputed coupling
velocities were ignored before.
---
 movement_primitives/dmp/_dmp.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 99ceec8..b8cf156 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -308,22 +308,18 @@ def dmp_step_euler(
                 cd += coupling_term_precomputed[0]
                 cdd += coupling_term_precomputed[1]
         else:
-            cd, cdd = None, None
+            cd, cdd = coupling_term.coupling(current_y, current_yd)
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
         tdd = p_gain * tracking_error / dt
 
         ydd = _dmp_acc(
             current_y, current_yd, cdd, alpha_y, beta_y, goal_y, goal_yd,
-            goal_ydd, start_y, z, execution_time, f, coupling_term, tdd,
+            goal_ydd, start_y, z, execution_time, f, None, tdd,
             smooth_scaling)
-        current_yd += dt * ydd
+        current_yd += dt * ydd + cd / execution_time
         current_y += dt * current_yd
 
-        if coupling_term is not None:
-            cd, _ = coupling_term.coupling(current_y, current_yd)
-            current_yd += cd / execution_time
-
 
 DMP_STEP_FUNCTIONS = {
     "rk4": dmp_step_rk4,
-- 
2.43.0


From d38fc5593b8fc1978a07424957868866f0bd1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 02/21] fix: end minimum jerk trajectories at the goal for
 every step size

---
 movement_primitives/data/_minimum_jerk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_minimum_jerk.py b/movement_primitives/data/_minimum_jerk.py
index 6c4dbed..996652c 100644
--- a/movement_primitives/data/_minimum_jerk.py
+++ b/movement_primitives/data/_minimum_jerk.py
@@ -68,7 +68,7 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
 
     X[0] = x
     for t in range(1, n_steps):
-        tau = execution_time - t * dt
+        tau = (n_steps - 1 - t) * dt
 
         if tau >= dt:
             dist = g - x
-- 
2.43.0


From dd808e1a0aec2e55dbaa273484c73d8ab747e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 03/21] fix: do not normalize the time array of the caller in
 ProMP

---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 9ab997d..fdca912 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -493,7 +493,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         activations = np.exp(
             -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))
@@ -555,7 +555,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
-- 
2.43.0


From ffdb65ea0b4a77914f5197902e980ffdac6434e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 04/21] fix: place centers of the forcing term relative to the
 start time

---
 movement_primitives/dmp/_forcing_term.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index 3a88202..d6e983b 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -60,8 +60,7 @@ class ForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_weights_per_dim):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From 7aaee887aeaee8499807c8b62cfd759d336eb067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 05/21] fix: place centers of the state following DMP relative
 to the start time

---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 00cb73a..7dd1f9e 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -102,7 +102,7 @@ class StateFollowingForcingTerm:
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_viapoints):
             # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From 3bbb82c227423cf795f665fb8c8215a74652c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 06/21] fix: do not accumulate tracking error over substeps of
 the dual Cartesian DMP

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index ed05aac..368df28 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -95,8 +95,6 @@ def dmp_step_dual_cartesian_python(
 
     current_ydd = np.empty_like(current_yd)
 
-    cd, cdd = np.zeros_like(current_yd), np.zeros_like(current_ydd)
-
     current_t = last_t
     while current_t < t:
         dt = int_dt
@@ -104,6 +102,7 @@ def dmp_step_dual_cartesian_python(
             dt = t - current_t
         current_t += dt
 
+        cd, cdd = np.zeros_like(current_yd), np.zeros_like(current_ydd)
         if coupling_term is not None:
             cd[:], cdd[:] = coupling_term.coupling(current_y, current_yd)
 
-- 
2.43.0


From 295c981b04192aff107b18f0e7c5bf6dcf616dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 07/21] fix: use the position gains for smooth scaling of the
 dual Cartesian DMP

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 movement_primitives/dmp_fast.pyx               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 368df28..bdb0268 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -116,7 +116,7 @@ def dmp_step_dual_cartesian_python(
                     tracking_error[ops]) / dt
 
         if smooth_scaling:
-            smoothing = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+            smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
         else:
             smoothing = 0.0
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 55743f2..e122b45 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -638,7 +638,7 @@ cpdef dmp_step_dual_cartesian(
         # position components
         for pps, pvs in POS_INDICES:
             if smooth_scaling:
-                smoothing_pos = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+                smoothing_pos = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
             else:
                 smoothing_pos = 0.0
             current_ydd[pvs] = (
-- 
2.43.0


From f0aa3d7ef10f96ec3313b848a772fd24c7e7cc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 08/21] fix: make open-loop execution of the dual Cartesian DMP
 repeatable

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index bdb0268..b25004d 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -353,7 +353,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
 
         if run_t is None:
             run_t = self.execution_time_
-        self.t = 0.0
+        self.reset()
         T = [self.t]
         Y = [np.copy(self.start_y)]
         y = np.copy(self.start_y)
@@ -362,7 +362,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             y, yd = self.step(y, yd, coupling_term, step_function)
             T.append(self.t)
             Y.append(np.copy(self.current_y))
-        self.t = 0.0
+        self.reset()
         return np.array(T), np.vstack(Y)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
-- 
2.43.0


From fc679a75da62a0a5e7a0348432924474dc80c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 09/21] fix: return a copy of the weights

---
 movement_primitives/dmp/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 2bfa240..6ff30c3 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -41,7 +41,7 @@ class WeightParametersMixin:
         weights : array, shape (N * n_weights_per_dim,)
             Current weights of the DMP. N depends on the type of DMP
         """
-        return self.forcing_term.weights_.ravel()
+        return self.forcing_term.weights_.flatten()
 
     def set_weights(self, weights):
         """Set weight vector of DMP.
-- 
2.43.0


From aedcb8b1ca934511f7d8eb886c31df216fd4b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 10/21] fix: return copies of the state from the state
 following DMP

---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 7dd1f9e..5f75110 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -60,7 +60,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
             forcing_term=self.forcing_term,
             coupling_term=coupling_term,
             int_dt=self.int_dt)
-        return self.current_y, self.current_yd
+        return np.copy(self.current_y), np.copy(self.current_yd)
 
     def open_loop(self, run_t=None, coupling_term=None):
         return state_following_dmp_open_loop(
-- 
2.43.0


From ab390d72d6cafaf48c754edc3e59a29599c608c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:11 +0000
Subject: [PATCH 11/21] fix: write numpy scalars and nested tuples as plain
 values

---
 movement_primitives/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index b66f1d9..d7e3773 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -119,6 +119,8 @@ def read_json(filename):
 def _recursive_to_dict(obj, convert_tuple=False):
     result = {"module": obj.__module__, "class": obj.__class__.__name__}
     for k, v in obj.__dict__.items():
+        if isinstance(v, np.generic):
+            v = v.item()
         if convert_tuple and isinstance(v, tuple):
             result[k] = list(v)
         elif isinstance(v, basic_types_and_sequences):
@@ -126,7 +128,7 @@ def _recursive_to_dict(obj, convert_tuple=False):
         elif isinstance(v, np.ndarray):
             result[k] = v.tolist()
         else:
-            result[k] = _recursive_to_dict(v)
+            result[k] = _recursive_to_dict(v, convert_tuple)
     return result
 
 
-- 
2.43.0


From 57ab3f9560c7d0834c79f2ebf95159875ede4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:59 +0000
Subject: [PATCH 12/21] fix: compute pose distance of half turns despite
 rounding errors

---
 movement_primitives/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a96015d..4f44bdd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -496,7 +496,7 @@ def pose_dist(
     ee_actual2ee_desired = np.linalg.inv(ee2base_actual).dot(ee2base_desired)
     trace = (ee_actual2ee_desired[0, 0] + ee_actual2ee_desired[1, 1]
              + ee_actual2ee_desired[2, 2])
-    angle = math.acos(min((trace - 1.0) / 2.0, 1.0))
+    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))
     orientation_error = min(angle, 2.0 * math.pi - angle)
     position_error = math.sqrt(
         ee_actual2ee_desired[0, 3] ** 2 + ee_actual2ee_desired[1, 3] ** 2
-- 
2.43.0


From 35bde3910481ab5dd5334ef511a6a46988e7ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:28 +0000
Subject: [PATCH 13/21] fix: search locally for inverse kinematics within
 interval and limits

---
 movement_primitives/kinematics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 4f44bdd..2f2f46b 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -380,10 +380,11 @@ class Chain:
         bounds = np.empty((self.n_joints, 2))
         bounds[:, 0] = joint_angles - interval
         bounds[:, 1] = joint_angles + interval
+        bounds = self._within_joint_limits(bounds)
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
-                desired_pose, q, return_error=True, solver=solver,
+                desired_pose, q, return_error=True, bounds=bounds, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
             Q.append(q)
@@ -393,6 +394,10 @@ class Chain:
             q = self._sample_joints_uniform(random_state, bounds=bounds)
         return Q[np.argmin(errors)]
 
+    def _within_joint_limits(self, bounds):
+        return np.clip(
+            bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])
+
     def _sample_joints_uniform(self, random_state, bounds=None):
         if bounds is None:
             bounds = self.joint_limits
@@ -483,6 +488,7 @@ class Chain:
                 bounds = np.empty((self.n_joints, 2), dtype=float)
                 bounds[:, 0] = Q[t - 1] - interval
                 bounds[:, 1] = Q[t - 1] + interval
+                bounds = self._within_joint_limits(bounds)
                 Q[t] = self.inverse(
                     H[t], Q[t - 1], False, bounds, solver=solver,
                     orientation_weight=orientation_weight,
-- 
2.43.0


From 524b49522ee08ddf374a10dd684552b77d98ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:40 +0000
Subject: [PATCH 14/21] fix: use the requested solver for all poses of a
 trajectory

---
 movement_primitives/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 2f2f46b..8cc3973 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -467,7 +467,7 @@ class Chain:
 
         if initial_joint_angles is None:
             Q[0] = self.inverse_with_random_restarts(
-                H[0], random_state=random_state,
+                H[0], random_state=random_state, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
         else:
@@ -482,6 +482,7 @@ class Chain:
             if random_restarts:
                 Q[t] = self.local_inverse_with_random_restarts(
                     H[t], Q[t - 1], interval, random_state=random_state,
+                    solver=solver,
                     orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
-- 
2.43.0


From f4bbf314a0090f47ec777fb1df0e9f3aa4a25440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:48 +0000
Subject: [PATCH 15/21] fix: keep the steering angle defined when rounding
 pushes its cosine above one

---
 movement_primitives/dmp/_coupling_terms.py | 7 ++++---
 movement_primitives/dmp_fast.pyx           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index cdf5085..39fb9da 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -55,7 +55,7 @@ def obstacle_avoidance_acceleration_2d(
         theta_nom = theta_nom.reshape(*shape)
     theta_denom = (np.linalg.norm(obstacle_diff, axis=-1)
                    * np.linalg.norm(yd, axis=-1) + EPSILON)
-    theta = np.arccos(theta_nom / theta_denom)
+    theta = np.arccos(np.clip(theta_nom / theta_denom, -1.0, 1.0))
     rotated_velocity = np.einsum(
         "nij,nj->ni", R.reshape(-1, 2, 2), yd.reshape(-1, 2))
     if shape:
@@ -224,9 +224,10 @@ def obstacle_avoidance_acceleration_3d(
     obstacle_diff = obstacle_position - y
     r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
     R = pr.matrix_from_compact_axis_angle(r)
-    theta = np.arccos(
+    theta = np.arccos(np.clip(
         np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON))
+        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        -1.0, 1.0))
     cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
     return cdd
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index e122b45..45267ed 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -874,7 +874,7 @@ cpdef obstacle_avoidance_acceleration_2d(
     cdef double obstacle_diff_norm = sqrt(obstacle_diff[0] * obstacle_diff[0] + obstacle_diff[1] * obstacle_diff[1])
     cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1])
     cdef double theta_denom = obstacle_diff_norm * yd_norm + EPSILON
-    cdef double theta = acos(theta_nom / theta_denom)
+    cdef double theta = acos(max(-1.0, min(1.0, theta_nom / theta_denom)))
     cdef np.ndarray[double, ndim=1] rotated_velocity = np.dot(R, yd)
     cdef np.ndarray[double, ndim=1] cdd = gamma * rotated_velocity * (theta * exp(-beta * theta))
     return cdd
-- 
2.43.0


From 9454f5fc0bb8e98af33997f8476d3e19d5d4cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:34:04 +0000
Subject: [PATCH 16/21] fix: start open-loop execution with the configured
 velocity

---
 movement_primitives/dmp/_cartesian_dmp.py       | 14 ++++++++++----
 movement_primitives/dmp/_dmp.py                 |  3 ++-
 movement_primitives/dmp/_state_following_dmp.py |  6 +++---
 movement_primitives/spring_damper.py            | 12 ++++++------
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 0182b46..55704e4 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -374,7 +374,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function=step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd[:3])
         try:
             quaternion_step_function = CARTESIAN_DMP_STEP_FUNCTIONS[
                 quaternion_step_function]
@@ -390,7 +391,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             quaternion_step_function,
-            self.smooth_scaling)
+            self.smooth_scaling,
+            start_yd=self.start_yd[3:])
         return T, np.hstack((Yp, Yr))
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
@@ -633,7 +635,7 @@ def dmp_open_loop_quaternion(
         coupling_term=None, run_t=None, int_dt=0.001,
         quaternion_step_function=CARTESIAN_DMP_STEP_FUNCTIONS[
             DEFAULT_CARTESIAN_DMP_STEP_FUNCTION],
-        smooth_scaling=False):
+        smooth_scaling=False, start_yd=None):
     """Run Cartesian DMP without external feedback.
 
     Parameters
@@ -680,6 +682,9 @@ def dmp_open_loop_quaternion(
         is changed and the trajectory is scaled by interpolating between
         the old and new scaling of the trajectory.
 
+    start_yd : array, shape (3,), optional (default: zeros)
+        Start velocity.
+
     Returns
     -------
     T : array, shape (n_steps,)
@@ -690,7 +695,8 @@ def dmp_open_loop_quaternion(
     """
     goal_yd = np.zeros(3)
     goal_ydd = np.zeros(3)
-    start_yd = np.zeros(3)
+    if start_yd is None:
+        start_yd = np.zeros(3)
     start_ydd = np.zeros(3)
 
     if run_t is None:
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index b8cf156..d58de54 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -543,7 +543,8 @@ class DMP(WeightParametersMixin, DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 5f75110..8acdd25 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -66,7 +66,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
         return state_following_dmp_open_loop(
             self.execution_time, 0.0, self.dt_, self.start_y, self.goal_y,
             self.alpha_y, self.beta_y, self.forcing_term, coupling_term, run_t,
-            self.int_dt)
+            self.int_dt, self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
@@ -169,10 +169,10 @@ def state_following_dmp_step(
 
 def state_following_dmp_open_loop(
         goal_t, start_t, dt, start_y, goal_y, alpha_y, beta_y, forcing_term,
-        coupling_term=None, run_t=None, int_dt=0.001):
+        coupling_term=None, run_t=None, int_dt=0.001, start_yd=None):
     t = start_t
     y = np.copy(start_y)
-    yd = np.zeros_like(y)
+    yd = np.zeros_like(y) if start_yd is None else np.copy(start_yd)
     T = [start_t]
     Y = [np.copy(y)]
     if run_t is None:
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 66f9869..05efdd4 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -110,7 +110,7 @@ class SpringDamper(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt, self.start_yd)
 
 
 class SpringDamperOrientation(PointToPointMovement):
@@ -212,7 +212,7 @@ class SpringDamperOrientation(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt, self.start_yd)
 
 
 def spring_damper_step(
@@ -282,9 +282,9 @@ def spring_damper_step_quaternion(
 
 def spring_damper_open_loop(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros_like(start_y)
+    yd = np.zeros_like(start_y) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
@@ -299,9 +299,9 @@ def spring_damper_open_loop(
 
 def spring_damper_open_loop_quaternion(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros(3)
+    yd = np.zeros(3) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
-- 
2.43.0


From 4c192e87ede357fffb47f6ab2fa7d7e5d7dd6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:36 +0000
Subject: [PATCH 17/21] fix: accept a covariance matrix for each via-point

---
 movement_primitives/promp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index fdca912..7a20495 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -670,7 +670,7 @@ def via_points(promp, ts, y_cond, y_conditional_cov=None):
     for idx, t_i in enumerate(ts):
         promp = promp.condition_position(
             y_mean=y_cond[idx],
-            y_cov=y_conditional_cov[[idx]],
+            y_cov=y_conditional_cov[idx],
             t=t_i,
             t_max=1.0
         )
-- 
2.43.0


From ec3afd3d813d768b561c02963197f51d1ecbd6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:39:57 +0000
Subject: [PATCH 18/21] fix: potential field ignores whether a DMP scales
 smoothly

---
 movement_primitives/dmp_potential_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 68171b7..b61ad83 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -54,7 +54,7 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     Yd = np.empty_like(Y)
     Yd[:, :] = dmp.current_yd
 
-    z = dmp.forcing_term.phase(dmp.t)
+    z = dmp.forcing_term.phase(dmp.t) if dmp.smooth_scaling else 0.0
     ts = dmp_transformation_system(
         Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
         dmp.start_y, z, dmp.execution_time_)
-- 
2.43.0


From d95e4149b75f73a7779fb901968ea39180284c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:39:57 +0000
Subject: [PATCH 19/21] fix: scale obstacle avoidance in potential field like
 the DMP does

---
 movement_primitives/dmp_potential_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index b61ad83..8a7685e 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -64,7 +64,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     if obstacle is None:
         ct = np.zeros_like(ts)
     else:
-        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+        ct = obstacle_avoidance_acceleration_2d(
+            Y, Yd, obstacle) / dmp.execution_time_ ** 2
 
     acc = ft + ts + ct
     return xx, yy, ft, ts, ct, acc
-- 
2.43.0


From 7d482dc35ddf66dc98314189fe37fec4a54f55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:08 +0000
Subject: [PATCH 20/21] fix: use duration of demonstrations that do not start
 at time zero

---
 movement_primitives/dmp_to_state_space_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_to_state_space_distribution.py b/movement_primitives/dmp_to_state_space_distribution.py
index 64ca208..cde3179 100644
--- a/movement_primitives/dmp_to_state_space_distribution.py
+++ b/movement_primitives/dmp_to_state_space_distribution.py
@@ -85,7 +85,7 @@ def estimate_dmp_parameter_distribution(dataset, n_weights_per_dim, int_dt, verb
     else:
         iterator = dataset
     for T, P in iterator:
-        execution_time = T[-1]
+        execution_time = T[-1] - T[0]
         dt = np.mean(np.diff(T))
         if dt < 0.005:  # HACK
             continue
-- 
2.43.0


From 551a5b1a5ccfff2cc94e6b4a47e40555fe00530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:33 +0000
Subject: [PATCH 21/21] fix: let the coupling term take precedence over a
 precomputed one in the Python orientation step

The compiled orientation step ignores a precomputed coupling when a coupling
term is given, as both position steps do. The Python orientation step added
both, so the two implementations disagreed. It also wrote into the arrays
returned by the coupling term.
---
 movement_primitives/dmp/_cartesian_dmp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 55704e4..90db073 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -109,9 +109,9 @@ def dmp_step_quaternion_python(
             cd, cdd = coupling_term.coupling(current_y, current_yd)
         else:
             cd, cdd = np.zeros(3), np.zeros(3)
-        if coupling_term_precomputed is not None:
-            cd += coupling_term_precomputed[0]
-            cdd += coupling_term_precomputed[1]
+            if coupling_term_precomputed is not None:
+                cd += coupling_term_precomputed[0]
+                cdd += coupling_term_precomputed[1]
 
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
-- 
2.43.0

