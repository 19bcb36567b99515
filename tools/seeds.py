"""Planted bugs: each breaks one property, builds and passes the tests."""
DMPPY = "movement_primitives/dmp/_dmp.py"
PYX = "movement_primitives/dmp_fast.pyx"

SEEDS = [
    dict(id="phase_ignores_start", property="C01",
         needs="an execution interval that does not start at time zero",
         what="The Python phase is computed from absolute time, so it is not 1 at a start time other than zero.",
         edits=[("movement_primitives/dmp/_canonical_system.py",
                 "return np.exp(-alpha * (t - start_t) / execution_time)",
                 "return np.exp(-alpha * t / execution_time)")],
         demo="""
import numpy as np
from movement_primitives.dmp._canonical_system import phase, canonical_system_alpha
a = canonical_system_alpha(0.01, 3.0, 1.0)
assert abs(phase(1.0, a, 3.0, 1.0) - 1.0) < 1e-9
assert abs(phase(3.0, a, 3.0, 1.0) - 0.01) < 1e-9
"""),
    dict(id="euler_smoothing_gain", property="C03",
         needs="smooth scaling with gains that differ between dimensions, compiled Euler integration",
         what="The compiled Euler step scales the goal offset of every dimension by the gain of the first one.",
         edits=[(PYX, ("smoothing = beta_y[d] * (goal_y[d] - start_y[d]) * z", 0),
                 "smoothing = beta_y[0] * (goal_y[d] - start_y[d]) * z")],
         demo="""
import numpy as np
from movement_primitives.dmp_fast import dmp_step
class F:
    def phase(self, t): return 0.5
    def forcing_term(self, z): return np.zeros((2, 1))
z = np.zeros(2)
y, yd = np.array([0.1, 0.2]), np.zeros(2)
alpha, beta = np.array([25.0, 16.0]), np.array([6.0, 4.0])
g, s = np.array([1.0, 2.0]), np.array([0.5, -1.0])
want = yd + 0.01 * (alpha * (beta * (g - y) - yd - beta * (g - s) * 0.5))
dmp_step(0.1, 0.11, y, yd, g, z, z, s, z, z, 1.0, 0.0, alpha, beta, F(), int_dt=0.01,
         smooth_scaling=True)
assert np.allclose(yd, want), (yd, want)
"""),
    dict(id="euler_tracking_last_substep", property="C03",
         needs="tracking-error correction and a step length that is no multiple of the internal step",
         what="The compiled Euler step divides the tracking error by the nominal instead of the actual substep length.",
         edits=[(PYX, ("            cdd += p_gain * tracking_error / dt\n\n        z = forcing_term.phase(current_t)\n        f[:] = forcing_term.forcing_term(z).squeeze()\n\n        for d in range(n_dims):", 0),
                 "            cdd += p_gain * tracking_error / int_dt\n\n        z = forcing_term.phase(current_t)\n        f[:] = forcing_term.forcing_term(z).squeeze()\n\n        for d in range(n_dims):")],
         demo="""
import numpy as np
from movement_primitives.dmp_fast import dmp_step
class F:
    def phase(self, t): return 0.5
    def forcing_term(self, z): return np.zeros((1, 1))
z, one = np.zeros(1), np.ones(1)
y, yd = np.zeros(1), np.zeros(1)
dmp_step(0.1, 0.105, y, yd, z, z, z, z, z, z, 1.0, 0.0, one, one, F(), int_dt=0.01,
         p_gain=2.0, tracking_error=np.array([0.3]))
assert np.allclose(yd, [0.6]), yd
"""),
    dict(id="basis_step_absolute", property="C02",
         needs="an execution interval that does not start at time zero",
         what="Basis centres are spread over the end time instead of the duration, so the last centre lies behind the end of the interval.",
         edits=[("movement_primitives/dmp/_forcing_term.py",
                 "step = self.execution_time / (self.n_weights_per_dim - 1)",
                 "step = self.goal_t / (self.n_weights_per_dim - 1)")],
         demo="""
import numpy as np
from movement_primitives.dmp import DMP
from movement_primitives.dmp._forcing_term import ForcingTerm
from movement_primitives.dmp._canonical_system import phase, canonical_system_alpha
a = canonical_system_alpha(0.01, 3.0, 1.0)
f = ForcingTerm(1, 5, 3.0, 1.0, 0.8, a)
assert np.allclose(f.centers, phase(np.linspace(1.0, 3.0, 5), a, 3.0, 1.0)), f.centers
"""),
    dict(id="rk4_tracking_gain", property="C03",
         needs="compiled Runge-Kutta integration with a tracking error",
         what="The compiled Runge-Kutta step applies the tracking error without the step size.",
         edits=[(PYX, "        tdd = p_gain / dt * tracking_error\n    else:\n        tdd = np.zeros(n_dims, dtype=np.float64)\n\n    cdef np.ndarray[double, ndim=1] K0",
                 "        tdd = p_gain * tracking_error\n    else:\n        tdd = np.zeros(n_dims, dtype=np.float64)\n\n    cdef np.ndarray[double, ndim=1] K0")],
         demo="""
import numpy as np
from movement_primitives.dmp._dmp import DMP_STEP_FUNCTIONS
class F:
    def phase(self, t): return np.ones_like(t) * 0.5
    def forcing_term(self, z): return np.zeros((1, len(np.atleast_1d(z))))
z = np.zeros(1)
out = []
for k in ("rk4", "rk4-cython"):
    y, yd = np.array([0.3]), np.array([1.0])
    DMP_STEP_FUNCTIONS[k](0.1, 0.3, y, yd, np.ones(1), z, z, z, z, z, 1.0, 0.0,
                          np.array([25.0]), np.array([6.25]), F(), p_gain=10.0,
                          tracking_error=np.array([0.1]))
    out.append(np.hstack((y, yd)))
assert np.allclose(out[0], out[1]), out
"""),
    dict(id="quaternion_coupling_once", property="C05",
         needs="orientation step with a coupling velocity and several internal substeps in pure Python",
         what="The coupling velocity of the pure Python orientation step is not divided by the execution time.",
         edits=[("movement_primitives/dmp/_cartesian_dmp.py",
                 "current_yd += dt * current_ydd + cd / execution_time",
                 "current_yd += dt * current_ydd + cd")],
         demo="""
import numpy as np
from movement_primitives.dmp._cartesian_dmp import dmp_step_quaternion_python
class F:
    def phase(self, t): return 0.5
    def forcing_term(self, z): return np.zeros((3, 1))
class C:
    def coupling(self, y, yd=None): return np.array([0.2, 0.0, 0.0]), np.zeros(3)
q, z, one = np.array([1.0, 0, 0, 0]), np.zeros(3), np.ones(3)
y, yd = q.copy(), z.copy()
dmp_step_quaternion_python(0.1, 0.11, y, yd, q, z, z, q, z, z, 2.0, 0.0, one, one, F(),
                           coupling_term=C(), int_dt=0.01)
assert np.allclose(yd, [0.1, 0, 0]), yd
"""),
    dict(id="dual_arm_shared_start", property="C06",
         needs="smooth scaling and arms that start in different orientations, compiled step",
         what="The compiled dual-arm step uses the start orientation of the left arm to scale the right arm as well.",
         edits=[(PYX, ("concatenate_quaternions(goal_y[ops], q_conj(start_y[ops])))", 0),
                 "concatenate_quaternions(goal_y[ops], q_conj(start_y[3:7])))")],
         demo="""
import numpy as np
from movement_primitives.dmp._dual_cartesian_dmp import DUAL_CARTESIAN_DMP_STEP_FUNCTIONS
class F:
    def phase(self, t): return 0.5
    def forcing_term(self, z): return np.zeros((12, 1))
c, s = np.cos(0.4), np.sin(0.4)
start = np.zeros(14); start[3] = 1.0; start[10:12] = c, s
goal = np.zeros(14); goal[3] = 1.0; goal[10:12] = c, s
z, one = np.zeros(12), np.ones(12)
for k, f in DUAL_CARTESIAN_DMP_STEP_FUNCTIONS.items():
    y, yd = goal.copy(), z.copy()
    f(0.1, 0.11, y, yd, goal, z, z, start, z, z, 1.0, 0.0, 25 * one, 6.25 * one, F(),
      None, 0.001, 0.0, None, True)
    assert np.allclose(yd, 0.0), (k, yd)
"""),
    dict(id="forces_absolute_duration", property="C07",
         needs="a demonstration whose times do not start at zero",
         what="The target forces of a demonstration are computed with its end time instead of its duration.",
         edits=[(DMPPY, "    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]",
                 "    execution_time = T[-1]\n    goal_y = Y[-1]")],
         demo="""
import numpy as np
from movement_primitives.dmp import DMP
T = np.linspace(0.0, 1.0, 101)
Y = np.column_stack((np.sin(3 * T), T ** 2))
w = []
for shift in (0.0, 4.0):
    d = DMP(n_dims=2, execution_time=1.0, n_weights_per_dim=6)
    d.imitate(T + shift, Y)
    w.append(d.get_weights())
assert np.allclose(w[0], w[1]), (w[0] - w[1])
"""),
    dict(id="dual_arm_imitation_gains", property="C08",
         needs="dual-arm imitation with orientation gains that differ between the arms",
         what="The right arm's orientation is fitted with the gains of the left arm's orientation.",
         edits=[("movement_primitives/dmp/_dual_cartesian_dmp.py",
                 "alpha_y=self.alpha_y[9:12], beta_y=self.beta_y[9:12]",
                 "alpha_y=self.alpha_y[3:6], beta_y=self.beta_y[3:6]")],
         demo="""
import numpy as np
from movement_primitives.dmp import CartesianDMP, DualCartesianDMP
T = np.linspace(0.0, 1.0, 101)
P = np.zeros((101, 14))
P[:, 0] = T; P[:, 7] = T ** 2
P[:, 3], P[:, 4] = np.cos(T / 2), np.sin(T / 2)
P[:, 10], P[:, 12] = np.cos(T ** 2), np.sin(T ** 2)
al = np.hstack((25 * np.ones(6), 16 * np.ones(6))); be = al / 4
d = DualCartesianDMP(alpha_y=al, beta_y=be)
d.imitate(T, P.copy())
r = CartesianDMP(alpha_y=al[6:], beta_y=be[6:])
r.imitate(T, P[:, 7:].copy())
assert np.allclose(d.get_weights()[60:], r.get_weights())
"""),
    dict(id="configure_acceleration_length", property="C10",
         needs="configuring a goal acceleration of a primitive whose state and velocity have different lengths",
         what="Goal accelerations are checked against the number of position dimensions, so right ones are rejected and wrong ones accepted.",
         edits=[("movement_primitives/base.py",
                 'check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)',
                 'check_1d_array_length(goal_ydd, "goal_ydd", self.n_dims)')],
         demo="""
import numpy as np
from movement_primitives.dmp import CartesianDMP
d = CartesianDMP()
d.configure(goal_ydd=np.ones(6))
assert np.allclose(d.goal_ydd, 1.0)
try:
    d.configure(goal_ydd=np.ones(7))
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
    dict(id="duration_forgets_weights", property="C11",
         needs="changing the execution time of a primitive with final velocity after its weights were set",
         what="Changing the duration resets the shape of the movement to zero weights.",
         edits=[("movement_primitives/dmp/_dmp_with_final_velocity.py",
                 "        weights = self.forcing_term.weights_\n        self._init_forcing_term()\n        self.forcing_term.weights_ = weights\n",
                 "        self._init_forcing_term()\n        weights = self.forcing_term.weights_\n        self.forcing_term.weights_ = weights\n")],
         demo="""
import numpy as np
from movement_primitives.dmp import DMPWithFinalVelocity
d = DMPWithFinalVelocity(2)
w = np.arange(20.0)
d.set_weights(w)
d.execution_time_ = 2.0
assert np.allclose(d.get_weights(), w)
"""),
    dict(id="quintic_late_start", property="C14",
         needs="a start time other than zero and one",
         what="The start acceleration of the moving target is only met if the start time is zero or one.",
         edits=[("movement_primitives/dmp/_dmp_with_final_velocity.py",
                 "[0, 0, 2, 6 * t0, 12 * t02, 20 * t03],\n                  [1, t1",
                 "[0, 0, 2, 6 * t0, 12 * t02, 20 * t02],\n                  [1, t1")],
         demo="""
import numpy as np
from movement_primitives.dmp._dmp_with_final_velocity import solve_constraints, apply_constraints
v = [np.array([x]) for x in (0.3, -1.0, 2.0, 1.0, 0.5, -0.4)]
b = solve_constraints(0.5, 2.0, *v)
g, gd, gdd = apply_constraints(0.5, v[3], 2.0, b)
assert np.allclose(gdd, v[2]) and np.allclose(gd, v[1]) and np.allclose(g, v[0]), (g, gd, gdd)
"""),
    dict(id="undamped_spring_damped", property="C15",
         needs="a spring that is explicitly undamped",
         what="A damping coefficient of zero is replaced by critical damping.",
         edits=[("movement_primitives/spring_damper.py", "    if c is None:\n", "    if not c:\n")],
         demo="""
import numpy as np
from movement_primitives.spring_damper import SpringDamper
s = SpringDamper(n_dims=1, dt=0.01, k=4.0, c=0.0, int_dt=0.01)
s.configure(start_y=np.zeros(1), goal_y=np.zeros(1), start_yd=np.ones(1))
y, yd = s.step(np.zeros(1), np.ones(1))
assert np.allclose(yd, 1.0), yd
"""),
    dict(id="pose_coupling_damps_leader", property="C16",
         needs="leader-follower pose coupling while the arms move",
         what="Pose coupling damps the rotation of the right arm even if that arm is the leader.",
         edits=[("movement_primitives/dmp/_coupling_terms.py",
                 "C21dot_rot = lf[1] * (c2 * F21_rot - damping * vel_right[3:])",
                 "C21dot_rot = lf[1] * c2 * F21_rot - damping * vel_right[3:]")],
         demo="""
import numpy as np
from movement_primitives.dmp import CouplingTermDualCartesianPose
c = CouplingTermDualCartesianPose(np.eye(4), lf=(1, 0))
y = np.zeros(14); y[3] = y[10] = 1.0
cd, cdd = c.coupling(y, np.ones(12))
assert np.allclose(cd[6:], 0) and np.allclose(cdd[6:], 0), cdd
"""),
    dict(id="avoidance_batch_speed", property="C17",
         needs="avoidance in two dimensions for several states at once",
         what="The angle to the obstacle of one state depends on the speeds of the other states.",
         edits=[("movement_primitives/dmp/_coupling_terms.py",
                 "                   * np.linalg.norm(yd, axis=-1) + EPSILON)",
                 "                   * np.linalg.norm(yd) + EPSILON)")],
         demo="""
import numpy as np
from movement_primitives.dmp import obstacle_avoidance_acceleration_2d
r = np.random.RandomState(0)
Y, V, o = r.randn(5, 2), r.randn(5, 2), r.randn(2)
A = obstacle_avoidance_acceleration_2d(Y, V, o)
for y, v, a in zip(Y, V, A):
    assert np.allclose(a, obstacle_avoidance_acceleration_2d(y, v, o)), a
"""),
    dict(id="velocity_variance_layout", property="C18",
         needs="a model with more than one dimension",
         what="Velocity variances of different dimensions and times are mixed up.",
         edits=[("movement_primitives/promp.py",
                 "np.diag(self.cov_velocities(T)).reshape(\n            self.n_dims, len(T)).T",
                 "np.diag(self.cov_velocities(T)).reshape(\n            len(T), self.n_dims)")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP
p = ProMP(n_dims=2, n_weights_per_dim=4)
r = np.random.RandomState(0)
A = r.randn(8, 8)
p.from_weight_distribution(np.zeros(8), A.dot(A.T))
T = np.linspace(0, 1, 7)
C = p.cov_velocities(T)
v = p.var_velocities(T)
for i in range(7):
    for d in range(2):
        assert abs(v[i, d] - C[d * 7 + i, d * 7 + i]) < 1e-9
"""),
    dict(id="viapoints_relative_time", property="C19",
         needs="via-points of which none lies at the end of the movement",
         what="Times of several via-points are taken relative to the last via-point instead of the end of the movement.",
         edits=[("movement_primitives/promp.py",
                 "            t_max=1.0\n        )\n    return promp",
                 "            t_max=max(ts)\n        )\n    return promp")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP, via_points
p = ProMP(n_dims=1, n_weights_per_dim=5)
p.from_weight_distribution(np.zeros(5), np.eye(5))
q = via_points(p, np.array([0.25, 0.5]), np.array([1.0, 2.0]))
m = q.mean_trajectory(np.linspace(0, 1, 5))
assert np.allclose(m[1:3, 0], [1.0, 2.0]), m
"""),
    dict(id="scatter_around_old_mean", property="C20",
         needs="demonstrations that differ, before the fit has converged",
         what="The covariance update measures the scatter around the mean of the previous iteration.",
         edits=[("movement_primitives/promp.py",
                 "        self.weight_mean = np.mean(means, axis=0)\n\n        centered = means - self.weight_mean",
                 "        centered = means - self.weight_mean\n\n        self.weight_mean = np.mean(means, axis=0)")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP
p = ProMP(n_dims=1, n_weights_per_dim=2)
p.from_weight_distribution(np.array([5.0, -3.0]), np.eye(2))
p.variance = 1.0
means = np.array([[1.0, 2.0], [3.0, 5.0]])
covs = np.array([np.eye(2), 2 * np.eye(2)])
p._maximization(means, covs, [1.0, 1.0], np.zeros((2, 2)), np.zeros((2, 2, 2)), 10)
assert np.allclose(p.weight_cov, np.cov(means.T, bias=True) + 1.5 * np.eye(2)), p.weight_cov
"""),
    dict(id="reset_keeps_old_plan", property="C22",
         needs="configuring another goal and resetting a minimum-jerk trajectory that has been stepped before",
         what="Resetting a minimum-jerk trajectory keeps the trajectory to the former goal.",
         edits=[("movement_primitives/minimum_jerk_trajectory.py",
                 "        self.step_idx = 0\n        self.initialized = False\n\n    def step",
                 "        self.step_idx = 0\n\n    def step")],
         demo="""
import numpy as np
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
m = MinimumJerkTrajectory(1, 0.1, 0.01)
def run(goal):
    m.configure(start_y=np.zeros(1), goal_y=np.array([goal]))
    m.reset()
    y, yd = np.zeros(1), np.zeros(1)
    for _ in range(11):
        y, yd = m.step(y, yd)
    return y[0]
a, b = run(1.0), run(2.0)
assert abs(a - 1.0) < 1e-6 and abs(b - 2.0) < 1e-6, (a, b)
"""),
    dict(id="prismatic_limits_ignored", property="C23",
         needs="a prismatic joint that is commanded beyond its limits",
         what="Only revolute joints are clipped to their limits.",
         edits=[("movement_primitives/kinematics.py",
                 "        value = min(max(value, limits[0]), limits[1])\n        if joint_type == \"revolute\":\n            joint2A",
                 "        if joint_type == \"revolute\":\n            value = min(max(value, limits[0]), limits[1])\n            joint2A")],
         demo="""
import numpy as np
from movement_primitives.kinematics import Kinematics
urdf = '''<robot name="r"><link name="a"/><link name="b"/>
<joint name="j" type="prismatic"><parent link="a"/><child link="b"/><axis xyz="1 0 0"/>
<limit lower="-0.5" upper="0.5" effort="0" velocity="0"/></joint></robot>'''
c = Kinematics(urdf).create_chain(["j"], "a", "b")
for v, w in ((0.3, 0.3), (2.0, 0.5), (-2.0, -0.5)):
    assert abs(c.forward(np.array([v]))[0, 3] - w) < 1e-9
"""),
    dict(id="local_search_last_result", property="C24",
         needs="local inverse kinematics in which no restart reaches the tolerance and the last one is not the best",
         what="Local search with restarts returns the last result instead of the best one.",
         edits=[("movement_primitives/kinematics.py", ("return Q[np.argmin(errors)]", 1), "return Q[-1]")],
         demo="""
import numpy as np
from movement_primitives.kinematics import Kinematics
urdf = '''<robot name="r"><link name="a"/><link name="b"/>
<joint name="j" type="revolute"><parent link="a"/><child link="b"/><axis xyz="0 0 1"/>
<limit lower="-3" upper="3" effort="0" velocity="0"/></joint></robot>'''
c = Kinematics(urdf).create_chain(["j"], "a", "b")
best = [0.5, 0.2, 0.7]
calls = []
def inverse(desired, q, return_error=False, **kw):
    calls.append(1)
    e = best[len(calls) - 1]
    return np.array([e]), e
c.inverse = inverse
q = c.local_inverse_with_random_restarts(np.eye(4), np.zeros(1), 1.0, n_restarts=3,
                                         random_state=np.random.RandomState(0))
assert q[0] == 0.2, q
"""),
    dict(id="statefollowing_coupling_time", property="C25",
         needs="a state-following primitive with a coupling acceleration",
         what="The coupling acceleration of a state-following primitive is scaled by the whole instead of half the execution time.",
         edits=[("movement_primitives/dmp/_state_following_dmp.py",
                 "current_ydd += cdd / (0.5 * execution_time) ** 2",
                 "current_ydd += cdd / execution_time ** 2")],
         demo="""
import numpy as np
from movement_primitives.dmp import StateFollowingDMP
d = StateFollowingDMP(n_dims=1, execution_time=2.0, dt=0.01, n_viapoints=3, int_dt=0.01)
class C:
    def coupling(self, y, yd=None): return np.zeros(1), np.ones(1)
y, yd = d.step(np.zeros(1), np.zeros(1), coupling_term=C())
assert np.allclose(yd, 0.01), yd
"""),
    dict(id="field_absolute_forcing", property="C27",
         needs="a trained primitive with an execution time other than one",
         what="The forcing term's part of the field is not scaled by the execution time.",
         edits=[("movement_primitives/dmp_potential_field.py",
                 "ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()",
                 "ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_).ravel()")],
         demo="""
import numpy as np
from movement_primitives.dmp import DMP
from movement_primitives.dmp_potential_field import potential_field_2d
d = DMP(n_dims=2, execution_time=2.0)
d.set_weights(np.ones(d.n_weights))
_, _, ft, ts, ct, acc = potential_field_2d(d, (-1, 1), (-1, 1), 3)
assert np.allclose(ft, d.forcing_term(0.0).ravel() / 4.0), ft
"""),
    dict(id="propagation_start_overlap", property="C26",
         needs="propagating a parameter distribution to state space",
         what="The goal is read from the parameter vector one entry too early.",
         edits=[("movement_primitives/dmp_to_state_space_distribution.py",
                 "goal_indices = np.arange(n_weights + n_dims, n_weights + 2 * n_dims)",
                 "goal_indices = np.arange(n_weights + n_dims - 1, n_weights + 2 * n_dims - 1)")],
         demo="""
import numpy as np
from movement_primitives.dmp import DualCartesianDMP
from movement_primitives.dmp_to_state_space_distribution import propagate_to_state_space
n = 3
q = np.array([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0])
p = np.hstack((np.zeros(36), q, q, q + [1, 2, 3, 0, 0, 0, 0], q + [4, 5, 6, 0, 0, 0, 0], 1.0))
class M:
    def sigma_points(self, **kw): return p[np.newaxis]
Y = propagate_to_state_space(M(), n, 1.0, 1e-3, 10.0, 0.1, 0.01).reshape(-1, 14)
d = DualCartesianDMP(execution_time=1.0, dt=0.1, n_weights_per_dim=n, int_dt=0.01)
d.configure(start_y=p[36:50], goal_y=p[50:64])
assert np.allclose(Y, d.open_loop(run_t=1.0)[1])
"""),
    dict(id="load_drops_empty", property="C21",
         needs="a saved primitive with an attribute of value zero that is nonzero after construction",
         what="Values that are zero, false or empty are not restored when a primitive is loaded.",
         edits=[("movement_primitives/io.py",
                 "        if isinstance(v, basic_types):\n            setattr(obj, k, v)",
                 "        if isinstance(v, basic_types):\n            if v:\n                setattr(obj, k, v)")],
         demo="""
import os, tempfile
import numpy as np
from movement_primitives.dmp import DMP
from movement_primitives import io
d = DMP(n_dims=1, execution_time=1.0)
d.forcing_term.start_t = 0.0
d.int_dt = 0.005
d.dt_ = 0.02
class_ok = True
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "m.json")
    from movement_primitives.spring_damper import SpringDamper
    s = SpringDamper(n_dims=1, c=1.0)
    s.t = 0.5
    s.initialized = True
    s.last_t = 0.0
    io.write_json(f, s)
    r = io.read_json(f)
    assert r.last_t == 0.0 and r.initialized and r.t == 0.5, r.last_t
"""),
    dict(id="rollout_orientation_run_time", property="C09",
         needs="an open-loop run of a Cartesian primitive that is longer or shorter than its execution time",
         what="The run time is used as execution time of the orientation.",
         edits=[("movement_primitives/dmp/_cartesian_dmp.py",
                 "            goal_t=goal_t, start_t=start_t,\n            alpha_y=alpha_y, beta_y=beta_y,",
                 "            goal_t=run_t, start_t=start_t,\n            alpha_y=alpha_y, beta_y=beta_y,")],
         demo="""
import numpy as np
from movement_primitives.dmp import CartesianDMP
d = CartesianDMP(execution_time=1.0, dt=0.1, n_weights_per_dim=3, int_dt=0.01)
d.configure(start_y=np.array([0.0, 0, 0, 1, 0, 0, 0]),
            goal_y=np.array([1.0, 1, 1, np.cos(0.5), np.sin(0.5), 0, 0]))
_, Y = d.open_loop(run_t=2.0)
y, yd = np.copy(d.start_y), np.copy(d.start_yd)
d.reset()
y, yd = d.step(y, yd)
assert np.allclose(Y[1], y, atol=1e-6), (Y[1], y)
"""),
    dict(id="compiled_orientation_coupling_velocity", property="C04",
         needs="the compiled dual-arm step, a coupling term with angular velocities and an execution time other than one",
         what="The coupling velocity of the orientations is not scaled by the execution time.",
         edits=[(PYX,
                 "            current_yd[ovs] += dt * current_ydd[ovs] + cd[ovs] / execution_time",
                 "            current_yd[ovs] += dt * current_ydd[ovs] + cd[ovs]")],
         demo="""
import numpy as np
from movement_primitives.dmp import DualCartesianDMP
class C:
    def coupling(self, y, yd=None):
        return np.full(12, 0.1), np.zeros(12)
q = np.array([0.0, 0, 0, 1, 0, 0, 0] * 2)
r = []
from movement_primitives.dmp._dual_cartesian_dmp import DUAL_CARTESIAN_DMP_STEP_FUNCTIONS as F
for f in ("python", "cython"):
    d = DualCartesianDMP(execution_time=2.0, dt=0.1, n_weights_per_dim=3, int_dt=0.01)
    d.configure(start_y=q, goal_y=q)
    r.append(d.step(q, np.zeros(12), coupling_term=C(), step_function=F[f])[1])
assert np.allclose(*r), r
"""),
    dict(id="imitation_first_timing", property="C20",
         needs="demonstrations of equal length whose samples are spaced differently",
         what="The features of the first demonstration are used for all demonstrations.",
         edits=[("movement_primitives/promp.py",
                 "PhiHT = self._rbfs_nd_sequence(Ts[demo_idx]).dot(Hs[demo_idx].T)",
                 "PhiHT = self._rbfs_nd_sequence(Ts[0]).dot(Hs[demo_idx].T)")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP
T = np.linspace(0, 1, 31)
Ts = [T, T ** 2]
Ys = [np.sin(3 * t)[:, np.newaxis] for t in Ts]
p = ProMP(n_dims=1, n_weights_per_dim=6)
p.imitate(Ts, Ys)
m = p.mean_trajectory(T)
assert np.abs(m - Ys[0]).max() < 0.05, np.abs(m - Ys[0]).max()
"""),
    dict(id="sigma_points_default_kappa", property="C26",
         needs="propagating a parameter distribution to state space",
         what="The distribution of trajectories is estimated with another spread than the points were chosen with.",
         edits=[("movement_primitives/dmp_to_state_space_distribution.py",
                 "        trajectories, alpha=alpha, kappa=kappa)",
                 "        trajectories, alpha=alpha)")],
         demo="""
import numpy as np
from gmr import MVN
from movement_primitives.dmp_to_state_space_distribution import estimate_state_distribution
n = 12 * 2 + 29
m = MVN(np.zeros(n), np.eye(n))
P = m.sigma_points(alpha=0.5, kappa=10.0)
e = estimate_state_distribution(P, 0.5, 10.0, 2)
want = m.estimate_from_sigma_points(P, alpha=0.5, kappa=10.0)
assert np.allclose(e.covariance, want.covariance), (e.covariance[0, 0], want.covariance[0, 0])
"""),
    dict(id="oblique_axis_matrix", property="C23",
         needs="a revolute joint whose axis is not parallel to a coordinate axis",
         what="One entry of the rotation matrix mixes up two components of the axis.",
         edits=[("movement_primitives/kinematics.py",
                 "ciuz * uy + ux * s", "ciuz * ux + ux * s")],
         demo="""
import numpy as np
import pytransform3d.rotations as pr
from movement_primitives.kinematics import _fast_matrix_from_axis_angle
a = pr.norm_vector(np.array([1.0, 2.0, 3.0]))
R = _fast_matrix_from_axis_angle(a, 0.5)[:3, :3]
assert np.allclose(R, pr.matrix_from_axis_angle(np.hstack((a, 0.5)))), R
"""),
    dict(id="restarts_position_weight", property="C24",
         needs="inverse kinematics with random restarts and different weights of position and orientation",
         what="The orientation weight is used for the position, too.",
         edits=[("movement_primitives/kinematics.py",
                 ("                orientation_weight=orientation_weight,\n"
                  "                position_weight=position_weight)\n"
                  "            Q.append(q)", 0),
                 "                orientation_weight=orientation_weight,\n"
                 "                position_weight=orientation_weight)\n"
                 "            Q.append(q)")],
         demo="""
import numpy as np
from movement_primitives.kinematics import Chain
c = object.__new__(Chain)
c.verbose = 0
c.joint_limits = np.array([[-1.0, 1.0]])
seen = []
def inverse(desired_pose, initial_joint_angles, return_error=False, bounds=None, solver="SLSQP",
            orientation_weight=1.0, position_weight=1.0):
    seen.append((orientation_weight, position_weight))
    return initial_joint_angles, 0.0
c.inverse = inverse
c.inverse_with_random_restarts(np.eye(4), n_restarts=1, orientation_weight=0.0, position_weight=1.0)
assert seen == [(0.0, 1.0)], seen
"""),
    dict(id="coupling_leader_acceleration", property="C16",
         needs="a one-dimensional coupling with a leader",
         what="The acceleration of the second component is switched by the flag of the first one.",
         edits=[("movement_primitives/dmp/_coupling_terms.py",
                 "C21dot = self.c2 * self.c1 * F21 * self.lf[1]",
                 "C21dot = self.c2 * self.c1 * F21 * self.lf[0]")],
         demo="""
import numpy as np
from movement_primitives.dmp import CouplingTermPos1DToPos1D
c = CouplingTermPos1DToPos1D(desired_distance=0.5, lf=(1.0, 0.0))
cd, cdd = c.coupling(np.array([0.0, 2.0]))
assert cdd[1] == 0.0, cdd
"""),
    dict(id="activations_reused", property="C18",
         needs="one ProMP evaluated at two time sequences of the same length with different spacing",
         what="Basis activations are kept for the number of steps, whatever the times are.",
         edits=[("movement_primitives/promp.py",
                 "        T = np.atleast_2d(T)\n"
                 "        T = T / np.max(T)\n"
                 "\n"
                 "        activations = np.exp(\n"
                 "            -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))\n"
                 "        if normalize:\n"
                 "            activations /= activations.sum(axis=0)\n"
                 "\n"
                 "        assert activations.shape[0] == self.n_weights_per_dim\n"
                 "        assert activations.shape[1] == n_steps\n"
                 "\n"
                 "        return activations\n",
                 "        key = self.n_weights_per_dim, n_steps, overlap, normalize\n"
                 "        if key in ProMP.activations:\n"
                 "            return np.copy(ProMP.activations[key])\n"
                 "        T = np.atleast_2d(T)\n"
                 "        T = T / np.max(T)\n"
                 "\n"
                 "        activations = np.exp(\n"
                 "            -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))\n"
                 "        if normalize:\n"
                 "            activations /= activations.sum(axis=0)\n"
                 "\n"
                 "        assert activations.shape[0] == self.n_weights_per_dim\n"
                 "        assert activations.shape[1] == n_steps\n"
                 "\n"
                 "        ProMP.activations[key] = np.copy(activations)\n"
                 "        return activations\n"),
                ("movement_primitives/promp.py",
                 "    def __init__(self, n_dims, n_weights_per_dim=10):",
                 "    activations = {}\n\n"
                 "    def __init__(self, n_dims, n_weights_per_dim=10):")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP
p = ProMP(n_dims=1, n_weights_per_dim=6)
p.from_weight_distribution(np.arange(6.0), np.eye(6))
T1 = np.array([0.0, 0.2, 0.25, 1.0])
T2 = np.array([0.0, 0.25, 0.7, 1.0])
y1 = p.mean_trajectory(T1)[2, 0]
y2 = p.mean_trajectory(T2)[1, 0]
assert abs(y1 - y2) < 1e-6, (y1, y2)
"""),
    dict(id="forward_skips_unchanged_joints", property="C23",
         needs="an array of joint angles that is changed in place between two calls",
         what="Joints are only moved if the angles differ from the last ones, which are kept without a copy.",
         edits=[("movement_primitives/kinematics.py",
                 "        for i in range(self.n_joints):\n"
                 "            self.tm.set_joint(self.joint_names[i], joint_angles[i])\n"
                 "        return self.tm.get_ee2base(self.ee_index, self.base_index)\n",
                 "        last = getattr(self, \"_last_joint_angles\", None)\n"
                 "        if last is None or not np.array_equal(last, joint_angles):\n"
                 "            for i in range(self.n_joints):\n"
                 "                self.tm.set_joint(self.joint_names[i], joint_angles[i])\n"
                 "        self._last_joint_angles = np.asarray(joint_angles)\n"
                 "        return self.tm.get_ee2base(self.ee_index, self.base_index)\n")],
         demo="""
import numpy as np
from movement_primitives.kinematics import Kinematics
URDF = '<robot name="r"><link name="a"/><link name="b"/><joint name="j" type="revolute">'
URDF += '<parent link="a"/><child link="b"/><origin xyz="0 0 1"/><axis xyz="0 0 1"/>'
URDF += '<limit lower="-2" upper="2" effort="0" velocity="0"/></joint></robot>'
c = Kinematics(URDF).create_chain(["j"], "a", "b")
q = np.array([0.0])
c.forward(q)
q[0] = 1.0
assert abs(c.forward(q)[0, 0] - np.cos(1.0)) < 1e-9
"""),
    dict(id="files_single_precision", property="C21",
         needs="values that need more than seven digits",
         what="Arrays are written to text files in single precision.",
         edits=[("movement_primitives/io.py",
                 "            result[k] = v.tolist()",
                 "            result[k] = v.astype(np.float32).tolist()")],
         demo="""
import os, tempfile
import numpy as np
from movement_primitives.dmp import DMP
from movement_primitives.io import read_json, write_json
d = DMP(n_dims=1, execution_time=1.0, n_weights_per_dim=3)
d.set_weights(np.array([0.1, 1.0 / 3.0, 100.7]))
with tempfile.TemporaryDirectory() as tmp:
    f = os.path.join(tmp, "d.json")
    write_json(f, d)
    assert np.array_equal(read_json(f).get_weights(), d.get_weights())
"""),
    dict(id="statefollowing_weak_activations", property="C25",
         needs="a state-following primitive with sharply separated via-points that runs on after its end",
         what="Weak activations are not normalized, so that the attractor loses its pull.",
         edits=[("movement_primitives/dmp/_state_following_dmp.py",
                 "            activations /= activations.sum(axis=0)",
                 "            activations /= np.maximum(activations.sum(axis=0), 1e-3)")],
         demo="""
import numpy as np
from movement_primitives.dmp._state_following_dmp import StateFollowingForcingTerm
f = StateFollowingForcingTerm(1, 10, 1.0, 0.0, 0.001, 4.6)
for t in np.linspace(0, 3, 31):
    assert abs(f(t).sum() - 1.0) < 1e-6, t
"""),
    dict(id="rk4_smoothing_time_scale", property="C13",
         needs="compiled Runge-Kutta integration, smooth scaling and an execution time other than one",
         what="The smoothing term is scaled by the execution time.",
         edits=[("movement_primitives/dmp_fast.pyx",
                 "                - execution_time * V[d]\n"
                 "                - smoothing\n",
                 "                - execution_time * (V[d] + smoothing)\n")],
         demo="""
import numpy as np
from movement_primitives.dmp import DMP
def rollout(tau):
    d = DMP(n_dims=1, execution_time=tau, dt=0.01 * tau, n_weights_per_dim=5, smooth_scaling=True)
    d.configure(start_y=np.zeros(1), goal_y=np.ones(1))
    return d.open_loop(step_function="rk4-cython")[1]
a, b = rollout(1.0), rollout(2.0)
assert np.allclose(a[:100], b[:100], atol=1e-6)
"""),
    dict(id="ridge_all_entries", property="C20",
         needs="a regularization coefficient that is not tiny",
         what="The coefficient is added to all entries instead of the diagonal.",
         edits=[("movement_primitives/promp.py",
                 "            + lmbda * np.eye(activations.shape[1])\n"
                 "        ).dot(",
                 "            + lmbda\n"
                 "        ).dot(")],
         demo="""
import numpy as np
from movement_primitives.promp import ProMP
p = ProMP(n_dims=1, n_weights_per_dim=4)
T = np.linspace(0, 1, 21)
Y = np.sin(5 * T)[:, np.newaxis]
a = p._rbfs_nd_sequence(T).T
w = np.linalg.solve(a.T.dot(a) + 0.5 * np.eye(4), a.T.dot(Y.ravel()))
assert np.allclose(p.weights(T, Y, lmbda=0.5), w)
"""),
    dict(id="spring_precomputed_ignored", property="C15",
         needs="an orientation spring-damper step with a coupling term and a precomputed coupling",
         what="The precomputed coupling is dropped when there is a coupling term, too.",
         edits=[("movement_primitives/spring_damper.py",
                 "            cd, cdd = np.zeros(3), np.zeros(3)\n"
                 "        if coupling_term_precomputed is not None:\n",
                 "            cd, cdd = np.zeros(3), np.zeros(3)\n"
                 "        if coupling_term_precomputed is not None and coupling_term is None:\n")],
         demo="""
import numpy as np
from movement_primitives.spring_damper import spring_damper_step_quaternion
class C:
    def coupling(self, y, yd=None):
        return np.zeros(3), np.zeros(3)
def step(coupling):
    q, w = np.array([1.0, 0.0, 0.0, 0.0]), np.zeros(3)
    spring_damper_step_quaternion(
        0.0, 0.01, q, w, np.array([1.0, 0.0, 0.0, 0.0]), k=1.0, c=2.0, coupling_term=coupling,
        coupling_term_precomputed=(np.zeros(3), np.ones(3)), int_dt=0.001)
    return w
assert np.allclose(step(None), step(C()))
"""),
    dict(id="dual_tracking_inverted", property="C10",
         needs="a dual-arm primitive with tracking gain whose executed orientation differs from the planned one",
         what="The orientation part of the tracking error has the wrong sign.",
         edits=[("movement_primitives/dmp/_dual_cartesian_dmp.py",
                 "                self.current_y[ops], pr.q_conj(last_y[ops]))\n",
                 "                last_y[ops], pr.q_conj(self.current_y[ops]))\n")],
         demo="""
import numpy as np
from movement_primitives.dmp import DualCartesianDMP
d = DualCartesianDMP(execution_time=1.0, dt=0.01, int_dt=0.01, n_weights_per_dim=3, p_gain=10.0)
y = np.array([0.0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0])
d.configure(start_y=y, goal_y=y)
d.step(y, np.zeros(12))
moved = np.copy(y)
moved[3:7] = np.cos(0.1), np.sin(0.1), 0.0, 0.0
quiet = DualCartesianDMP(execution_time=1.0, dt=0.01, int_dt=0.01, n_weights_per_dim=3)
quiet.configure(start_y=y, goal_y=y)
quiet.step(y, np.zeros(12))
a = d.step(moved, np.zeros(12))[1][3]
b = quiet.step(moved, np.zeros(12))[1][3]
assert a < b, (a, b)  # pulled back to the planned orientation
"""),
    dict(id="orientation_final_acceleration", property="C07",
         needs="imitation of orientations with final velocity",
         what="The acceleration at the end is only set to zero if no final velocity is allowed.",
         edits=[("movement_primitives/dmp/_cartesian_dmp.py",
                 "    Ydd[-1, :] = 0.0\n"
                 "\n"
                 "    execution_time",
                 "    if not allow_final_velocity:\n"
                 "        Ydd[-1, :] = 0.0\n"
                 "\n"
                 "    execution_time")],
         demo="""
import numpy as np
from movement_primitives.dmp._cartesian_dmp import determine_forces_quaternion
T = np.linspace(0, 1, 6)
A = 0.5 * T ** 3
Y = np.column_stack((np.cos(A), np.sin(A), 0 * A, 0 * A))
F = determine_forces_quaternion(T, Y, 25.0 * np.ones(3), 6.25 * np.ones(3), 4.6, True)[0]
V = 2.0 * (A[-1] - A[-2]) / (T[-1] - T[-2])
assert abs(F[-1, 0] - 25.0 * V) < 1e-6, (F[-1, 0], 25.0 * V)
"""),
    dict(id="statefollowing_last_width", property="C25",
         needs="a state-following primitive near its end",
         what="The last via-point gets the width of the first one.",
         edits=[("movement_primitives/dmp/_state_following_dmp.py",
                 "        self.widths[self.n_viapoints - 1] = self.widths[self.n_viapoints - 2]",
                 "        self.widths[self.n_viapoints - 1] = self.widths[0]")],
         demo="""
from movement_primitives.dmp._state_following_dmp import StateFollowingForcingTerm
f = StateFollowingForcingTerm(1, 10, 1.0, 0.0, 0.7, 4.6)
assert f.widths[-1] == f.widths[-2]
"""),
    dict(id="design_matrix_late_start", property="C02",
         needs="a demonstration whose times do not start at zero",
         what="The phases of the samples are computed from unshifted times and the duration.",
         edits=[("movement_primitives/dmp/_forcing_term.py",
                 "        Z = phase(T, alpha=self.alpha_z, goal_t=T[-1], start_t=T[0])\n",
                 "        Z = phase(T, alpha=self.alpha_z, goal_t=T[-1] - T[0], start_t=0.0)\n")],
         demo="""
import numpy as np
from movement_primitives.dmp._forcing_term import ForcingTerm
T = np.linspace(0, 1, 11)
f = ForcingTerm(1, 5, 1.0, 0.0, 0.8, 4.6)
assert np.allclose(f.design_matrix(T), f.design_matrix(T + 1.0))
"""),
    dict(id="quaternion_log_double_cover", property="C05",
         needs="the compiled orientation step and an orientation that is the negated quaternion of the goal",
         what="The zero rotation is only recognized for one of its two quaternions.",
         edits=[("movement_primitives/dmp_fast.pyx",
                 "    if p_norm_sqr < 1e-32:\n"
                 "        return np.zeros(3)\n",
                 "    if q[0] > 0.0 and p_norm_sqr < 1e-32:\n"
                 "        return np.zeros(3)\n")],
         demo="""
import numpy as np
from movement_primitives.dmp_fast import compact_axis_angle_from_quaternion
a = compact_axis_angle_from_quaternion(np.array([-1.0, 0.0, 0.0, 0.0]))
assert np.all(a == 0.0), a
"""),
    dict(id="final_velocity_overrun", property="C12",
         needs="a final-velocity primitive that runs on after its end",
         what="The polynomial is followed beyond the end for a while and moves on with the final velocity.",
         edits=[("movement_primitives/dmp/_dmp_with_final_velocity.py",
                 "    if t > goal_t + np.finfo(float).eps:\n",
                 "    if t > goal_t + 0.05:\n")],
         demo="""
import numpy as np
from movement_primitives.dmp._dmp_with_final_velocity import apply_constraints, solve_constraints
c = solve_constraints(0.0, 1.0, np.zeros(1), np.zeros(1), np.zeros(1), np.ones(1), np.ones(1), np.zeros(1))
g, gd, gdd = apply_constraints(1.02, np.ones(1), 1.0, c)
assert g[0] == 1.0 and gd[0] == 0.0 and gdd[0] == 0.0, (g, gd, gdd)
"""),
]
