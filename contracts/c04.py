"""C04: Python and compiled implementations agree."""
from . import spec

FUNCTIONS = ["dmp._dmp.dmp_step_euler", "dmp._dmp.dmp_step_rk4", "dmp._dmp._dmp_acc",
             "dmp_fast.dmp_step", "dmp_fast.dmp_step_rk4", "dmp_fast._dmp_acc",
             "dmp._cartesian_dmp.dmp_step_quaternion_python", "dmp_fast.dmp_step_quaternion",
             "dmp._dual_cartesian_dmp.dmp_step_dual_cartesian_python",
             "dmp_fast.dmp_step_dual_cartesian",
             "dmp._canonical_system.phase", "dmp_fast.phase",
             "dmp._coupling_terms.obstacle_avoidance_acceleration_2d",
             "dmp_fast.obstacle_avoidance_acceleration_2d",
             "dmp_fast.matrix_from_compact_axis_angle"]


def _both(g, s, call, a, b, what, same=None):
    y1, yd1 = g.np.copy(s.y), g.np.copy(s.yd)
    y2, yd2 = g.np.copy(s.y), g.np.copy(s.yd)
    call(a, s, y1, yd1)
    call(b, s, y2, yd2)
    g.cover(what)
    g.eq("%s: same velocity" % what, yd2, yd1)
    (same or g.eq)("%s: same state" % what, y2, y1)


def check_euler(g, M):
    s = spec.pos_setup(g, both=True)
    spec.euler_ghost(g, s, s.y, s.yd)
    _both(g, s, spec.pos_call, M("dmp._dmp").dmp_step_euler, M("dmp_fast").dmp_step, "Euler step")


def check_rk4(g, M):
    s = spec.pos_setup(g, both=True)
    _both(g, s, spec.pos_call, M("dmp._dmp").dmp_step_rk4, M("dmp_fast").dmp_step_rk4,
          "Runge-Kutta step")


def check_orientation(g, M):
    spec.stub_quaternions(g, M)
    s = spec.quat_setup(g, both=True)
    spec.quat_ghost(g, s, s.y, s.yd)
    _both(g, s, spec.quat_call, M("dmp._cartesian_dmp").dmp_step_quaternion_python,
          M("dmp_fast").dmp_step_quaternion, "orientation step", g.same_rotation)


def check_dual(g, M):
    spec.stub_quaternions(g, M)
    s = spec.dual_setup(g)
    spec.dual_ghost(g, s, s.y, s.yd)

    def same(label, a, b):
        for k in (0, 1):
            g.eq(label, spec.arms(a)[k][0], spec.arms(b)[k][0])
            g.same_rotation(label, spec.arms(a)[k][1], spec.arms(b)[k][1])
    _both(g, s, spec.dual_call, M("dmp._dual_cartesian_dmp").dmp_step_dual_cartesian_python,
          M("dmp_fast").dmp_step_dual_cartesian, "dual-arm step", same)


def check_phase(g, M):
    alpha, start = g.real("alpha"), g.time("start_t")
    goal = start + g.time("duration", pos=True)
    p, c = M("dmp._canonical_system").phase, M("dmp_fast").phase
    if g.flag("array"):
        t = g.arr("t", g.dim("n", 1))
    else:
        t = g.real("t")
    g.eq("same phase", c(t, alpha, goal, start), p(t, alpha, goal, start))


def check_obstacle_avoidance(g, M):
    y, yd = g.arr("y", 2), g.arr("yd", 2)
    o = y + g.arr("diff", 2)
    gamma, beta = g.real("gamma"), g.real("beta")
    k = g.choice("case", 3)
    if k == 1:
        yd = g.np.zeros(2)
    if k == 2:
        o = y + g.real("distance") * yd
    fr = g.freeze(y, yd, o)
    a = M("dmp._coupling_terms").obstacle_avoidance_acceleration_2d(y, yd, o, gamma, beta)
    b = M("dmp_fast").obstacle_avoidance_acceleration_2d(y, yd, o, gamma, beta)
    g.cover("obstacle avoidance")
    g.eq("same avoidance acceleration", b, a, 1e-4 if k == 2 else None)
    g.frame("obstacle avoidance modifies nothing", fr)
