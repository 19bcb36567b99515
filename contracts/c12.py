"""C12: a primitive at rest at its goal stays there."""
from . import c15, c25, spec

FUNCTIONS = ["dmp._dmp.dmp_step_euler", "dmp._dmp.dmp_step_rk4", "dmp_fast.dmp_step",
             "dmp_fast.dmp_step_rk4", "dmp._cartesian_dmp.dmp_step_quaternion_python",
             "dmp_fast.dmp_step_quaternion",
             "dmp._dual_cartesian_dmp.dmp_step_dual_cartesian_python",
             "dmp_fast.dmp_step_dual_cartesian",
             "dmp._dmp_with_final_velocity.dmp_step_euler_with_constraints",
             "dmp._state_following_dmp.state_following_dmp_step",
             "spring_damper.spring_damper_step", "spring_damper.spring_damper_step_quaternion"]


class NoForce:
    """Forcing term with zero weights."""

    def __init__(self, inner):
        self.inner = inner
        self.phase = inner.phase

    def forcing_term(self, z):
        return 0.0 * self.inner.forcing_term(z)


def rest_ghost(g, s, parts, quats=()):
    """Only time passes."""
    init = {"t": s.last_t}
    init.update(parts)

    def step(st):
        nxt = dict(st)
        nxt["t"] = st["t"] + spec.substep(g, s, st["t"])
        return nxt
    return g.ghost(
        "rest", init=init, quats=quats, const=tuple(parts),
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t, st["t"] >= s.last_t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


def at_rest(g, s, n, zero_te=True):
    """Start from the goal with nothing acting on the system."""
    s.y = g.np.copy(s.goal_y)
    s.yd = g.np.zeros(n)
    s.forcing = NoForce(s.forcing)
    s.coupling_term = s.precomputed = None
    if zero_te:
        s.te = g.np.zeros(n)
    if s.smooth:
        s.start_y = g.np.copy(s.goal_y)


def either(g, q):
    """Both quaternions of an orientation."""
    return -q if g.flag("other quaternion of the goal") else g.np.copy(q)


def verify(g, name, call, s, y, yd, y0):
    call(y, yd)
    g.cover(name)
    g.eq("%s stays at the goal" % name, y, y0)
    g.eq("%s stays at rest" % name, yd, g.np.zeros(yd.shape))


def _pos(g, M, name, step):
    s = spec.pos_setup(g, coupling=False)
    at_rest(g, s, s.n)
    y, yd = g.np.copy(s.goal_y), g.np.zeros(s.n)
    rest_ghost(g, s, {"y": s.goal_y, "yd": yd})
    verify(g, name, lambda a, b: spec.pos_call(step, s, a, b), s, y, yd, s.goal_y)


def check_euler_python(g, M):
    _pos(g, M, "Python Euler step", M("dmp._dmp").dmp_step_euler)


def check_euler_compiled(g, M):
    _pos(g, M, "compiled Euler step", M("dmp_fast").dmp_step)


def check_rk4_python(g, M):
    _pos(g, M, "Python Runge-Kutta step", M("dmp._dmp").dmp_step_rk4)


def check_rk4_compiled(g, M):
    _pos(g, M, "compiled Runge-Kutta step", M("dmp_fast").dmp_step_rk4)


def _quat(g, M, name, step):
    s = spec.quat_setup(g)
    if s.coupling_term is not None or s.precomputed is not None:
        g.skip()
    at_rest(g, s, 3)
    y0, yd = either(g, s.goal_y), g.np.zeros(3)
    rest_ghost(g, s, {"y": y0, "yd": yd}, quats=("y",))
    verify(g, name, lambda a, b: spec.quat_call(step, s, a, b), s, g.np.copy(y0), yd, y0)


def check_quat_python(g, M):
    _quat(g, M, "Python orientation step", M("dmp._cartesian_dmp").dmp_step_quaternion_python)


def check_quat_compiled(g, M):
    spec.stub_quaternions(g, M)
    _quat(g, M, "compiled orientation step", M("dmp_fast").dmp_step_quaternion)


def _dual(g, M, name, step):
    s = spec.dual_setup(g)
    if s.coupling_term is not None or s.te is not None:
        g.skip()
    at_rest(g, s, 12, zero_te=False)
    y0, yd = g.np.copy(s.goal_y), g.np.zeros(12)
    y0[3:7] = either(g, s.goal_y[3:7])
    y0[10:14] = either(g, s.goal_y[10:14])
    rest_ghost(g, s, {"y": y0, "yd": yd})
    verify(g, name, lambda a, b: spec.dual_call(step, s, a, b), s, g.np.copy(y0), yd, y0)


def check_dual_python(g, M):
    _dual(g, M, "Python dual-arm step",
          M("dmp._dual_cartesian_dmp").dmp_step_dual_cartesian_python)


def check_dual_compiled(g, M):
    spec.stub_quaternions(g, M)
    _dual(g, M, "compiled dual-arm step", M("dmp_fast").dmp_step_dual_cartesian)


def check_final_velocity(g, M):
    """At rest at the goal: start and goal coincide and are at rest, or the
    end time has passed."""
    s = spec.pos_setup(g, coupling=False)
    s.smooth = False
    spec.conditioned(g, s.start_t, s.duration)
    at_rest(g, s, s.n)
    if g.flag("past the end"):
        s.elapsed = s.duration + s.elapsed
        s.last_t = s.start_t + s.elapsed
        s.t = s.last_t + s.dt
        if g.sym:
            # substeps end clearly after the end time
            g.assume(s.dt > spec.END)
            g.assume(s.int_dt > spec.END)
            g.assume(s.elapsed > s.duration + spec.END)
    else:
        s.start_y = g.np.copy(s.goal_y)
        s.start_yd = s.start_ydd = s.goal_yd = s.goal_ydd = g.np.zeros(s.n)
    y, yd = g.np.copy(s.goal_y), g.np.zeros(s.n)
    rest_ghost(g, s, {"y": s.goal_y, "yd": yd})
    step = M("dmp._dmp_with_final_velocity").dmp_step_euler_with_constraints
    verify(g, "final-velocity step", lambda a, b: spec.pos_call(step, s, a, b), s, y, yd, s.goal_y)


def check_state_following(g, M):
    """All via-points at the goal."""
    s = c25.step_setup(g, M)
    if s.coupling_term is not None or s.precomputed is not None:
        g.skip()
    s.ft.viapoints[:, :] = s.goal_y
    y, yd = g.np.copy(s.goal_y), g.np.zeros(s.n)
    rest_ghost(g, s, {"y": s.goal_y, "yd": yd})
    step = M("dmp._state_following_dmp").state_following_dmp_step
    verify(g, "state-following step", lambda a, b: step(
        s.last_t, s.t, a, b, s.goal_y, s.zero, s.zero, s.start_y, s.zero, s.zero,
        s.goal_t, s.start_t, s.alpha_y, s.beta_y, s.ft, int_dt=s.int_dt), s, y, yd, s.goal_y)


def _spring(g, name, s, step):
    if s.coupling_term is not None or s.precomputed is not None:
        g.skip()
    y0, yd = either(g, s.goal_y) if s.quat else s.goal_y, g.np.zeros(s.n)
    rest_ghost(g, s, {"y": y0, "yd": yd}, quats=("y",) if s.quat else ())
    verify(g, name, lambda a, b: step(s.last_t, s.t, a, b, s.goal_y, s.k, s.c, int_dt=s.int_dt),
           s, g.np.copy(y0), yd, y0)


def check_spring(g, M):
    _spring(g, "spring-damper step", c15._setup(g, False), M("spring_damper").spring_damper_step)


def check_spring_orientation(g, M):
    _spring(g, "orientation spring-damper step", c15._setup(g, True),
            M("spring_damper").spring_damper_step_quaternion)
