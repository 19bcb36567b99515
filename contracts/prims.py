"""Configured primitives together with the specification of one step.

``build(g, M, kind)`` gives a primitive with arbitrary parameters, start, goal
and time.  ``advance`` is the specification of one integration step with that
configuration."""
import copy

from . import c15, c25, spec

STEPPERS = ("rk4", "euler", "rk4-cython", "euler-cython")
FIXED = {"cartesian": (7, 6), "dual": (14, 12), "spring orientation": (4, 3)}
KINDS = ("position", "cartesian", "dual", "final velocity", "state following",
         "spring", "spring orientation")


class Prim:
    overwrites = False      # does a step continue from the state it is given?
    weights = True
    follows_error = False   # does the difference to the given state act on it?


def _poses(g, name, kind, n):
    if kind == "cartesian":
        return g.np.concatenate((g.arr(name + ".p", 3), g.unit(name + ".q")))
    if kind == "dual":
        return spec.dual_unit(g, name)
    if kind == "spring orientation":
        return g.unit(name)
    return g.arr(name, n)


def dimension(g):
    """One or more dimensions; gains of length one are treated differently by
    the library."""
    return 1 if g.flag("one dimension") else g.dim("n", 2)


def build(g, M, kind, coupling=None, stepper=None):
    """A primitive with arbitrary parameters (and a fixed step function)."""
    q = Prim()
    q.kind = kind
    q.M = M
    s = q.s = spec.Setup()
    s.n = q.n = dimension(g) if kind not in FIXED else None
    q.ny, q.nv = FIXED.get(kind, (s.n, s.n))
    s.start_t = 0.0
    s.dt = g.time("dt", pos=True)
    s.int_dt = g.time("int_dt", pos=True)
    s.goal_y, s.start_y = _poses(g, "goal_y", kind, s.n), _poses(g, "start_y", kind, s.n)
    for k in ("goal_yd", "goal_ydd", "start_yd", "start_ydd"):
        setattr(s, k, g.arr(k, q.nv))
    s.precomputed = None
    s.smooth = False
    s.p_gain = 0.0
    s.te = None
    if kind in ("spring", "spring orientation"):
        q.weights = False
        q.overwrites = True
        s.k = g.real("k", pos=True)
        s.c = g.real("c") if g.flag("with_damping") else None
        s.quat = kind != "spring"
        s.n = q.nv
        m = M("spring_damper")
        kw = dict(dt=s.dt, k=s.k, c=s.c, int_dt=s.int_dt)
        q.p = m.SpringDamper(q.n, **kw) if kind == "spring" else m.SpringDamperOrientation(**kw)
    else:
        s.duration = g.time("execution_time", pos=True)
        s.goal_t = s.start_t + s.duration
        s.alpha_y, s.beta_y = g.arr("alpha_y", q.nv), g.arr("beta_y", q.nv)
        kw = dict(execution_time=s.duration, dt=s.dt, int_dt=s.int_dt,
                  alpha_y=s.alpha_y, beta_y=s.beta_y)
        if kind == "state following":
            q.overwrites = True
            s.nv = g.dim("n_viapoints", 2)
            q.p = M("dmp._state_following_dmp").StateFollowingDMP(q.n, n_viapoints=s.nv, **kw)
            q.p.forcing_term.viapoints[:, :] = g.arr("viapoints", s.nv, q.n)
            s.ft = q.p.forcing_term
            s.alpha_z = s.ft.alpha_z
            s.ft.centers[:] = g.arr("centers", s.nv, sample=(0.0, 1.0))
            s.ft.widths[:] = g.arr("widths", s.nv, sample=(1.0, 20.0))
        elif kind == "final velocity":
            s.p_gain = g.real("p_gain")
            q.follows_error = True
            q.p = M("dmp._dmp_with_final_velocity").DMPWithFinalVelocity(
                q.n, p_gain=s.p_gain, **kw)
            s.forcing = q.p.forcing_term = g.forcing("F", q.n)
        else:
            s.smooth = g.flag("smooth_scaling")
            kw["smooth_scaling"] = s.smooth
            if kind == "cartesian":
                q.overwrites = True
                q.stepper = stepper or STEPPERS[g.choice("step function", 4)]
                if stepper and g.sym:
                    q.qstepper = "cython" if "cython" in stepper else "python"
                else:
                    q.qstepper = ("python", "cython")[g.choice("quaternion step function", 2)]
                q.p = M("dmp._cartesian_dmp").CartesianDMP(**kw)
                q.fp = q.p.forcing_term_pos = g.forcing("Fp", 3)
                q.fr = q.p.forcing_term_rot = g.forcing("Fr", 3)
            elif kind == "dual":
                q.overwrites = True
                q.follows_error = True
                s.p_gain = g.real("p_gain")
                q.stepper = ("python", "cython")[g.choice("step function", 2)]
                q.p = M("dmp._dual_cartesian_dmp").DualCartesianDMP(p_gain=s.p_gain, **kw)
                s.forcing = q.p.forcing_term = g.forcing("F", 12)
                s.n = 12
            else:
                q.follows_error = True
                s.p_gain = g.real("p_gain")
                q.stepper = stepper or STEPPERS[g.choice("step function", 4)]
                q.p = M("dmp._dmp").DMP(q.n, p_gain=s.p_gain, **kw)
                s.forcing = q.p.forcing_term = g.forcing("F", q.n)
    with_coupling = g.flag("with_coupling") if coupling is None else coupling
    s.coupling_term = g.coupling("C", q.ny, 3 if kind == "cartesian" else q.nv) \
        if with_coupling else None
    spec.stub_quaternions(g, M)
    return q


def configure(q):
    s = q.s
    q.p.configure(start_y=s.start_y, start_yd=s.start_yd, start_ydd=s.start_ydd,
                  goal_y=s.goal_y, goal_yd=s.goal_yd, goal_ydd=s.goal_ydd)


def config_arrays(q):
    s = q.s
    out = [s.start_y, s.start_yd, s.start_ydd, s.goal_y, s.goal_yd, s.goal_ydd]
    for k in ("alpha_y", "beta_y"):
        if hasattr(s, k):
            out += [getattr(s, k), getattr(q.p, k)]
    return out


def state(g, q, name):
    """Arbitrary position and velocity."""
    return _poses(g, name, q.kind, q.n), g.arr(name + "d", q.nv)


def error(g, q, cur, given):
    """Difference between the primitive's own state and the one it is given."""
    if not q.follows_error:
        return None
    if q.kind == "dual":
        out = []
        for (p1, q1), (p2, q2) in zip(spec.arms(cur), spec.arms(given)):
            out += [p1 - p2, spec.qmul(g, q1, spec.qconj(g, q2))]
        return g.np.concatenate(out)
    return cur - given


def quaternions(q, part=None):
    """Offsets of the unit quaternions in the position part of a state."""
    if q.kind == "dual":
        return (3, 10)
    if part == "orientation" or q.kind == "spring orientation":
        return (0,)
    return ()


def advance(g, q, last_t, t, y, yd, te=None, part=None):
    """State one integration step later; with `part`, of the positions or
    orientations of a pose only."""
    s = copy.copy(q.s)
    s.last_t, s.t = last_t, t
    kind = q.kind
    if kind == "cartesian":
        a, b = copy.copy(s), copy.copy(s)
        a.n = b.n = 3
        for x, sy, sv in ((a, slice(0, 3), slice(0, 3)), (b, slice(3, 7), slice(3, 6))):
            x.goal_y, x.start_y = s.goal_y[sy], s.start_y[sy]
            x.alpha_y, x.beta_y = s.alpha_y[sv], s.beta_y[sv]
        a.forcing, b.forcing = q.fp, q.fr
        a.te = g.np.zeros(3)
        if part == "orientation":
            f = spec.quat_ghost(g, b, y, yd).final
            return f["y"], f["yd"]
        if q.stepper.startswith("rk4"):
            py, pv = spec.rk4(g, a, y[0:3], yd[0:3])
        else:
            f = spec.euler_ghost(g, a, y[0:3], yd[0:3]).final
            py, pv = f["y"], f["yd"]
        if part == "position":
            return py, pv
        f = spec.quat_ghost(g, b, y[3:7], yd[3:6]).final
        return g.np.concatenate((py, f["y"])), g.np.concatenate((pv, f["yd"]))
    if kind == "dual":
        s.te = te
        f = spec.dual_ghost(g, s, y, yd).final
        return spec.dual_state(g, f), f["yd"]
    if kind in ("spring", "spring orientation"):
        f = c15.ghost(g, s, y, yd).final
        return f["y"], f["yd"]
    if kind == "state following":
        f = c25.ghost(g, s, y, yd).final
        return f["y"], f["yd"]
    s.te = te if te is not None else g.np.zeros(s.n)
    if kind == "final velocity":
        f = spec.constrained_ghost(g, s, y, yd).final
        return f["y"], f["yd"]
    if q.stepper.startswith("rk4"):
        return spec.rk4(g, s, y, yd)
    f = spec.euler_ghost(g, s, y, yd).final
    return f["y"], f["yd"]


def functions(q):
    """Step functions of the library by the names used in this module."""
    M = q.M
    pos = {"rk4": ("dmp._dmp", "dmp_step_rk4"), "euler": ("dmp._dmp", "dmp_step_euler"),
           "rk4-cython": ("dmp_fast", "dmp_step_rk4"), "euler-cython": ("dmp_fast", "dmp_step")}
    quat = {"python": ("dmp._cartesian_dmp", "dmp_step_quaternion_python"),
            "cython": ("dmp_fast", "dmp_step_quaternion")}
    dual = {"python": ("dmp._dual_cartesian_dmp", "dmp_step_dual_cartesian_python"),
            "cython": ("dmp_fast", "dmp_step_dual_cartesian")}
    get = lambda d, k: getattr(M(d[k][0]), d[k][1])
    if q.kind == "cartesian":
        return dict(step_function=get(pos, q.stepper),
                    quaternion_step_function=get(quat, q.qstepper))
    if q.kind == "dual":
        return dict(step_function=get(dual, q.stepper))
    return {}


def names(q):
    if q.kind == "position":
        return dict(step_function=q.stepper)
    if q.kind == "cartesian":
        return dict(step_function=q.stepper,
                    quaternion_step_function={"python": "python", "cython": "cython"}[q.qstepper])
    if q.kind == "dual":
        return dict(step_function=q.stepper)
    return {}


def step(q, y, yd):
    kw = functions(q) if q.kind != "position" else names(q)
    return q.p.step(y, yd, coupling_term=q.s.coupling_term, **kw)


def open_loop(q, run_t):
    return q.p.open_loop(run_t=run_t, coupling_term=q.s.coupling_term, **names(q))
