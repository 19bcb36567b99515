"""Specification functions shared by the contracts.

They are written from the documented equations, use the arithmetic of the
mode they are evaluated in (symbolic or numpy) and never call the code under
verification.
"""


class Setup:
    """Arguments of a DMP step function."""


def pos_setup(g, gains="vector", coupling=True, both=False):
    """Arbitrary arguments of a position DMP step."""
    s = Setup()
    s.n = n = g.dim("n", 1)
    s.start_t = g.time("start_t")
    s.duration = g.time("duration", pos=True)
    s.goal_t = s.start_t + s.duration
    s.elapsed = g.time("elapsed", nonneg=True)
    s.dt = g.time("dt", pos=True)
    s.last_t = s.start_t + s.elapsed
    s.t = s.last_t + s.dt
    s.int_dt = g.time("int_dt", pos=True)
    s.y, s.yd = g.arr("y", n), g.arr("yd", n)
    s.goal_y, s.goal_yd, s.goal_ydd = g.arr("goal_y", n), g.arr("goal_yd", n), g.arr("goal_ydd", n)
    s.start_y, s.start_yd, s.start_ydd = g.arr("start_y", n), g.arr("start_yd", n), g.arr("start_ydd", n)
    s.alpha_y, s.beta_y = g.arr("alpha_y", n), g.arr("beta_y", n)
    s.forcing = g.forcing("F", n)
    s.p_gain = g.real("p_gain")
    s.te = g.arr("tracking_error", n)
    s.smooth = g.flag("smooth_scaling")
    draw_coupling(g, s, n, n, coupling, both)
    return s


def draw_coupling(g, s, ny, n, coupling=True, both=False):
    """No coupling, a coupling term, precomputed coupling or both."""
    k = g.choice("coupling", 4 if both else 3) if coupling else 0
    s.coupling_term = g.coupling("C", ny, n) if k in (1, 3) else None
    s.precomputed = (g.arr("cd", n), g.arr("cdd", n)) if k >= 2 else None
    s.add_coupling = False


def pos_call(step, s, y, yd):
    return step(
        s.last_t, s.t, y, yd, s.goal_y, s.goal_yd, s.goal_ydd, s.start_y,
        s.start_yd, s.start_ydd, s.goal_t, s.start_t, s.alpha_y, s.beta_y,
        s.forcing, coupling_term=s.coupling_term,
        coupling_term_precomputed=s.precomputed, int_dt=s.int_dt,
        p_gain=s.p_gain, tracking_error=s.te, smooth_scaling=s.smooth)


def pos_frozen(g, s):
    objs = [s.goal_y, s.goal_yd, s.goal_ydd, s.start_y, s.start_yd, s.start_ydd,
            s.alpha_y, s.beta_y, s.te]
    if s.precomputed:
        objs += list(s.precomputed)
    return g.freeze(*objs)


def coupling_at(g, s, y, yd, n):
    """Coupling velocity and acceleration at a state."""
    if s.coupling_term is not None:
        cd, cdd = s.coupling_term.coupling(y, yd)
        if s.precomputed is not None and s.add_coupling:
            return cd + s.precomputed[0], cdd + s.precomputed[1]
        return cd, cdd
    if s.precomputed is not None:
        return s.precomputed
    return g.np.zeros(n), g.np.zeros(n)


def smoothing(g, s, z):
    if s.smooth:
        return s.beta_y * (s.goal_y - s.start_y) * z
    return g.np.zeros(s.n)


def column(g, F, n, k):
    """k-th column of forcing values as a vector."""
    return F[:, k]


def pos_acc(g, s, y, yd, z, f, cdd, tdd):
    """Acceleration of the transformation system."""
    tau = s.goal_t - s.start_t
    return (s.alpha_y * (s.beta_y * (s.goal_y - y) - tau * yd - smoothing(g, s, z))
            + f + cdd + tdd) / (tau * tau)


def substep(g, s, tc):
    """Length of the next integration substep."""
    return g.ite(s.t - tc < s.int_dt, s.t - tc, s.int_dt)


def euler_ghost(g, s, y0, yd0):
    """Semi-implicit Euler integration of the transformation system."""
    tau = s.goal_t - s.start_t

    def step(st):
        dt = substep(g, s, st["t"])
        tc = st["t"] + dt
        y, yd = st["y"], st["yd"]
        cd, cdd = coupling_at(g, s, y, yd, s.n)
        z = s.forcing.phase(tc)
        f = s.forcing.forcing_term(z)[:, 0]
        ydd = pos_acc(g, s, y, yd, z, f, cdd, s.p_gain * s.te / dt)
        yd2 = yd + dt * ydd + cd / tau
        return {"t": tc, "y": y + dt * yd2, "yd": yd2}
    return g.ghost(
        "euler", init={"t": s.last_t, "y": y0, "yd": yd0},
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


def rk4(g, s, y, yd):
    """One step of the fourth-order Runge-Kutta scheme of the library."""
    tau = s.goal_t - s.start_t
    dt = s.t - s.last_t
    h = dt / 2
    ts = [s.t, s.t + h, s.t + dt]
    zs = [s.forcing.phase(x) for x in ts]
    fs = [s.forcing.forcing_term(z)[:, 0] for z in zs]
    tdd = s.p_gain * s.te / dt

    def acc(yy, vv, k):
        _, cdd = coupling_at(g, s, yy, vv, s.n)
        return pos_acc(g, s, yy, vv, zs[k], fs[k], cdd, tdd)
    k0 = acc(y, yd, 0)
    v1 = yd + h * k0
    k1 = acc(y + h * yd, v1, 1)
    v2 = yd + h * k1
    k2 = acc(y + h * v1, v2, 1)
    v3 = yd + dt * k2
    k3 = acc(y + dt * v2, v3, 2)
    y2 = y + dt / 6 * (yd + 2 * v1 + 2 * v2 + v3)
    yd2 = yd + dt / 6 * (k0 + 2 * k1 + 2 * k2 + k3)
    if s.coupling_term is not None:
        cd, _ = s.coupling_term.coupling(y2, yd2)
        yd2 = yd2 + cd / tau
    return y2, yd2


# ------------------------------------------------------------ orientations
def qmul(g, a, b):
    """Hamilton product."""
    return g.np.array([
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]])


def qconj(g, a):
    return g.np.array([a[0], -a[1], -a[2], -a[3]])


def qdiff(g, a, b):
    """Rotation vector of the rotation from b to a."""
    return g.qlog(qmul(g, a, qconj(g, b)))


def quat_setup(g, both=False):
    """Arbitrary arguments of an orientation step."""
    s = Setup()
    s.n = 3
    s.start_t = g.time("start_t")
    s.duration = g.time("duration", pos=True)
    s.goal_t = s.start_t + s.duration
    s.elapsed = g.time("elapsed", nonneg=True)
    s.dt = g.time("dt", pos=True)
    s.last_t = s.start_t + s.elapsed
    s.t = s.last_t + s.dt
    s.int_dt = g.time("int_dt", pos=True)
    s.y, s.yd = g.unit("y"), g.arr("yd", 3)
    s.goal_y, s.goal_yd, s.goal_ydd = g.unit("goal_y"), g.arr("goal_yd", 3), g.arr("goal_ydd", 3)
    s.start_y, s.start_yd, s.start_ydd = g.unit("start_y"), g.arr("start_yd", 3), g.arr("start_ydd", 3)
    s.alpha_y, s.beta_y = g.arr("alpha_y", 3), g.arr("beta_y", 3)
    s.forcing = g.forcing("F", 3)
    s.smooth = g.flag("smooth_scaling")
    draw_coupling(g, s, 4, 3, both=both)
    return s


def quat_call(step, s, y, yd):
    return step(
        s.last_t, s.t, y, yd, s.goal_y, s.goal_yd, s.goal_ydd, s.start_y,
        s.start_yd, s.start_ydd, s.goal_t, s.start_t, s.alpha_y, s.beta_y,
        s.forcing, coupling_term=s.coupling_term,
        coupling_term_precomputed=s.precomputed, int_dt=s.int_dt,
        smooth_scaling=s.smooth)


def quat_frozen(g, s):
    objs = [s.goal_y, s.goal_yd, s.goal_ydd, s.start_y, s.start_yd, s.start_ydd,
            s.alpha_y, s.beta_y]
    if s.precomputed:
        objs += list(s.precomputed)
    return g.freeze(*objs)


def quat_ghost(g, s, y0, yd0):
    """Quaternion transformation system, semi-implicit Euler."""
    tau = s.goal_t - s.start_t

    def step(st):
        dt = substep(g, s, st["t"])
        tc = st["t"] + dt
        y, yd = st["y"], st["yd"]
        cd, cdd = coupling_at(g, s, y, yd, 3)
        z = s.forcing.phase(tc)
        f = s.forcing.forcing_term(z)[:, 0]
        sm = s.beta_y * z * qdiff(g, s.goal_y, s.start_y) if s.smooth else g.np.zeros(3)
        ydd = (s.alpha_y * (s.beta_y * qdiff(g, s.goal_y, y) - tau * yd - sm)
               + f + cdd) / (tau * tau)
        yd2 = yd + dt * ydd + cd / tau
        return {"t": tc, "y": qmul(g, g.qexp(dt * yd2), y), "yd": yd2}
    return g.ghost(
        "quat", init={"t": s.last_t, "y": y0, "yd": yd0}, quats=("y",),
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


# ---------------------------------------------------------------- dual arm
PPS = [0, 1, 2, 7, 8, 9]
PVS = [0, 1, 2, 6, 7, 8]


def dual_unit(g, name):
    """Arbitrary poses of two arms: positions and unit quaternions."""
    pl, pr_ = g.arr(name + ".p0", 3), g.arr(name + ".p1", 3)
    ql, qr = g.unit(name + ".q0"), g.unit(name + ".q1")
    return g.np.concatenate((pl, ql, pr_, qr))


def dual_setup(g):
    s = Setup()
    s.n = 12
    s.start_t = g.time("start_t")
    s.duration = g.time("duration", pos=True)
    s.goal_t = s.start_t + s.duration
    s.elapsed = g.time("elapsed", nonneg=True)
    s.dt = g.time("dt", pos=True)
    s.last_t = s.start_t + s.elapsed
    s.t = s.last_t + s.dt
    s.int_dt = g.time("int_dt", pos=True)
    s.y, s.yd = dual_unit(g, "y"), g.arr("yd", 12)
    s.goal_y, s.goal_yd, s.goal_ydd = dual_unit(g, "goal_y"), g.arr("goal_yd", 12), g.arr("goal_ydd", 12)
    s.start_y, s.start_yd, s.start_ydd = dual_unit(g, "start_y"), g.arr("start_yd", 12), g.arr("start_ydd", 12)
    s.alpha_y, s.beta_y = g.arr("alpha_y", 12), g.arr("beta_y", 12)
    s.forcing = g.forcing("F", 12)
    s.smooth = g.flag("smooth_scaling")
    s.p_gain = g.real("p_gain")
    s.te = dual_unit(g, "tracking_error") if g.flag("with_tracking_error") else None
    s.coupling_term = g.coupling("C", 14, 12) if g.flag("with_coupling") else None
    s.precomputed = None
    return s


def dual_call(step, s, y, yd):
    return step(
        s.last_t, s.t, y, yd, s.goal_y, s.goal_yd, s.goal_ydd, s.start_y,
        s.start_yd, s.start_ydd, s.goal_t, s.start_t, s.alpha_y, s.beta_y,
        s.forcing, s.coupling_term, s.int_dt, s.p_gain, s.te, s.smooth)


def dual_frozen(g, s):
    objs = [s.goal_y, s.goal_yd, s.goal_ydd, s.start_y, s.start_yd, s.start_ydd,
            s.alpha_y, s.beta_y]
    if s.te is not None:
        objs.append(s.te)
    return g.freeze(*objs)


def arms(y):
    return ((y[0:3], y[3:7]), (y[7:10], y[10:14]))


def arm_vels(v):
    return ((v[0:3], v[3:6]), (v[6:9], v[9:12]))


def dual_ghost(g, s, y0, yd0):
    """Two single-arm transformation systems side by side."""
    tau = s.goal_t - s.start_t
    zero = g.np.zeros(3)

    def step(st):
        dt = substep(g, s, st["t"])
        tc = st["t"] + dt
        y = g.np.concatenate((st["p0"], st["q0"], st["p1"], st["q1"]))
        yd = st["yd"]
        cd, cdd = coupling_at(g, s, y, yd, 12)
        z = s.forcing.phase(tc)
        f = s.forcing.forcing_term(z)[:, 0]
        out = {"t": tc}
        vel = []
        for k in (0, 1):
            p, q = st["p%d" % k], st["q%d" % k]
            gp, gq = arms(s.goal_y)[k]
            sp, sq = arms(s.start_y)[k]
            (ap, aq), (bp, bq) = arm_vels(s.alpha_y)[k], arm_vels(s.beta_y)[k]
            (vp, vq), (fp, fq) = arm_vels(yd)[k], arm_vels(f)[k]
            (cp, cq), (hp, hq) = arm_vels(cd)[k], arm_vels(cdd)[k]
            tp = tq = zero
            if s.te is not None:
                ep, eq = arms(s.te)[k]
                tp, tq = s.p_gain * ep / dt, s.p_gain * g.qlog(eq) / dt
            mp = bp * (gp - sp) * z if s.smooth else zero
            mq = bq * z * qdiff(g, gq, sq) if s.smooth else zero
            dp = (ap * (bp * (gp - p) - tau * vp - mp) + fp + hp + tp) / (tau * tau)
            dq = (aq * (bq * qdiff(g, gq, q) - tau * vq - mq) + fq + hq + tq) / (tau * tau)
            vp2 = vp + dt * dp + cp / tau
            vq2 = vq + dt * dq + cq / tau
            out["p%d" % k] = p + dt * vp2
            out["q%d" % k] = qmul(g, g.qexp(dt * vq2), q)
            vel += [vp2, vq2]
        out["yd"] = g.np.concatenate(vel)
        return out
    a, b = arms(y0)
    return g.ghost(
        "dual", init={"t": s.last_t, "p0": a[0], "q0": a[1], "p1": b[0], "q1": b[1], "yd": yd0},
        quats=("q0", "q1"), guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


def dual_state(g, st):
    return g.np.concatenate((st["p0"], st["q0"], st["p1"], st["q1"]))


def stub_quaternions(g, M):
    """Use the contracts of the compiled quaternion exponential and logarithm."""
    g.stub(M("dmp_fast"), "compact_axis_angle_from_quaternion", g.qlog)
    g.stub(M("dmp_fast"), "quaternion_from_compact_axis_angle", g.qexp)


# ---------------------------------------------------------- final velocity
def quintic(g, s, tc):
    """Moving target: quintic through the boundary conditions, goal at rest
    after the end.  Returns position, velocity and acceleration."""
    if g.sym:
        def rows(t):
            return [[1, t, t ** 2, t ** 3, t ** 4, t ** 5],
                    [0, 1, 2 * t, 3 * t ** 2, 4 * t ** 3, 5 * t ** 4],
                    [0, 0, 2, 6 * t, 12 * t ** 2, 20 * t ** 3]]
        b = g.np.linalg.solve(
            g.np.array(rows(s.start_t) + rows(s.goal_t)),
            g.np.vstack((s.start_y, s.start_yd, s.start_ydd, s.goal_y, s.goal_yd, s.goal_ydd)))
        return [sum((b[k] * r[k] for k in range(1, 6)), b[0] * r[0]) for r in rows(tc)]
    return closed_quintic(s, tc)


def closed_quintic(s, tc):
    """The quintic in closed form, over the unit interval."""
    h = s.goal_t - s.start_t
    x = (tc - s.start_t) / h
    d = s.goal_y - s.start_y
    v0, v1, a0, a1 = h * s.start_yd, h * s.goal_yd, h * h * s.start_ydd, h * h * s.goal_ydd
    c = [s.start_y, v0, a0 / 2,
         10 * d - 6 * v0 - 4 * v1 - 1.5 * a0 + 0.5 * a1,
         -15 * d + 8 * v0 + 7 * v1 + 1.5 * a0 - a1,
         6 * d - 3 * v0 - 3 * v1 - 0.5 * a0 + 0.5 * a1]
    return [sum(c[k] * x ** k for k in range(6)),
            sum(k * c[k] * x ** (k - 1) for k in range(1, 6)) / h,
            sum(k * (k - 1) * c[k] * x ** (k - 2) for k in range(2, 6)) / (h * h)]


def conditioned(g, t0, h):
    """Concrete runs leave out ill-conditioned systems of equations: intervals
    short compared to their distance from time zero."""
    if not g.sym and abs(t0) > 2 * h:
        g.skip()


# Whether times this close after the end count as before or after the end is
# left open.
END = 1e-9


def moving_target(g, s, tc):
    pos, vel, acc = quintic(g, s, tc)
    after = tc > s.goal_t
    zero = g.np.zeros(s.n)
    return g.where(after, s.goal_y, pos), g.where(after, zero, vel), g.where(after, zero, acc)


def constrained_ghost(g, s, y0, yd0):
    """Transformation system around the moving target."""
    tau = s.goal_t - s.start_t

    def step(st):
        dt = substep(g, s, st["t"])
        tc = st["t"] + dt
        if g.sym:
            g.assume((tc <= s.goal_t) | (tc > s.goal_t + END))
        y, yd = st["y"], st["yd"]
        cd, cdd = coupling_at(g, s, y, yd, s.n)
        f = s.forcing.forcing_term(s.forcing.phase(tc))[:, 0]
        p, v, a = moving_target(g, s, tc)
        ydd = (s.alpha_y * (s.beta_y * (p - y) + tau * (v - yd)) + f + cdd
               + s.p_gain * s.te / dt) / (tau * tau) + a
        yd2 = yd + dt * ydd + cd / tau
        return {"t": tc, "y": y + dt * yd2, "yd": yd2}
    return g.ghost(
        "final velocity", init={"t": s.last_t, "y": y0, "yd": yd0},
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)
