"""C16: pairwise coupling terms."""
from . import spec

_C = "dmp._coupling_terms."
FUNCTIONS = [_C + "CouplingTermPos1DToPos1D.coupling", _C + "CouplingTermPos3DToPos3D.coupling",
             _C + "CouplingTermDualCartesianDistance.coupling",
             _C + "CouplingTermDualCartesianPose.coupling",
             _C + "CouplingTermDualCartesianPose.couple_distance",
             _C + "CouplingTermDualCartesianPose._right2left_pq",
             _C + "CouplingTermDualCartesianTrajectory.imitate",
             _C + "CouplingTermDualCartesianTrajectory.coupling"]
ASSUMPTIONS = [
    "pytransform3d: poses are converted between matrices and position plus quaternion exactly; the "
    "quaternion of a matrix is determined up to its sign",
    "scipy.interpolate.interp1d reproduces the samples at the sample times"]


def _gains(g):
    lf = g.arr("lf", 2)
    if g.flag("leader0"):
        lf = g.np.array([0.0, 1.0])
    return lf, g.real("k", pos=True), g.real("c1", pos=True), g.real("c2", pos=True)


def check_pos1d(g, M):
    lf, k, c1, c2 = _gains(g)
    dd = g.real("desired")
    y, yd = g.arr("y", 2), g.arr("yd", 2)
    c = M("dmp._coupling_terms").CouplingTermPos1DToPos1D(dd, lf, k, c1, c2)
    fr = g.freeze(y, yd, lf, c)
    cd, cdd = c.coupling(y, yd)
    # deviation of the second component from its desired place
    e = y[0] + dd - y[1]
    g.eq("velocity contribution", cd, g.np.array([-c1 * k * lf[0] * e, c1 * k * lf[1] * e]))
    g.eq("acceleration contribution", cdd,
         g.np.array([-c1 * c2 * k * lf[0] * e, c1 * c2 * k * lf[1] * e]))
    g.frame("coupling modifies nothing", fr)


def check_pos3d(g, M):
    lf, k, c1, c2 = _gains(g)
    dd = g.arr("desired", 3)
    y, yd = g.arr("y", 6), g.arr("yd", 6)
    c = M("dmp._coupling_terms").CouplingTermPos3DToPos3D(dd, lf, k, c1, c2)
    fr = g.freeze(y, yd, lf, dd, c)
    cd, cdd = c.coupling(y, yd)
    e = y[:3] + dd - y[3:6]
    g.eq("velocity contribution", cd, g.np.concatenate((-c1 * k * lf[0] * e, c1 * k * lf[1] * e)))
    g.eq("acceleration contribution", cdd,
         g.np.concatenate((-c2 * k * lf[0] * e, c2 * k * lf[1] * e)))
    g.frame("coupling modifies nothing", fr)


def check_distance(g, M):
    lf, k, c1, c2 = _gains(g)
    dd = g.real("desired")
    y, yd = spec.dual_unit(g, "y"), g.arr("yd", 12)
    d = y[7:10] - y[:3]
    n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    g.assume(n2 > 0 if g.sym else n2 > 1e-9)
    c = M("dmp._coupling_terms").CouplingTermDualCartesianDistance(dd, lf, k, c1, c2)
    fr = g.freeze(y, yd, lf, c)
    cd, cdd = c.coupling(y, yd)
    # the second arm lacks this much along the line from the first to the second
    lack = (abs(dd) - g.np.sqrt(n2)) * d / g.np.sqrt(n2)
    z = g.np.zeros(3)
    g.eq("velocity contribution", cd,
         g.np.concatenate((-c1 * k * lf[0] * lack, z, c1 * k * lf[1] * lack, z)))
    g.eq("acceleration contribution", cdd,
         g.np.concatenate((-c2 * k * lf[0] * lack, z, c2 * k * lf[1] * lack, z)))
    g.frame("coupling modifies nothing", fr)


def rotate(g, q, v):
    """Rotate a vector by a unit quaternion."""
    zero = g.np.zeros(1)
    return spec.qmul(g, spec.qmul(g, q, g.np.concatenate((zero, v))), spec.qconj(g, q))[1:]


def pose_coupling(g, y, yd, dp, dq, lf, k, c1, c2, pos, rot):
    """Contribution of a coupling to the pose of the second arm in the frame of the first."""
    (pl, ql), (pr, qr) = spec.arms(y)
    (vl, wl), (vr, wr) = spec.arm_vels(yd)
    inv = spec.qconj(g, ql)
    e = rotate(g, ql, dp - rotate(g, inv, pr - pl))
    r = rotate(g, ql, g.qlog(spec.qmul(g, dq, spec.qconj(g, spec.qmul(g, inv, qr)))))
    damping = 2 * g.np.sqrt(k * c2)
    z = g.np.zeros(3)
    a = 1 if pos else 0
    b = 1 if rot else 0
    cd = g.np.concatenate((-lf[0] * c1 * k * e * a, -lf[0] * c1 * k * r * b,
                           lf[1] * c1 * k * e * a, lf[1] * c1 * k * r * b))
    cdd = g.np.concatenate((
        lf[0] * (-c2 * k * e - damping * vl) * a, lf[0] * (-c2 * k * r - damping * wl) * b,
        lf[1] * (c2 * k * e - damping * vr) * a, lf[1] * (c2 * k * r - damping * wr) * b))
    return cd, cdd


def check_pose(g, M):
    lf, k, c1, c2 = _gains(g)
    pos, rot = g.flag("couple_position"), g.flag("couple_orientation")
    dp, dq = g.arr("desired_position", 3), g.unit("desired_orientation")
    dd = g.pose(dp, dq)
    y, yd = spec.dual_unit(g, "y"), g.arr("yd", 12)
    c = M("dmp._coupling_terms").CouplingTermDualCartesianPose(
        dd, lf, pos, rot, k, c1, c2)
    fr = g.freeze(y, yd, lf, c)
    wd, wdd = pose_coupling(g, y, yd, dp, dq, lf, k, c1, c2, pos, rot)
    cd, cdd = c.coupling(y, yd)
    g.cover("pose coupling")
    g.eq("velocity contribution", cd, wd)
    g.eq("acceleration contribution", cdd, wdd)
    g.frame("coupling modifies nothing", fr)


def check_pose_satisfied(g, M):
    """No contribution at rest in the desired relation, for any factors."""
    lf, k, c1, c2 = _gains(g)
    pos, rot = g.flag("couple_position"), g.flag("couple_orientation")
    pl, ql = g.arr("pl", 3), g.unit("ql")
    dp, dq = g.arr("desired_position", 3), g.unit("desired_orientation")
    y = g.np.concatenate((pl, ql, pl + rotate(g, ql, dp), spec.qmul(g, ql, dq)))
    c = M("dmp._coupling_terms").CouplingTermDualCartesianPose(
        g.pose(dp, dq), lf, pos, rot, k, c1, c2)
    cd, cdd = c.coupling(y, g.np.zeros(12))
    g.eq("no velocity contribution in the desired relation", cd, g.np.zeros(12))
    g.eq("no acceleration contribution in the desired relation", cdd, g.np.zeros(12))


def check_trajectory(g, M):
    """At the sample times the desired relation is that of the demonstration plus the offset."""
    lf, k, c1, c2 = _gains(g)
    pos, rot = g.flag("couple_position"), g.flag("couple_orientation")
    n = g.dim("n", 3)
    dt = g.time("dt", pos=True)
    P0, P1 = g.arr("P0", n, 3), g.arr("P1", n, 3)
    Q0, Q1 = g.units("Q0", n), g.units("Q1", n)
    Y = g.np.concatenate((P0, Q0, P1, Q1), axis=1)
    T = g.np.arange(n) * dt
    y, yd = spec.dual_unit(g, "y"), g.arr("yd", 12)
    shift = g.arr("offset", 3)
    offset = g.np.concatenate((shift, g.np.zeros(4)))
    c = M("dmp._coupling_terms").CouplingTermDualCartesianTrajectory(
        offset, lf, dt, pos, rot, k, c1, c2, verbose=0)
    fr = g.freeze(Y, T, y, yd, lf, offset)
    c.imitate(T, Y)
    for j in (0, 1):
        dp = rotate(g, spec.qconj(g, Q0[j]), P1[j] - P0[j]) + shift
        dq = spec.qmul(g, spec.qconj(g, Q0[j]), Q1[j])
        wd, wdd = pose_coupling(g, y, yd, dp, dq, lf, k, c1, c2, pos, rot)
        cd, cdd = c.coupling(y, yd)
        g.cover("trajectory coupling")
        g.eq("velocity contribution at sample time", cd, wd)
        g.eq("acceleration contribution at sample time", cdd, wdd)
    g.frame("coupling modifies nothing", fr)
