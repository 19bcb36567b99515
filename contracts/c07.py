"""C07: target forces reproduce the demonstration.

The forces derived from a demonstration are those for which the
transformation system used during execution (contracts of C03, C04 and C14)
has the demonstrated acceleration."""
from . import spec

FUNCTIONS = ["dmp._dmp.determine_forces", "dmp._cartesian_dmp.determine_forces_quaternion",
             "dmp._dmp_with_final_velocity.determine_forces"]


def demo(g, quat=False, n=None):
    s = spec.Setup()
    s.N = g.dim("n_samples", 3)
    s.n = 3 if quat else (n or g.dim("n", 1))
    s.T = g.times("T", s.N)
    s.Y = g.units("Y", s.N) if quat else g.arr("Y", s.N, s.n)
    s.alpha_y, s.beta_y = g.arr("alpha_y", s.n), g.arr("beta_y", s.n)
    s.alpha_z = g.real("alpha_z", pos=True, sample=(0.5, 6.0))
    s.start_t, s.goal_t = s.T[0], s.T[s.N - 1]
    s.start_y, s.goal_y = s.Y[0], s.Y[s.N - 1]
    return s


def velocity(g, s, k, quat, final):
    """Finite difference at sample k."""
    def diff(a, b):
        if quat:
            d = spec.qdiff(g, s.Y[a], s.Y[b])
        else:
            d = s.Y[a] - s.Y[b]
        return d / (s.T[a] - s.T[b])
    if k == 0:
        return diff(1, 0)
    if k == s.N - 1:
        return diff(s.N - 1, s.N - 2) if final else g.np.zeros(s.n)
    return diff(k + 1, k - 1)


def acceleration(g, s, k, quat, final):
    if k == s.N - 1:
        return g.np.zeros(s.n)
    a, b = (1, 0) if k == 0 else (k + 1, k - 1)
    return (velocity(g, s, a, quat, final) - velocity(g, s, b, quat, final)) / (s.T[a] - s.T[b])


def phase(g, s, k):
    return g.np.exp(-s.alpha_z * (s.T[k] - s.T[0]) / (s.T[s.N - 1] - s.T[0]))


def ends(g, s, got, vel, acc):
    """Boundary values returned along with the forces."""
    names = ("start position", "start velocity", "start acceleration",
             "goal position", "goal velocity", "goal acceleration")
    last = s.N - 1
    want = (s.Y[0], vel(0), acc(0), s.Y[last], vel(last), acc(last))
    for name, a, b in zip(names, got, want):
        g.eq("%s of the demonstration" % name, a, b)


def _check(g, what, fn, quat):
    s = demo(g, quat)
    final = g.flag("allow_final_velocity")
    s.smooth = g.flag("smooth_scaling")
    fr = g.freeze(*([s.T] if quat else [s.T, s.Y]) + [s.alpha_y, s.beta_y])
    Y0 = g.np.array(s.Y)
    k = g.idx("sample", s.N)
    r = fn(s.T, s.Y, s.alpha_y, s.beta_y, s.alpha_z, final, s.smooth)
    F = r[0]
    g.cover(what)
    g.eq("%s: one force per sample and dimension" % what, F.shape, (s.N, s.n))
    yd, ydd = velocity(g, s, k, quat, final), acceleration(g, s, k, quat, final)
    z = phase(g, s, k)
    if quat:
        tau = s.goal_t - s.start_t
        sm = s.beta_y * z * spec.qdiff(g, s.goal_y, s.start_y) if s.smooth else g.np.zeros(3)
        acc = (s.alpha_y * (s.beta_y * spec.qdiff(g, s.goal_y, s.Y[k]) - tau * yd - sm)
               + F[k]) / (tau * tau)
    else:
        acc = spec.pos_acc(g, s, s.Y[k], yd, z, F[k], g.np.zeros(s.n), g.np.zeros(s.n))
    g.eq("%s: forces yield the demonstrated acceleration" % what, acc, ydd)
    ends(g, s, r[1:], lambda i: velocity(g, s, i, quat, final),
         lambda i: acceleration(g, s, i, quat, final))
    g.frame("%s: determining forces leaves its arguments unchanged" % what, fr)
    # pytransform3d renormalises the orientations it is given in place
    g.eq("%s: determining forces leaves the demonstration unchanged" % what, s.Y, Y0)


def check_position(g, M):
    _check(g, "position", M("dmp._dmp").determine_forces, False)


def check_orientation(g, M):
    _check(g, "orientation", M("dmp._cartesian_dmp").determine_forces_quaternion, True)


def check_final_velocity(g, M):
    s = demo(g)
    fr = g.freeze(s.T, s.Y, s.alpha_y, s.beta_y)
    k = g.idx("sample", s.N)
    if not g.sym:
        spec.conditioned(g, s.T[0], s.T[s.N - 1] - s.T[0])

    def vel(i):
        if i == 0:
            return g.np.zeros(s.n)
        return (s.Y[i] - s.Y[i - 1]) / (s.T[i] - s.T[i - 1])

    def acc(i):
        if i == 0:
            return g.np.zeros(s.n)
        return (vel(i) - vel(i - 1)) / (s.T[i] - s.T[i - 1])
    last = s.N - 1
    s.start_yd, s.start_ydd, s.goal_yd, s.goal_ydd = vel(0), acc(0), vel(last), acc(last)
    r = M("dmp._dmp_with_final_velocity").determine_forces(
        s.T, s.Y, s.alpha_y, s.beta_y, s.alpha_z, True)
    F = r[0]
    g.cover("final velocity")
    g.eq("final velocity: one force per sample and dimension", F.shape, (s.N, s.n))
    p, v, a = spec.quintic(g, s, s.T[k])
    tau = s.goal_t - s.start_t
    got = (s.alpha_y * (s.beta_y * (p - s.Y[k]) + tau * (v - vel(k))) + F[k]) / (tau * tau) + a
    g.eq("final velocity: forces yield the demonstrated acceleration", got, acc(k), tol=1e-4)
    ends(g, s, r[1:], vel, acc)
    g.frame("final velocity: determining forces leaves the demonstration unchanged", fr)
