"""C08: imitation solves the regularised regression and adopts the endpoints.

The target forces are those of C07, the features those of C02."""
from . import spec
from .c07 import demo

FUNCTIONS = ["dmp._dmp.DMP.imitate", "dmp._cartesian_dmp.CartesianDMP.imitate",
             "dmp._dual_cartesian_dmp.DualCartesianDMP.imitate",
             "dmp._dmp_with_final_velocity.DMPWithFinalVelocity.imitate",
             "dmp._dmp.dmp_imitate", "dmp._dmp.ridge_regression",
             "dmp._cartesian_dmp.dmp_quaternion_imitation",
             "dmp._forcing_term.ForcingTerm.design_matrix"]
ASSUMPTIONS = ["the regularised normal matrix is nonsingular (always so for a positive "
               "coefficient); its pseudo-inverse is then the inverse"]


def primitive(g, M, kind, n):
    tau = g.time("execution_time", pos=True)
    s = spec.Setup()
    s.m = m = g.dim("n_weights_per_dim", 2)
    kw = dict(execution_time=tau, n_weights_per_dim=m)
    if kind != "final velocity":
        s.smooth = g.flag("smooth_scaling")
        kw["smooth_scaling"] = s.smooth
    if kind == "position":
        p = M("dmp._dmp").DMP(n, **kw)
        parts = [("forcing_term", 0, n, 0, False)]
    elif kind == "final velocity":
        p = M("dmp._dmp_with_final_velocity").DMPWithFinalVelocity(n, **kw)
        parts = [("forcing_term", 0, n, 0, False)]
    elif kind == "cartesian":
        p = M("dmp._cartesian_dmp").CartesianDMP(**kw)
        parts = [("forcing_term_pos", 0, 3, 0, False), ("forcing_term_rot", 0, 3, 3, True)]
    else:
        p = M("dmp._dual_cartesian_dmp").DualCartesianDMP(**kw)
        parts = [("forcing_term", 0, 3, 0, False), ("forcing_term", 3, 3, 3, True),
                 ("forcing_term", 6, 3, 7, False), ("forcing_term", 9, 3, 10, True)]
    nv = {"cartesian": 6, "dual": 12}.get(kind, n)
    p.alpha_y, p.beta_y = g.arr("alpha_y", nv), g.arr("beta_y", nv)
    s.p, s.parts = p, parts
    return s


def phases(g, T, alpha_z, last):
    return g.np.exp(-alpha_z * (T - T[0]) / (T[last] - T[0]))


def features(g, T, last, ft, m):
    """Features of C02 of all samples, one row per basis function."""
    z = phases(g, T, ft.alpha_z, last)
    c = g.np.exp(-ft.alpha_z * g.np.arange(m) / (m - 1))
    d = g.np.exp(-ft.alpha_z * (g.np.arange(m - 1) + 1) / (m - 1)) - g.np.exp(
        -ft.alpha_z * g.np.arange(m - 1) / (m - 1))
    h = -g.np.log(ft.overlap) / d ** 2
    h = g.np.concatenate((h, h[m - 2:m - 1]))
    b = g.np.exp(-h[:, g.np.newaxis] * (z[g.np.newaxis, :] - c[:, g.np.newaxis]) ** 2)
    return z[g.np.newaxis, :] * (b / g.np.sum(b, axis=0))


def forces(g, s, Y, quat, final, alpha_y, beta_y, alpha_z, smooth):
    """Target forces of C07 for all samples."""
    np, T, last = g.np, s.T, s.N - 1
    tau = T[last] - T[0]
    dt = np.gradient(T)[:, np.newaxis]
    yd = gradient(g, s, Y, quat) / dt
    if not final:
        yd[last] = 0.0
    ydd = np.gradient(yd, axis=0) / dt
    ydd[last] = 0.0
    if quat:
        rest = g.stack(s.N, lambda k: spec.qdiff(g, Y[last], Y[k]), 3)
        whole = spec.qdiff(g, Y[last], Y[0])
    else:
        rest, whole = Y[last] - Y, Y[last] - Y[0]
    F = tau * tau * ydd - alpha_y * (beta_y * rest - tau * yd)
    if smooth:
        F = F + alpha_y * beta_y * whole * phases(g, T, alpha_z, last)[:, np.newaxis]
    return F


def gradient(g, s, Y, quat):
    if not quat:
        return g.np.gradient(Y, axis=0)
    last = s.N - 1

    return g.stack(s.N, lambda k: spec.qdiff(g, Y[k + 1], Y[k - 1]) / 2.0, 3,
                   [(0, lambda: spec.qdiff(g, Y[1], Y[0])),
                    (last, lambda: spec.qdiff(g, Y[last], Y[last - 1]))])


def final_forces(g, s, Y, alpha_y, beta_y):
    np, T, last = g.np, s.T, s.N - 1
    tau = T[last] - T[0]
    n = Y.shape[1]

    def back(A):
        first = np.zeros((1, n))
        return np.concatenate((first, (A[1:] - A[:last]) / (T[1:] - T[:last])[:, np.newaxis]))
    yd = back(Y)
    ydd = back(yd)
    e = spec.Setup()
    e.n, e.start_t, e.goal_t = n, T[0], T[last]
    e.start_y, e.start_yd, e.start_ydd = Y[0], yd[0], ydd[0]
    e.goal_y, e.goal_yd, e.goal_ydd = Y[last], yd[last], ydd[last]

    def target(k):
        p, v, a = spec.quintic(g, e, T[k])
        return (tau * tau * (ydd[k] - a)
                - alpha_y * (beta_y * (p - Y[k]) + tau * (v - yd[k])))
    return g.stack(s.N, target, n), e


def compare(g, what, W, X, F, lam, m):
    """Weights (one row per dimension) satisfy the normal equations."""
    A = X.dot(X.T) + lam * g.np.eye(m)
    r = A.dot(W.T) - X.dot(F)
    scale = abs(A).dot(abs(W.T)) + abs(X).dot(abs(F))
    g.le(what, abs(r).max(), 1e-6 * (1e-3 + scale.max()))


def check_regression(g, M):
    m, N, n = g.dim("n_features", 2), g.dim("n_samples", 1), g.dim("n", 1)
    X, F = g.arr("X", m, N), g.arr("F", N, n)
    lam = g.real("regularization_coefficient", nonneg=True, sample=(1e-3, 10.0))
    fr = g.freeze(X, F)
    W = M("dmp._dmp").ridge_regression(X, F, lam)
    g.cover("regression")
    g.eq("one weight per dimension and feature", W.shape, (n, m))
    if g.sym:
        d, i = g.idx("d", n), g.idx("i", m)
        B = g.np.linalg.inv(X.dot(X.T) + lam * g.np.eye(m)).dot(X)
        g.eq("weights solve the regularised regression", W[d, i], g.np.sum(B[i] * F[:, d]))
    else:
        compare(g, "weights solve the regularised regression", W, X, F, lam, m)
    g.frame("regression leaves its arguments unchanged", fr)


def arguments(g, quat):
    s = demo(g, quat)
    s.m = g.dim("n_weights_per_dim", 2)
    s.lam = g.real("regularization_coefficient", sample=(-1.0, 5.0))
    s.overlap = g.real("overlap", pos=True, sample=(0.05, 0.95))
    g.assume(s.overlap < 1)
    s.smooth = g.flag("smooth_scaling")
    s.final = g.flag("allow_final_velocity")
    s.ft = s
    return s


def _fit(g, M, quat):
    s = arguments(g, quat)
    cm, dm = M("dmp._cartesian_dmp"), M("dmp._dmp")
    mod = cm if quat else dm
    forces_name = "determine_forces_quaternion" if quat else "determine_forces"
    what = "orientation" if quat else "position"
    if g.sym:
        D = g.abstract("features", (s.m, s.N))
        R = g.abstract("regression", (s.n, s.m))
        ends = [("start position", None), ("start velocity", s.n), ("start acceleration", s.n),
                ("goal position", None), ("goal velocity", s.n), ("goal acceleration", s.n)]
        flags = lambda b: 1 if b else 0

        def target(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity, smooth_scaling=False):
            a = (T, Y, alpha_y, beta_y, alpha_z, flags(allow_final_velocity), flags(smooth_scaling))
            last = s.N - 1
            out = [g.abstract("forces", (s.N, s.n))(*a)]
            for k, (name, w) in enumerate(ends):
                out.append(Y[0 if k < 3 else last] if w is None
                           else g.abstract("forces: " + name, (s.n,))(*a))
            return tuple(out)
        g.stub(mod, forces_name, target)
        g.stub(mod, "ridge_regression", lambda X, Y, c: R(X, Y, c))
        g.stub(dm.ForcingTerm, "design_matrix", lambda ft, T: D(
            T, ft.alpha_z, ft.overlap, ft.start_t, ft.goal_t))
    fn = cm.dmp_quaternion_imitation if quat else dm.dmp_imitate
    call = lambda: fn(s.T, s.Y, s.m, s.lam, s.alpha_y, s.beta_y, s.overlap, s.alpha_z,
                      s.final, smooth_scaling=s.smooth)
    if s.lam < 0:
        g.cover("%s: negative coefficient" % what)
        g.raises("%s: negative coefficient is rejected" % what, ValueError, call)
        return
    r = call()
    g.cover("%s: fit" % what)
    if g.sym:
        want = target(s.T, s.Y, s.alpha_y, s.beta_y, s.alpha_z, s.final, s.smooth)
        X = D(s.T, s.alpha_z, s.overlap, s.T[0], s.T[s.N - 1])
        W = R(X, want[0], s.lam)
        g.eq("%s: weights of the regression of forces on features" % what, r[0], W)
        for (name, _), a, b in zip(ends, r[1:], want[1:]):
            g.eq("%s: %s of the demonstration" % (what, name), a, b)
    else:
        F = forces(g, s, s.Y, quat, s.final, s.alpha_y, s.beta_y, s.alpha_z, s.smooth)
        if not g.np.all(g.np.isfinite(F)):
            g.skip()
        X = features(g, s.T, s.N - 1, s, s.m)
        compare(g, "%s: weights of the regression of forces on features" % what, r[0], X, F,
                s.lam, s.m)
        want = getattr(mod, forces_name)(s.T, s.Y, s.alpha_y, s.beta_y, s.alpha_z, s.final,
                                         s.smooth)
        g.eq("%s: ends of the demonstration" % what, tuple(r[1:]), tuple(want[1:]))


def check_fit_position(g, M):
    _fit(g, M, False)


def check_fit_orientation(g, M):
    _fit(g, M, True)


def _imitate(g, M, kind):
    n = {"cartesian": 6, "dual": 12}.get(kind) or g.dim("n", 1)
    s = primitive(g, M, kind, n)
    s.N = g.dim("n_samples", 3)
    s.T = T = g.times("T", s.N)
    if kind in ("position", "final velocity"):
        Y = g.arr("Y", s.N, n)
    elif kind == "cartesian":
        Y = g.np.hstack((g.arr("P", s.N, 3), g.units("Q", s.N)))
    else:
        Y = g.np.hstack((g.arr("P1", s.N, 3), g.units("Q1", s.N),
                         g.arr("P2", s.N, 3), g.units("Q2", s.N)))
    p = s.p
    if not g.sym and kind == "final velocity":
        spec.conditioned(g, T[0], T[s.N - 1] - T[0])
    if g.flag("defaults"):
        lam, final, kw = 0.0, kind == "final velocity", {}
    else:
        lam = g.real("regularization_coefficient", sample=(-1.0, 5.0))
        kw = dict(regularization_coefficient=lam)
        final = True
        if kind != "final velocity":
            final = g.flag("allow_final_velocity")
            kw["allow_final_velocity"] = final
    if g.sym:
        results = {}

        def fit(what, T, Y, n_weights_per_dim, regularization_coefficient, alpha_y, beta_y,
                overlap, alpha_z, allow_final_velocity, determine_forces=None,
                smooth_scaling=False):
            if regularization_coefficient < 0:
                raise ValueError("Regularization coefficient must be >= 0!")
            w = alpha_y.shape[0]
            a = (T, Y, regularization_coefficient, alpha_y, beta_y, overlap, alpha_z,
                 1 if allow_final_velocity else 0, 1 if smooth_scaling else 0)
            what = "%s %s" % (what, "default" if determine_forces is None else "given")
            out = [g.abstract("fit " + what, (w, n_weights_per_dim))(*a), Y[0]]
            for k in (1, 2, 4, 5):
                out.append(g.abstract("fit %s %d" % (what, k), (w,))(*a))
            out.insert(4, Y[s.N - 1])
            return tuple(out)

        def position(*a, **k):
            return fit("position", *a, **k)

        def orientation(*a, **k):
            return fit("orientation", *a, **k)
        for m in ("dmp._dmp", "dmp._cartesian_dmp", "dmp._dual_cartesian_dmp",
                  "dmp._dmp_with_final_velocity"):
            g.stub(M(m), "dmp_imitate", position)
            g.stub(M(m), "dmp_quaternion_imitation", orientation)
    Y0, T0 = g.np.array(Y), g.np.array(T)
    if lam < 0:
        g.cover("%s: negative coefficient" % kind)
        g.raises("%s: negative coefficient is rejected" % kind, ValueError,
                 lambda: p.imitate(T, Y, **kw))
        return
    if not g.sym and g.flag("trained before"):
        # earlier demonstration of other samples, at other times
        p.imitate(T0 * T0 if g.flag("other times") and T0[0] >= 0.0 else T0, Y0[::-1] * 1.0, **kw)
    with g.pure(p, *{id(f): f for f in (getattr(p, x[0]) for x in s.parts)}.values(),
                allow=("start_y", "goal_y", "start_yd", "goal_yd", "start_ydd", "goal_ydd",
                       "weights_")):
        p.imitate(T, Y, **kw)
    g.cover(kind)
    g.eq("%s: times of the demonstration unchanged" % kind, T, T0)
    g.eq("%s: samples of the demonstration unchanged" % kind, Y, Y0)
    last = s.N - 1
    g.eq("%s: start is the first sample" % kind, p.start_y, Y0[0], 1e-12)
    g.eq("%s: goal is the last sample" % kind, p.goal_y, Y0[last], 1e-12)
    for name, first, count, col, quat in s.parts:
        ft = getattr(p, name)
        W = ft.weights_[first:first + count]
        g0 = {3: 3, 7: 6, 10: 9}.get(col, 0)
        a, b = p.alpha_y[g0:g0 + count], p.beta_y[g0:g0 + count]
        y = Y0[:, col:col + (4 if quat else count)]
        what = "%s: weights of columns from %d solve the regularised regression" % (kind, col)
        if g.sym:
            kw = {}
            if kind == "final velocity":
                kw["determine_forces"] = M("dmp._dmp_with_final_velocity").determine_forces
            else:
                kw["smooth_scaling"] = s.smooth
            want = (orientation if quat else position)(
                T0, y, s.m, lam, a, b, ft.overlap, ft.alpha_z, final, **kw)
            g.eq(what, W, want[0])
            if kind == "final velocity":
                ends = want[2], want[3], want[5], want[6]
            continue
        X = features(g, T0, last, ft, s.m)
        if kind == "final velocity":
            F, e = final_forces(g, s, y, a, b)
            ends = e.start_yd, e.start_ydd, e.goal_yd, e.goal_ydd
        else:
            F = forces(g, s, y, quat, final, a, b, ft.alpha_z, s.smooth)
        compare(g, what, W, X, F, lam, s.m)
    if kind == "final velocity":
        for k, v in zip(("start_yd", "start_ydd", "goal_yd", "goal_ydd"), ends):
            g.eq("%s: %s of the demonstration" % (kind, k), getattr(p, k), v)


def check_position(g, M):
    _imitate(g, M, "position")


def check_cartesian(g, M):
    _imitate(g, M, "cartesian")


def check_dual(g, M):
    _imitate(g, M, "dual")


def check_final_velocity(g, M):
    _imitate(g, M, "final velocity")


def _shift(g, M, kind):
    """Forces and features depend on the times through differences only."""
    quat = kind == "orientation"
    s = demo(g, quat)
    c = g.time("shift")
    T2 = s.T + c
    s.smooth = g.flag("smooth_scaling")
    final = True if kind == "final velocity" else g.flag("allow_final_velocity")
    mod = {"position": "dmp._dmp", "orientation": "dmp._cartesian_dmp",
           "final velocity": "dmp._dmp_with_final_velocity"}[kind]
    fn = getattr(M(mod), "determine_forces_quaternion" if quat else "determine_forces")
    k = g.idx("sample", s.N)
    if not g.sym and kind == "final velocity":
        spec.conditioned(g, s.T[0], s.T[s.N - 1] - s.T[0])
        spec.conditioned(g, T2[0], T2[s.N - 1] - T2[0])
    args = s.alpha_y, s.beta_y, s.alpha_z, final, s.smooth
    if kind == "final velocity":
        # closed form of the target, C14
        def solve(t0, t1, *ends):
            e = spec.Setup()
            e.start_t, e.goal_t = t0, t1
            e.start_y, e.start_yd, e.start_ydd, e.goal_y, e.goal_yd, e.goal_ydd = (
                g.np.copy(x) for x in ends)
            return e

        def target(t, goal_y, goal_t, e):
            g.true("the target is evaluated between the ends", t <= e.goal_t)
            return spec.closed_quintic(e, t)
        g.stub(M(mod), "solve_constraints", solve)
        g.stub(M(mod), "apply_constraints", target)
    a, b = fn(s.T, g.np.array(s.Y), *args), fn(T2, g.np.array(s.Y), *args)
    g.cover("%s: shifted demonstration" % kind)
    g.eq("%s: forces do not depend on the time offset" % kind, a[0][k], b[0][k],
         tol=1e-4 if kind == "final velocity" else None)
    for x, y in zip(a[1:], b[1:]):
        g.eq("%s: end values do not depend on the time offset" % kind, x, y)


def check_shift_position(g, M):
    _shift(g, M, "position")


def check_shift_orientation(g, M):
    _shift(g, M, "orientation")


def check_shift_final_velocity(g, M):
    _shift(g, M, "final velocity")


def check_shift_features(g, M):
    N, m = g.dim("n_samples", 3), g.dim("n_weights_per_dim", 2)
    T = g.times("T", N)
    c = g.time("shift")
    overlap = g.real("overlap", pos=True, sample=(0.05, 0.95))
    g.assume(overlap < 1)
    alpha = g.real("alpha_z", pos=True, sample=(0.5, 6.0))
    F = M("dmp._forcing_term").ForcingTerm
    T2 = T + c
    f1, f2 = F(1, m, T[N - 1], T[0], overlap, alpha), F(1, m, T2[N - 1], T2[0], overlap, alpha)
    g.cover("shifted features")
    i = g.idx("basis", m)
    g.eq("basis functions do not depend on the time offset", f1.centers[i], f2.centers[i])
    g.eq("widths do not depend on the time offset", f1.widths[i], f2.widths[i])
    if g.sym:
        h, d = g.arr("widths", m), g.arr("centers", m)
        for f in (f1, f2):
            f.widths[:] = h
            f.centers[:] = d
    X1, X2 = f1.design_matrix(T), f2.design_matrix(T2)
    k = g.idx("sample", N)
    g.eq("features do not depend on the time offset", X1[i, k], X2[i, k])
