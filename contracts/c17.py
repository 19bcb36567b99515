"""C17: obstacle avoidance."""
FUNCTIONS = ["dmp._coupling_terms.obstacle_avoidance_acceleration_2d",
             "dmp._coupling_terms.obstacle_avoidance_acceleration_3d",
             "dmp._coupling_terms.CouplingTermObstacleAvoidance2D.coupling",
             "dmp._coupling_terms.CouplingTermObstacleAvoidance3D.coupling",
             "dmp_fast.obstacle_avoidance_acceleration_2d",
             "dmp_fast.matrix_from_compact_axis_angle"]

# keeps the steering angle defined at zero velocity and at the obstacle
EPSILON = 1e-10


def steering(g, d, v, gamma, beta, n):
    """Steering angle times its decay and the gain."""
    np = g.np
    dot = sum(d[k] * v[k] for k in range(n))
    dd, vv = np.sqrt(sum(d[k] * d[k] for k in range(n))), np.sqrt(sum(v[k] * v[k] for k in range(n)))
    theta = np.arccos(np.clip(dot / (dd * vv + EPSILON), -1.0, 1.0))
    return gamma * theta * np.exp(-beta * theta)


def law_2d(g, d, v, gamma, beta):
    """Velocity turned by 90 degrees about the normal of obstacle direction and velocity."""
    c = d[0] * v[1] - d[1] * v[0]
    g.assume(c != 0 if g.sym else abs(c) > 1e-9)
    s = 1.0 if c > 0 else -1.0
    k = steering(g, d, v, gamma, beta, 2)
    return g.np.array([-s * v[1] * k, s * v[0] * k])


def law_3d(g, d, v, gamma, beta):
    np = g.np
    c = np.array([d[1] * v[2] - d[2] * v[1], d[2] * v[0] - d[0] * v[2], d[0] * v[1] - d[1] * v[0]])
    n2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
    g.assume(n2 > 0 if g.sym else n2 > 1e-12)
    u = c / np.sqrt(n2)
    w = np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])
    return w * steering(g, d, v, gamma, beta, 3)


def _params(g, n):
    y, v, d = g.arr("y", n), g.arr("yd", n), g.arr("diff", n)
    scale = 1.0
    if not g.sym and g.choice("scale", 3) == 0:
        scale = 1000.0
    return y * scale, v * scale, d * scale, g.real("gamma"), g.real("beta")


def _impls(M):
    return [("Python", M("dmp._coupling_terms").obstacle_avoidance_acceleration_2d),
            ("compiled", M("dmp_fast").obstacle_avoidance_acceleration_2d)]


def check_law_2d(g, M):
    y, v, d, gamma, beta = _params(g, 2)
    want = law_2d(g, d, v, gamma, beta)
    o = y + d
    fr = g.freeze(y, v, o)
    for name, f in _impls(M):
        a = f(y, v, o, gamma, beta)
        g.cover("%s avoidance" % name)
        g.eq("%s avoidance acceleration in the plane" % name, a, want)
    g.frame("avoidance modifies nothing", fr)


def check_away_2d(g, M):
    """The acceleration never points towards the obstacle."""
    y, v, d, gamma, beta = _params(g, 2)
    g.assume(gamma >= 0)
    law_2d(g, d, v, gamma, beta)
    for name, f in _impls(M):
        a = f(y, v, y + d, gamma, beta)
        g.le("%s avoidance points away from the obstacle" % name, a[0] * d[0] + a[1] * d[1], 0.0)


def check_law_3d(g, M):
    y, v, d, gamma, beta = _params(g, 3)
    want = law_3d(g, d, v, gamma, beta)
    o = y + d
    fr = g.freeze(y, v, o)
    a = M("dmp._coupling_terms").obstacle_avoidance_acceleration_3d(y, v, o, gamma, beta)
    g.cover("avoidance in space")
    g.eq("avoidance acceleration in space", a, want)
    g.frame("avoidance modifies nothing", fr)


def check_plane_in_space(g, M):
    """A planar situation gives the planar acceleration, also head-on."""
    y, v, d, gamma, beta = _params(g, 2)
    head_on = g.flag("collinear")
    if head_on:
        d = v * g.real("distance")
    z = g.real("height")
    h, zero = g.np.array([z]), g.np.zeros(1)
    y3 = g.np.concatenate((y, h))
    v3 = g.np.concatenate((v, zero))
    o3 = g.np.concatenate((y + d, h))
    a3 = M("dmp._coupling_terms").obstacle_avoidance_acceleration_3d(y3, v3, o3, gamma, beta)
    a2 = M("dmp._coupling_terms").obstacle_avoidance_acceleration_2d(y, v, y + d, gamma, beta)
    # the angle is ill-conditioned head-on
    tol = 1e-3 if head_on else None
    g.eq("planar avoidance in space", a3[:2], a2, tol)
    g.eq("no acceleration out of the plane", a3[2], 0.0, tol)


def check_head_on(g, M):
    """Defined when the velocity points exactly at or away from the obstacle, at any scale."""
    n = 2 + g.choice("space", 2)
    y, v = g.np.zeros(n), g.arr("yd", n) * 10.0 ** g.choice("scale", 9)
    d = v * 2.0 ** (g.choice("distance", 9) - 4)
    if g.flag("moving away"):
        d = -d
    gamma, beta = g.real("gamma"), g.real("beta")
    ct = M("dmp._coupling_terms")
    impls = _impls(M) if n == 2 else [("Python", ct.obstacle_avoidance_acceleration_3d)]
    for name, f in impls:
        a = f(y, v, y + d, gamma, beta)
        g.true("%s avoidance is defined head-on" % name, bool(g.np.all(g.np.isfinite(a))))


check_head_on.symbolic = None
check_head_on.trials = 400


def check_defaults(g, M):
    """Parameters that are not given have their documented values."""
    ct = M("dmp._coupling_terms")
    k = g.choice("class", 3)
    n = 3 if k == 2 else 2
    y, v, d, _, _ = _params(g, n)
    gamma, beta = 1000.0, 20.0 / g.np.pi
    if k == 2:
        want = law_3d(g, d, v, gamma, beta)
        got = ct.obstacle_avoidance_acceleration_3d(y, v, y + d)
        c = ct.CouplingTermObstacleAvoidance3D(y + d)
    else:
        want = law_2d(g, d, v, gamma, beta)
        got = ct.obstacle_avoidance_acceleration_2d(y, v, y + d)
        c = ct.CouplingTermObstacleAvoidance2D(y + d, fast=bool(k))
    g.eq("default parameters of the avoidance function", got, want)
    g.eq("default parameters of the coupling term", c.coupling(y, v)[1], want)


def check_rest(g, M):
    """No acceleration without velocity."""
    n = 2 + g.choice("space", 2)
    y, v, d, gamma, beta = _params(g, n)
    z = g.np.zeros(n)
    ct = M("dmp._coupling_terms")
    if n == 3:
        g.eq("no acceleration at rest", ct.obstacle_avoidance_acceleration_3d(y, z, y + d, gamma, beta), z)
        return
    for name, f in _impls(M):
        g.eq("%s: no acceleration at rest" % name, f(y, z, y + d, gamma, beta), z)


def check_batch(g, M):
    """Several positions at once give the acceleration at each of them."""
    n = g.dim("n", 2)
    Y, V, o = g.arr("Y", n, 2), g.arr("Yd", n, 2), g.arr("obstacle", 2)
    gamma, beta = g.real("gamma"), g.real("beta")
    f = M("dmp._coupling_terms").obstacle_avoidance_acceleration_2d
    fr = g.freeze(Y, V, o)
    A = f(Y, V, o, gamma, beta)
    i = g.idx("i", n)
    g.eq("batch row", A[i], f(Y[i], V[i], o, gamma, beta))
    g.eq("batch shape", A.shape, (n, 2))
    m = g.dim("m", 2)
    Y2, V2 = g.arr("Y2", n, m, 2), g.arr("Yd2", n, m, 2)
    A2 = f(Y2, V2, o, gamma, beta)
    j = g.idx("j", m)
    g.eq("grid shape", A2.shape, (n, m, 2))
    g.eq("grid cell", A2[i, j], f(Y2[i, j], V2[i, j], o, gamma, beta))
    g.frame("batch avoidance modifies nothing", fr)


def check_classes(g, M):
    """Coupling terms pass on their obstacle and parameters; velocity part is zero."""
    ct = M("dmp._coupling_terms")
    k = g.choice("class", 3)
    n = 3 if k == 2 else 2
    y, v, d, gamma, beta = _params(g, n)
    o = y + d
    if k == 2:
        c = ct.CouplingTermObstacleAvoidance3D(o, gamma, beta)
        want = law_3d(g, d, v, gamma, beta)
    else:
        c = ct.CouplingTermObstacleAvoidance2D(o, gamma, beta, fast=bool(k))
        want = law_2d(g, d, v, gamma, beta)
    fr = g.freeze(y, v, c)
    cd, cdd = c.coupling(y, v)
    g.eq("coupling velocity is zero", cd, g.np.zeros(n))
    g.eq("coupling acceleration", cdd, want)
    g.frame("coupling modifies nothing", fr)
