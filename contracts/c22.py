"""C22: minimum-jerk trajectories."""
FUNCTIONS = ["data._minimum_jerk.generate_minimum_jerk",
             "minimum_jerk_trajectory.MinimumJerkTrajectory.__init__",
             "minimum_jerk_trajectory.MinimumJerkTrajectory.step",
             "minimum_jerk_trajectory.MinimumJerkTrajectory.reset"]
ASSUMPTIONS = ["the number of samples is the quotient of duration and time step in exact "
               "arithmetic; the evaluated contract accepts one sample less due to rounding"]


def quintic(x, v, a, goal, left, dt):
    """Value, velocity and acceleration after dt of the quintic that starts
    with x, v, a and rests at the goal after the time left."""
    s = dt / left
    e, v, a = x - goal, v * left, a * left ** 2
    y = e * (1.0 - 10.0 * s ** 3 + 15.0 * s ** 4 - 6.0 * s ** 5) \
        + v * (s - 6.0 * s ** 3 + 8.0 * s ** 4 - 3.0 * s ** 5) \
        + a * (s ** 2 - 3.0 * s ** 3 + 3.0 * s ** 4 - s ** 5) / 2.0
    yd = e * (-30.0 * s ** 2 + 60.0 * s ** 3 - 30.0 * s ** 4) \
        + v * (1.0 - 18.0 * s ** 2 + 32.0 * s ** 3 - 15.0 * s ** 4) \
        + a * (2.0 * s - 9.0 * s ** 2 + 12.0 * s ** 3 - 5.0 * s ** 4) / 2.0
    ydd = e * (-60.0 * s + 180.0 * s ** 2 - 120.0 * s ** 3) \
        + v * (-36.0 * s + 96.0 * s ** 2 - 60.0 * s ** 3) \
        + a * (2.0 - 18.0 * s + 36.0 * s ** 2 - 20.0 * s ** 3) / 2.0
    return goal + y, yd / left, ydd / left ** 2


def problem(g):
    nd = g.dim("n_dims", 1)
    x0, goal = g.arr("start", nd), g.arr("goal", nd)
    dt = g.real("dt", pos=True, sample=(0.01, 0.5))
    duration = g.real("duration", pos=True, sample=(0.1, 3.0))
    if not g.sym and g.flag("whole number of steps"):
        dt = round(dt, 2)
        duration = round(duration / dt) * dt
    g.assume(duration >= 2.0 * dt if g.sym else duration > 2.001 * dt)
    return nd, x0, goal, dt, duration


def samples(g, x0, goal, dt, n, nd):
    """Sequence of samples; the goal is reached one step before the end."""
    def step(st, k):
        if n - 2 - k < 1:
            return dict(st)
        x, v, a = quintic(st["x"], st["v"], st["a"], goal, (n - 2 - k) * dt, dt)
        return dict(x=x, v=v, a=a)
    z = g.np.zeros(nd)
    return g.seq("samples", dict(x=x0, v=z, a=z), step, n - 1)


def check_generate(g, M):
    nd, x0, goal, dt, duration = problem(g)
    seq = None
    if g.sym:
        n = 1 + g.np.floor(duration / dt)
        seq = samples(g, x0, goal, dt, n, nd)
    fr = g.freeze(x0, goal)
    X, V, A = M("data._minimum_jerk").generate_minimum_jerk(x0, goal, duration, dt)
    g.cover("trajectory generated")
    if not g.sym:
        n = X.shape[0]
        g.true("number of samples", -1.0 - 1e-6 < n - 1 - duration / dt < 1e-6)
        seq = samples(g, x0, goal, dt, n, nd)
    for name, Y in (("positions", X), ("velocities", V), ("accelerations", A)):
        g.eq("one row of %s per sample" % name, Y.shape, (n, nd))
    g.eq("starts at the start", X[0], x0)
    g.eq("starts with zero velocity", V[0], g.np.zeros(nd))
    g.eq("starts with zero acceleration", A[0], g.np.zeros(nd))
    k = g.idx("sample", n)
    st = seq.at(k)
    g.eq("positions follow the quintic", X[k], st["x"])
    g.eq("velocities follow the quintic", V[k], st["v"])
    g.eq("accelerations follow the quintic", A[k], st["a"])
    # the last two samples are at rest at the goal
    j = g.idx("dimension", nd)
    g.unfold(seq, n - 2, j)
    g.unfold(seq, n - 1, j)
    g.eq("ends at the goal", X[n - 1][j], goal[j])
    g.eq("ends with zero velocity", V[n - 1][j], 0.0)
    g.eq("ends with zero acceleration", A[n - 1][j], 0.0)
    g.frame("start and goal unchanged", fr)


def check_shapes(g, M):
    """Start and goal of different dimensions are refused."""
    n, m = g.dim("n_dims", 1), g.dim("other", 1)
    g.assume(n != m)
    a, b = g.arr("start", n), g.arr("goal", m)
    g.raises("different dimensions refused", ValueError,
             lambda: M("data._minimum_jerk").generate_minimum_jerk(a, b))


def check_step(g, M):
    """Stepping returns the samples in order, from the start after a reset."""
    nd, x0, goal, dt, duration = problem(g)
    mod = M("minimum_jerk_trajectory")
    n = g.dim("n_samples", 2)
    if g.sym:
        X, V, A = g.arr("X", n, nd), g.arr("V", n, nd), g.arr("A", n, nd)
        calls = []

        def generate(start, end, execution_time=1.0, dt=0.01):
            calls.append((start, end, execution_time, dt))
            return X, V, A
        g.stub(mod, "generate_minimum_jerk", generate)
    else:
        X, V, A = M("data._minimum_jerk").generate_minimum_jerk(x0, goal, duration, dt)
        n = len(X)
    p = mod.MinimumJerkTrajectory(nd, duration, dt)
    p.configure(start_y=x0, goal_y=goal)
    y, yd = g.arr("y", nd), g.arr("yd", nd)
    if g.flag("used before"):
        # any earlier use ends in some state; a reset starts over
        if g.sym:
            p.X, p.Xd = g.arr("old_X", n, nd), g.arr("old_Xd", n, nd)
            p.step_idx = g.int("step_idx", 0)
            p.initialized = True
            p.current_y, p.current_yd = g.arr("cy", nd), g.arr("cyd", nd)
        else:
            p.configure(start_y=g.arr("other start", nd), goal_y=g.arr("other goal", nd))
            for _ in range(g.choice("earlier steps", n)):
                p.step(y, yd)
            p.configure(start_y=x0, goal_y=goal)
        p.reset()
    first = p.step(y, yd)
    g.eq("first sample", first[0], X[0])
    g.eq("velocity of the first sample", first[1], V[0])
    if g.sym:
        g.true("generated once", len(calls) == 1)
        g.eq("generated from start to goal", calls[0], (x0, goal, duration, dt))
        # any number of samples returned
        k = g.idx("sample", n)
        p.step_idx = k
        ks = [k]
    else:
        ks = range(1, n)
    for k in ks:
        got = p.step(y, yd)
        g.eq("samples in order", got[0], X[k])
        g.eq("velocities in order", got[1], V[k])
        g.no_alias("samples are copies", got[0], [p.X])
        if g.sym:
            g.eq("next sample", p.step_idx, k + 1)
            g.true("generated once", len(calls) == 1)
    g.cover("stepped")
