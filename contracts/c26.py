"""C26: distribution of dual-arm demonstrations in parameter and state space."""

MOD = "dmp_to_state_space_distribution"
FUNCTIONS = [MOD + ".estimate_dmp_parameter_distribution", MOD + ".propagate_to_state_space",
             MOD + ".propagate_weight_distribution_to_state_space",
             MOD + ".estimate_state_distribution"]
ASSUMPTIONS = ["every demonstration has a mean time step of at least 0.005 (others are skipped "
               "by design)"]


def recorder(made):
    class MVN:
        def __init__(self, *a, **k):
            self.samples = None
            made.append(self)

        def from_samples(self, X, *a, **k):
            self.samples = X
            return self
    return MVN


def check_parameters(g, M):
    """Parameter vectors of the demonstrations."""
    n = g.dim("n_demos", 1, 3 if not g.sym else None)
    nw = g.dim("n_weights", 2)
    int_dt = g.real("int_dt", pos=True, sample=(0.01, 0.1))
    data = g.demonstrations("demo", n, 14)
    D = M("dmp._dual_cartesian_dmp").DualCartesianDMP
    made = []
    g.mvn(recorder(made))
    W = g.abstract("imitated weights", (12, nw)) if g.sym else None

    def imitate(self, T, Y, regularization_coefficient=0.0, allow_final_velocity=False):
        self.forcing_term.weights_[:, :] = W(T, Y, self.alpha_y, self.beta_y,
                                             self.execution_time_, regularization_coefficient)
        self.configure(start_y=Y[0], goal_y=Y[-1])
    g.stub(D, "imitate", imitate)
    if g.sym:
        fr, given = [], None
    else:
        for T, Y in data:
            for s in (slice(3, 7), slice(10, 14)):
                Y[:, s] /= g.np.linalg.norm(Y[:, s], axis=1)[:, None]
        given = [(T.copy(), Y.copy()) for T, Y in data]
        fr = g.freeze(*[a for d in data for a in d])
    mvn, mean = M(MOD).estimate_dmp_parameter_distribution(data, nw, int_dt)
    g.cover("parameters")
    X = made[0].samples
    g.true("distribution of the parameters is returned", mvn is made[0])
    if not g.sym:
        # orientations may be normalized
        for (T, Y), (T0, Y0) in zip(data, given):
            g.eq("demonstration is not modified", Y, Y0)
            g.eq("times are not modified", T, T0)
    g.eq("one vector per demonstration", X.shape, (n, 12 * nw + 29))
    i = g.idx("demonstration", n)
    T, Y = data[i] if g.sym else given[i]
    duration = T[-1] - T[0]
    if g.sym:
        d = D(execution_time=duration, n_weights_per_dim=nw)
        w = W(T, Y, d.alpha_y, d.beta_y, duration, 0.0)
    else:
        d = D(execution_time=duration, n_weights_per_dim=nw)
        d.imitate(T.copy(), Y.copy())
        w = d.forcing_term.weights_
    a, b = g.idx("dimension", 12), g.idx("weight", nw)
    g.eq("weights", X[i, a * nw + b], w[a, b])
    for c in range(14):
        g.eq("start", X[i, 12 * nw + c], Y[0, c])
        g.eq("goal", X[i, 12 * nw + 14 + c], Y[-1, c])
    g.eq("duration", X[i, 12 * nw + 28], duration)
    g.eq("mean duration", mean * n, g.sum(n, lambda k: data[k][0][-1] - data[k][0][0]))


def check_rollout(g, M):
    """Rolling out parameter vectors."""
    n = g.dim("n_points", 1, 3 if not g.sym else None)
    nw = g.dim("n_weights", 2)
    tau = g.time("execution_time", pos=True)
    steps = g.dim("steps", 1, 5 if not g.sym else None)
    dt = tau / steps
    int_dt = dt / g.dim("substeps", 1, 3)
    alpha, kappa = g.real("alpha", pos=True), g.real("kappa", pos=True)
    P = g.arr("points", n, 12 * nw + 29)
    D = M("dmp._dual_cartesian_dmp").DualCartesianDMP
    if not g.sym:
        for k in (3, 10, 17, 24):
            s = slice(12 * nw + k, 12 * nw + k + 4)
            P[:, s] /= g.np.linalg.norm(P[:, s], axis=1)[:, None]
    Q = g.np.copy(P)

    class MVN:
        def sigma_points(self, alpha=None, kappa=None):
            asked.append((alpha, kappa))
            return P
    asked = []
    R = g.abstract("rollout", (steps + 1, 14)) if g.sym else None

    def open_loop(self, run_t=None, coupling_term=None, step_function=None):
        g.true("no coupling", coupling_term is None)
        return None, R(self.forcing_term.weights_, self.start_y, self.goal_y, self.start_yd,
                       self.execution_time_, self.dt_, self.int_dt, run_t, self.alpha_y,
                       self.beta_y)
    g.stub(D, "open_loop", open_loop)
    Y = M(MOD).propagate_to_state_space(MVN(), nw, tau, alpha, kappa, dt, int_dt)
    g.cover("rollouts")
    g.eq("points asked for", asked[0], (alpha, kappa))
    i = g.idx("point", n)
    p = Q[i]
    if g.sym:
        d = D(execution_time=tau, dt=dt, n_weights_per_dim=nw, int_dt=int_dt)
        w = p[:12 * nw].reshape(12, nw)
        want = R(w, p[12 * nw:12 * nw + 14], p[12 * nw + 14:12 * nw + 28], d.start_yd, tau, dt,
                 int_dt, tau, d.alpha_y, d.beta_y)
        k, c = g.idx("sample", steps + 1), g.idx("component", 14)
        g.eq("size of the trajectories", Y.shape, (n, 14 * (steps + 1)))
        g.eq("trajectory", Y[i, k * 14 + c], want[k, c])
    else:
        d = D(execution_time=tau, dt=dt, n_weights_per_dim=nw, int_dt=int_dt)
        d.configure(start_y=p[12 * nw:12 * nw + 14].copy(), goal_y=p[12 * nw + 14:12 * nw + 28].copy())
        d.forcing_term.weights_[:, :] = p[:12 * nw].reshape(12, nw)
        want = d.open_loop(run_t=tau)[1]
        g.eq("size of the trajectories", Y.shape[0], n)
        g.eq("trajectory", Y[i].reshape(-1, 14), want)
        g.eq("starts at the start in the vector", Y[i][:14], p[12 * nw:12 * nw + 14])


def check_propagation(g, M):
    """From demonstrations to the distribution of trajectories."""
    K = M(MOD)
    n = g.dim("n_demos", 2, 3 if not g.sym else None)   # there is always more than one point
    nw = g.dim("n_weights", 2, 3 if not g.sym else None)
    given = g.flag("all arguments given")
    alpha, kappa, dt, int_dt = 1e-3, 10.0, 0.1, 0.01
    if given:
        alpha, kappa = g.real("alpha", pos=True), g.real("kappa", pos=True)
        dt = g.real("dt", pos=True, sample=(0.05, 0.2))
        int_dt = g.real("int_dt", pos=True, sample=(0.01, 0.1))
    options = dict(alpha=alpha, kappa=kappa, dt=dt, int_dt=int_dt) if given else {}
    data = g.demonstrations("demo", n, 14)
    final = object()
    made, used = [], []

    class MVN:
        def __init__(self, mean=None, covariance=None, *a, **k):
            self.mean = mean
            made.append(self)

        def from_samples(self, X, *a, **k):
            self.samples = X
            return self

        def sigma_points(self, alpha=1e-3, kappa=0.0):
            used.append((alpha, kappa))
            return self.samples

        def estimate_from_sigma_points(self, X, alpha=1e-3, beta=2.0, kappa=0.0, *a, **k):
            used.append((X, alpha, beta, kappa, self.mean))
            return final
    g.mvn(MVN)
    if g.sym:
        parameters, mean = MVN(), g.time("mean execution time", pos=True)
        rows, columns = g.dim("n_points", 1), g.dim("n_values", 1)
        X = g.arr("rollouts", rows, columns)

        def estimate(dataset, n_weights_per_dim, int_dt, verbose=0):
            g.true("demonstrations are passed on", dataset is data)
            g.eq("number of weights is passed on", n_weights_per_dim, nw)
            g.eq("integration step is passed on", int_dt, want_int_dt)
            return parameters, mean

        def propagate(mvn, n_weights_per_dim, execution_time, alpha, kappa, dt, int_dt,
                      verbose=0):
            g.true("estimated distribution is propagated", mvn is parameters)
            g.eq("rollout arguments", (n_weights_per_dim, execution_time, dt, int_dt),
                 (nw, mean, want_dt, want_int_dt))
            used.append((alpha, kappa))
            return X
        want_dt, want_int_dt = dt, int_dt
        g.stub(K, "estimate_dmp_parameter_distribution", estimate)
        g.stub(K, "propagate_to_state_space", propagate)
    else:
        for T, Y in data:
            for s in (slice(3, 7), slice(10, 14)):
                Y[:, s] /= g.np.linalg.norm(Y[:, s], axis=1)[:, None]
        parameters, mean = K.estimate_dmp_parameter_distribution(data, nw, int_dt)
        X = K.propagate_to_state_space(parameters, nw, mean, alpha, kappa, dt, int_dt)
        del used[:]
    out = K.propagate_weight_distribution_to_state_space(data, nw, **options)
    g.cover("propagation")
    g.true("estimated distribution is returned", out is final)
    g.eq("points are asked for and used once", len(used), 2)
    g.eq("parameters of the points", used[0], (alpha, kappa))
    _final(g, used[1], X, alpha, kappa, nw)
    if not g.sym:
        with g.scratch("cache.txt") as name:
            for _ in range(2):
                out = K.propagate_weight_distribution_to_state_space(
                    data, nw, cache_filename=name, **options)
                g.true("estimated distribution is returned with a cache", out is final)
                _final(g, used[-1], X, alpha, kappa, nw)


def _final(g, used, X, alpha, kappa, nw):
    g.eq("distribution is estimated from the rollouts", used[0], X)
    g.eq("estimation undoes the choice of the points", used[1:4], (alpha, 2.0, kappa))
    g.eq("weights of the points fit the number of parameters", used[4].shape, (12 * nw + 29,))
