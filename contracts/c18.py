"""C18: statistics of ProMP trajectories."""
FUNCTIONS = ["promp.ProMP.__init__", "promp.ProMP.mean_trajectory",
             "promp.ProMP.trajectory_from_weights",
             "promp.ProMP.cov_trajectory", "promp.ProMP.var_trajectory",
             "promp.ProMP.mean_velocities", "promp.ProMP.cov_velocities",
             "promp.ProMP.var_velocities", "promp.ProMP.sample_trajectories",
             "promp.ProMP.from_weight_distribution", "promp.ProMP._rbfs_1d_point",
             "promp.ProMP._rbfs_1d_sequence", "promp.ProMP._rbfs_nd_sequence",
             "promp.ProMP._rbfs_derivative_1d_sequence",
             "promp.ProMP._rbfs_derivative_nd_sequence", "promp._nd_block_diagonal"]


class Model:
    pass


def model(g, M, nd=None):
    """A model with an arbitrary distribution of weights."""
    q = Model()
    q.nd = g.dim("n_dims", 1) if nd is None else nd
    q.nw = g.dim("n_weights_per_dim", 2)
    q.p = M("promp").ProMP(q.nd, q.nw)
    n = q.nd * q.nw
    q.mean = g.arr("weight_mean", n)
    q.cov = g.psd("weight_cov", n)
    q.p.from_weight_distribution(q.mean, q.cov)
    return q


def sequence(g, q):
    """Times of a trajectory."""
    n = g.dim("n_steps", 2)
    T = g.times("T", n)
    g.assume(T[0] >= 0.0)
    if not g.sym and g.flag("used before"):
        earlier = g.times("earlier times", n if g.flag("as many") else g.dim("n_earlier", 2))
        for name in ("mean_trajectory", "cov_trajectory", "mean_velocities", "cov_velocities"):
            getattr(q.p, name)(earlier - earlier[0])
    return T, n


def width(g, q):
    return -1.0 / (8.0 * q.nw ** 2 * g.np.log(0.7))


def bell(g, q, t, a):
    """Unnormalised activation of basis a at normalised time t."""
    c = a / (q.nw - 1.0)
    return g.np.exp(-(t - c) ** 2 / (2.0 * width(g, q)))


def basis(g, q, t, a):
    return bell(g, q, t, a) / g.sum(q.nw, lambda b: bell(g, q, t, b))


def basis_derivative(g, q, t, a):
    """Derivative of the basis with respect to normalised time."""
    h = width(g, q)

    def slope(b):
        return (b / (q.nw - 1.0) - t) / h * bell(g, q, t, b)
    s = g.sum(q.nw, lambda b: bell(g, q, t, b))
    ds = g.sum(q.nw, slope)
    return (slope(a) * s - bell(g, q, t, a) * ds) / s ** 2


def check_mean(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        Y = q.p.mean_trajectory(T)
    g.cover("mean trajectory")
    g.eq("mean trajectory: shape", Y.shape, (n, q.nd))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    g.eq("mean trajectory", Y[s, d], mean_of(g, q, basis, T[s] / T[n - 1], d, q.mean))
    g.frame("mean trajectory leaves model and times unchanged", fr)


def mean_of(g, q, phi, t, d, w):
    return g.sum(q.nw, lambda a: phi(g, q, t, a) * w[d * q.nw + a])


def cov_of(g, q, phi, t, d, u, e):
    return g.sum(q.nw, lambda a: g.sum(q.nw, lambda b: phi(g, q, t, a)
                                       * q.cov[d * q.nw + a, e * q.nw + b] * phi(g, q, u, b)))


def check_activations(g, M):
    """Equal weights give a constant trajectory: activations sum to one."""
    q = model(g, M)
    T, n = sequence(g, q)
    c = g.real("c")
    Y = q.p.trajectory_from_weights(T, c * g.np.ones(q.nd * q.nw))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    g.cover("equal weights")
    g.eq("activations sum to one", Y[s, d], c)


def check_positive(g, M):
    """Each activation is positive."""
    q = model(g, M)
    T, n = sequence(g, q)
    s, d, a = g.idx("step", n), g.idx("dim", q.nd), g.idx("weight", q.nw)
    w = g.np.zeros(q.nd * q.nw)
    w[d * q.nw + a] = 1.0
    with g.pure(q.p):
        Y = q.p.trajectory_from_weights(T, w)
    g.cover("single weight")
    if g.sym:
        g.lt("activation is positive", 0.0, Y[s, d])
    else:
        g.le("activation is positive", 0.0, Y[s, d])


def check_weights(g, M):
    """Trajectory of given weights."""
    q = model(g, M)
    T, n = sequence(g, q)
    w = g.arr("w", q.nd * q.nw)
    fr = g.freeze(q.mean, q.cov, T, w)
    with g.pure(q.p):
        Y = q.p.trajectory_from_weights(T, w)
    g.cover("trajectory from weights")
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    g.eq("trajectory from weights", Y[s, d], mean_of(g, q, basis, T[s] / T[n - 1], d, w))
    g.frame("trajectory from weights leaves model, times and weights unchanged", fr)


def check_cov(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        V = q.p.cov_trajectory(T)
    g.cover("trajectory covariance")
    N = q.nd * n
    g.eq("trajectory covariance: shape", V.shape, (N, N))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    u, e = g.idx("other step", n), g.idx("other dim", q.nd)
    g.eq("trajectory covariance", V[d * n + s, e * n + u],
         cov_of(g, q, basis, T[s] / T[n - 1], d, T[u] / T[n - 1], e))
    g.frame("trajectory covariance leaves model and times unchanged", fr)


def check_var(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        V = q.p.var_trajectory(T)
    g.cover("trajectory variance")
    g.eq("trajectory variance: shape", V.shape, (n, q.nd))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    t = T[s] / T[n - 1]
    g.eq("trajectory variance", V[s, d],
         g.np.maximum(cov_of(g, q, basis, t, d, t, d), 0.0))
    g.frame("trajectory variance leaves model and times unchanged", fr)


def check_mean_velocities(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        Y = q.p.mean_velocities(T)
    g.cover("mean velocities")
    g.eq("mean velocities: shape", Y.shape, (n, q.nd))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    g.eq("mean velocities", Y[s, d],
         mean_of(g, q, basis_derivative, T[s] / T[n - 1], d, q.mean))
    g.frame("mean velocities leaves model and times unchanged", fr)


def check_cov_velocities(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        V = q.p.cov_velocities(T)
    g.cover("velocity covariance")
    N = q.nd * n
    g.eq("velocity covariance: shape", V.shape, (N, N))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    u, e = g.idx("other step", n), g.idx("other dim", q.nd)
    g.eq("velocity covariance", V[d * n + s, e * n + u],
         cov_of(g, q, basis_derivative, T[s] / T[n - 1], d, T[u] / T[n - 1], e))
    g.frame("velocity covariance leaves model and times unchanged", fr)


def check_var_velocities(g, M):
    q = model(g, M)
    T, n = sequence(g, q)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        V = q.p.var_velocities(T)
    g.cover("velocity variance")
    g.eq("velocity variance: shape", V.shape, (n, q.nd))
    s, d = g.idx("step", n), g.idx("dim", q.nd)
    t = T[s] / T[n - 1]
    g.eq("velocity variance", V[s, d],
         g.np.maximum(cov_of(g, q, basis_derivative, t, d, t, d), 0.0))
    g.frame("velocity variance leaves model and times unchanged", fr)


def check_samples(g, M):
    """Samples are trajectories of weights drawn from the distribution."""
    q = model(g, M)
    T, n = sequence(g, q)
    m = g.dim("n_samples", 1)
    draws = g.arr("draws", m, q.nd * q.nw)
    asked = []

    def multivariate_normal(mean, cov, size=None, *a, **k):
        asked.append((mean, cov, size))
        return g.np.copy(draws)
    rs = g.random_state(multivariate_normal=multivariate_normal)
    fr = g.freeze(q.mean, q.cov, T)
    with g.pure(q.p):
        S = q.p.sample_trajectories(T, m, rs)
    if len(asked) != 1:
        g.skip()
    mean, cov, size = asked[0]
    g.cover("samples")
    g.eq("samples: mean of the drawn weights", mean, q.mean)
    g.eq("samples: covariance of the drawn weights", cov, q.cov)
    g.eq("samples: number of draws", size, m)
    g.eq("samples: shape", S.shape, (m, n, q.nd))
    i, s, d = g.idx("sample", m), g.idx("step", n), g.idx("dim", q.nd)
    g.eq("samples: trajectory of the drawn weights", S[i, s, d],
         mean_of(g, q, basis, T[s] / T[n - 1], d, draws[i]))
    g.frame("samples leave model and times unchanged", fr)


def check_given(g, M):
    """A model has the distribution of weights it is given."""
    q = model(g, M)
    fr = g.freeze(q.mean, q.cov)
    g.cover("given distribution")
    g.eq("given distribution: mean", q.p.weight_mean, q.mean, 1e-12)
    g.eq("given distribution: covariance", q.p.weight_cov, q.cov, 1e-12)
    g.frame("given distribution is not modified", fr)


def check_new(g, M):
    """A new model has standard normal weights."""
    nd, nw = g.dim("n_dims", 1), g.dim("n_weights_per_dim", 2)
    p = M("promp").ProMP(nd, nw)
    g.cover("new model")
    g.eq("new model: number of weights", p.n_weights, nd * nw)
    g.eq("new model: mean of the weights", p.weight_mean, g.np.zeros(nd * nw))
    g.eq("new model: covariance of the weights", p.weight_cov, g.np.eye(nd * nw))
