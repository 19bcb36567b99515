"""C20: fitting a ProMP."""
from . import c18
from .c18 import Model, basis, model, sequence

FUNCTIONS = ["promp.ProMP.weights", "promp.ProMP.imitate", "promp.ProMP._expectation",
             "promp.ProMP._maximization", "promp.ProMP._rbfs_nd_sequence",
             "promp._nd_block_diagonal"]
GAMMA = 0.7


def check_weights(g, M):
    """Ridge regression of one trajectory."""
    q = model(g, M)
    T, n = sequence(g, q)
    Y = g.arr("Y", n, q.nd)
    default = g.flag("default regularisation")
    lmbda = 1e-12 if default else g.real("lmbda", pos=True, sample=(0.01, 1.0))
    fr = g.freeze(T, Y, q.mean, q.cov)
    w = q.p.weights(T, Y) if default else q.p.weights(T, Y, lmbda)
    g.cover("weights of a trajectory")
    N = q.nd * q.nw
    nw = q.nw
    g.eq("weights: shape", w.shape, (N,))

    def phi(s, a):
        return basis(g, q, T[s] / T[n - 1], a)

    def target(d, a):
        return g.sum(n, lambda s: phi(s, a) * Y[s, d])
    if g.sym:
        def normal(r, c):
            d, a = r // nw, r % nw
            e, b = c // nw, c % nw
            return g.ite(d == e, g.sum(n, lambda s: phi(s, a) * phi(s, b)), 0.0) \
                + g.ite(r == c, lmbda, 0.0)
        B = g.stack(N, lambda r: g.stack(N, lambda c: normal(r, c)), N)
        P = g.np.linalg.inv(B)
        r = g.idx("weight", N)
        g.eq("weights solve the ridge regression", w[r], g.sum(q.nd, lambda d: g.sum(
            nw, lambda a: P[r, d * nw + a] * target(d, a))))
    else:
        for d in range(q.nd):
            wd = w[d * nw:(d + 1) * nw]
            for a in range(nw):
                left = g.sum(nw, lambda b: g.sum(n, lambda s: phi(s, a) * phi(s, b)) * wd[b]) \
                    + lmbda * wd[a]
                if g.np.max(g.np.abs(wd)) > 1e3:
                    g.skip()
                g.eq("weights solve the ridge regression", left, target(d, a), tol=1e-4)
    g.frame("fitting leaves the demonstration and the model unchanged", fr)


def distribution(g, M):
    q = model(g, M)
    q.p.variance = q.variance = g.real("variance", pos=True, sample=(0.1, 2.0))
    return q


def posterior(g, q, N, A, b):
    """Posterior of the weights for normal matrix A and right side b."""
    inv = g.np.linalg.inv
    P = inv(q.cov)
    C = inv(A / q.variance + P)
    return C.dot(b / q.variance + P.dot(q.mean)), C


def check_expectation(g, M):
    q = distribution(g, M)
    if not hasattr(q.p, "_expectation"):
        g.skip()
    N = q.nd * q.nw
    A, b = g.psd("PhiHTHPhiT", N), g.arr("PhiHTR", N)
    fr = g.freeze(A, b, q.mean, q.cov)
    mean, cov = q.p._expectation(b, A)
    want_mean, want_cov = posterior(g, q, N, A, b)
    g.cover("expectation")
    r, s = g.idx("weight", N), g.idx("other weight", N)
    g.eq("expectation: posterior mean", mean[r], want_mean[r])
    g.eq("expectation: posterior covariance", cov[r, s], want_cov[r, s])
    g.frame("expectation leaves model and data unchanged", fr)


def check_maximization(g, M):
    q = distribution(g, M)
    if not hasattr(q.p, "_maximization"):
        g.skip()
    N = q.nd * q.nw
    m = g.dim("n_demos", 1)
    means, covs = g.arr("means", m, N), g.arr("covs", m, N, N)
    RR, b, A = g.arr("RTR", m), g.arr("PhiHTR", m, N), g.arr("PhiHTHPhiT", m, N, N)
    total = g.dim("n_samples", 1)
    fr = g.freeze(means, covs, RR, b, A, q.mean, q.cov)
    q.p._maximization(means, covs, RR, b, A, total)
    g.cover("maximization")
    r, s = g.idx("weight", N), g.idx("other weight", N)

    def mean(c):
        return g.sum(m, lambda i: means[i, c]) / m
    g.eq("maximization: mean of the weights", q.p.weight_mean[r], mean(r))
    g.eq("maximization: covariance of the weights", q.p.weight_cov[r, s], g.sum(
        m, lambda i: (means[i, r] - mean(r)) * (means[i, s] - mean(s)) + covs[i, r, s]) / m)
    norm = g.np.sqrt(g.sum(m, lambda i: g.sum(N, lambda c: means[i, c] ** 2)))
    residual = g.sum(m, lambda i: RR[i] + g.sum(N, lambda c: -2.0 * b[i, c] * means[i, c] + g.sum(
        N, lambda e: A[i, c, e] * covs[i, e, c] + means[i, c] * A[i, c, e] * means[i, e])))
    g.eq("maximization: variance of the noise", q.p.variance,
         residual / (norm * m * q.nd * total + 2.0))
    g.frame("maximization leaves its arguments unchanged", fr)


def statistics(g, q, T, Y, n, phi=None):
    """Normal matrix, right side and energy of a demonstration whose noise
    is correlated between successive steps."""
    nw, N = q.nw, q.nd * q.nw

    def ahead(s, f):
        return g.ite(s < n - 1, f(s + 1), 0.0) if g.sym else f(s + 1) if s < n - 1 else 0.0

    if phi is None:
        def phi(s, a):
            return basis(g, q, T[s] / T[n - 1], a)

    def psi(s, a):
        return phi(s, a) - GAMMA * ahead(s, lambda k: phi(k, a))

    def res(s, d):
        return Y[s, d] - GAMMA * ahead(s, lambda k: g.peek(Y, k, d))

    def normal(r, c):
        return g.ite(r // nw == c // nw, g.sum(
            n, lambda s: psi(s, r % nw) * psi(s, c % nw)), 0.0)
    A = g.stack(N, lambda r: g.stack(N, lambda c: normal(r, c)), N)
    b = g.stack(N, lambda r: g.sum(n, lambda s: psi(s, r % nw) * res(s, r // nw)))
    e = g.sum(q.nd, lambda d: g.sum(n, lambda s: res(s, d) ** 2))
    return A, b, e


def updated(g, q, m, means, covs, A, b, e, total):
    """Maximization step."""
    N = q.nd * q.nw
    mean = g.stack(N, lambda r: sum(means[i][r] for i in range(m)) / m)
    cov = g.stack(N, lambda r: g.stack(N, lambda s: sum(
        (means[i][r] - mean[r]) * (means[i][s] - mean[s]) + covs[i][r, s]
        for i in range(m)) / m), N)
    norm = g.np.sqrt(sum(g.sum(N, lambda c: means[i][c] ** 2) for i in range(m)))
    left = sum(e[i] + g.sum(N, lambda c: -2.0 * b[i][c] * means[i][c] + g.sum(
        N, lambda k: A[i][c, k] * covs[i][k, c] + means[i][c] * A[i][c, k] * means[i][k]))
        for i in range(m))
    return mean, cov, left / (norm * m * q.nd * total + 2.0)


def demonstrations(g, q, m):
    Ts, Ys, ns = [], [], []
    for i in range(m):
        n = g.dim("n_steps%d" % i, 2)
        T = g.times("T%d" % i, n)
        g.assume(T[0] >= 0.0)
        Ts.append(T)
        Ys.append(g.arr("Y%d" % i, n, q.nd))
        ns.append(n)
    return Ts, Ys, ns


def correlation(g, n):
    """Relates the noise of successive steps."""
    return g.stack(n, lambda a: g.stack(n, lambda b: g.ite(a == b, 1.0, 0.0)
                                        - g.ite(b == a + 1, GAMMA, 0.0)), n)


def normal_equations(phi, H, y):
    A = phi.dot(H.T)
    R = H.dot(y)
    return A.dot(A.T), A.dot(R), R.dot(R)


def check_statistics(g, M):
    """Normal equations of a demonstration in terms of blocks."""
    q = model(g, M)
    n = g.dim("n_steps", 2)
    N = q.nd * q.nw
    phi, Y = g.arr("phi", q.nw, n), g.arr("Y", n, q.nd)
    blocks = getattr(M("promp"), "_nd_block_diagonal", None)
    if blocks is None:
        g.skip()
    A, b, e = normal_equations(blocks(phi, q.nd), blocks(correlation(g, n), q.nd), Y.T.ravel())
    A0, b0, e0 = statistics(g, q, None, Y, n, lambda s, a: g.peek(phi, a, s))
    r, s = g.idx("row", N), g.idx("column", N)
    g.cover("normal equations")
    g.eq("right side of a demonstration", b[r], b0[r])
    g.eq("normal matrix of a demonstration", A[r, s], A0[r, s])
    g.eq("energy of a demonstration", e, e0)


def check_imitate(g, M):
    """Imitation alternates expectation and maximization, both taken by
    their contracts, until the mean changes little: the expectation is a
    function of its arguments and the current distribution, maximization k
    gives NM[k], NC[k], NV[k].  Activations and block diagonal matrices are
    arbitrary here (check_statistics and C18 say what they are)."""
    q = model(g, M)
    P = M("promp").ProMP
    if g.mode != "U" or not hasattr(P, "_expectation") or not hasattr(P, "_maximization"):
        g.skip()
    m, n_iter = g.dim("n_demos", 1), g.dim("n_iter", 1)
    data = g.demonstrations("demo", m, q.nd)
    Ts, Ys = g.unzip(data, m)
    N = q.nd * q.nw
    F, G = g.abstract("activation", ()), g.abstract("block", ())
    E = g.abstract("post_mean", (N,)), g.abstract("post_cov", (N, N))
    NM, NC = g.arr("new_mean", n_iter, N), g.arr("new_cov", n_iter, N, N)
    NV = g.arr("new_variance", n_iter, pos=True)
    delta = g.real("min_delta", pos=True)
    now = g.state(iteration=0)

    def activations(p, T, overlap=0.7):
        w = q.nd * T.shape[0]
        return g.stack(N, lambda r: g.stack(w, lambda c: F(T, r, c)), w)

    def blocks(partial, n_dims):
        n = partial.shape[0]
        r, s = g.idx("row", n), g.idx("column", n)
        g.eq("correlation of the noise", partial[r, s], correlation(g, n)[r, s])
        g.eq("one block per dimension", n_dims, q.nd)
        w = q.nd * n
        return g.stack(w, lambda r: g.stack(w, lambda c: G(n, r, c)), w)

    def equations(i):
        T, Y = data[i]
        w = q.nd * T.shape[0]
        return normal_equations(
            activations(None, T),
            g.stack(w, lambda r: g.stack(w, lambda c: G(T.shape[0], r, c)), w), Y.T.ravel())

    def current(k):
        return dict(mean=g.where(k == 0, q.mean, g.peek_row(NM, k - 1)),
                    cov=g.where(k == 0, q.cov, g.peek_row(NC, k - 1)),
                    variance=g.ite(k == 0, 1.0, g.peek(NV, k - 1)))

    def posteriors(b, A, mean, cov, variance):
        return tuple(e(b, A, mean, cov, variance) for e in E)

    def expectation(p, b, A):
        return posteriors(b, A, p.weight_mean, p.weight_cov, p.variance)

    def maximization(p, means, covs, RRs, PhiHTR, PhiHTHPhiTs, n_samples):
        k = now.iteration
        g.eq("all demonstrations maximized", means.shape[0], m)
        i, r, s = g.idx("demonstration", m), g.idx("row", N), g.idx("column", N)
        A0, b0, e0 = equations(i)
        g.eq("energy of the demonstrations", RRs[i], e0)
        g.eq("right sides of the demonstrations", PhiHTR[i][r], b0[r])
        g.eq("normal matrices of the demonstrations", PhiHTHPhiTs[i][r, s], A0[r, s])
        mean, cov = posteriors(b0, A0, **current(k))
        g.eq("means of the demonstrations", means[i][r], mean[r])
        g.eq("covariances of the demonstrations", covs[i][r, s], cov[r, s])
        g.eq("number of samples", n_samples, g.sum(m, lambda j: data[j][0].shape[0]))
        p.weight_mean, p.weight_cov, p.variance = NM[k], NC[k], NV[k]
        now.iteration = k + 1
    g.stub(M("promp"), "_nd_block_diagonal", blocks)
    g.stub(P, "_rbfs_nd_sequence", activations)
    g.stub(P, "_expectation", expectation)
    g.stub(P, "_maximization", maximization)

    def change(k):
        """Of the mean by iteration k."""
        return g.np.linalg.norm(g.peek_row(NM, k) - current(k)["mean"])

    def closed(k):
        return dict(current(k), iteration=k, change=change(k - 1))
    seq = g.seq("iterations", closed(0), lambda st, k: closed(k + 1), n_iter,
                closed={c: lambda k, c=c: closed(k)[c] for c in closed(0)},
                until=lambda st: st["change"] < delta)
    q.p.imitate(Ts, Ys, n_iter=n_iter, min_delta=delta)
    g.cover("imitation of demonstrations")
    k = seq.count
    g.eq("ends when the mean does not change or after all iterations", now.iteration, k)
    r, s = g.idx("weight", N), g.idx("other weight", N)
    g.eq("imitation: mean of the weights", q.p.weight_mean[r], NM[k - 1, r])
    g.eq("imitation: covariance of the weights", q.p.weight_cov[r, s], NC[k - 1, r, s])
    g.eq("imitation: variance of the noise", q.p.variance, NV[k - 1])


check_imitate.trials = 0


def check_fit(g, M):
    """Expectation-maximization from any distribution of weights."""
    q = model(g, M)
    m = 1 + g.choice("n_demos", 3)
    n_iter = 1 + g.choice("n_iter", 3)
    Ts, Ys, ns = demonstrations(g, q, m)
    fr = g.freeze(*(Ts + Ys + [q.mean, q.cov]))
    early = g.flag("stops early")
    delta = g.real("min_delta", pos=True, sample=(0.0, 1.0)) if early else 0.0
    q.p.imitate(Ts, Ys, n_iter=n_iter, min_delta=delta)
    g.cover("imitation of demonstrations")
    N = q.nd * q.nw
    stats = [statistics(g, q, T, Y, n) for T, Y, n in zip(Ts, Ys, ns)]
    A, b, e = zip(*stats)
    q.variance = 1.0
    for it in range(n_iter):
        means, covs = zip(*[posterior(g, q, N, A[i], b[i]) for i in range(m)])
        old = q.mean
        q.mean, q.cov, q.variance = updated(g, q, m, means, covs, A, b, e, sum(ns))
        change = g.np.linalg.norm(q.mean - old)
        g.assume(abs(change - delta) > 1e-6 or not early)
        if change < delta:
            break
    g.eq("imitation: mean of the weights", q.p.weight_mean, q.mean)
    g.eq("imitation: covariance of the weights", q.p.weight_cov, q.cov)
    g.eq("imitation: variance of the noise", q.p.variance, q.variance)
    g.eq("imitation: covariance symmetric", q.p.weight_cov, q.p.weight_cov.T)
    low = g.np.min(g.np.linalg.eigvalsh(q.p.weight_cov))
    g.true("imitation: covariance positive semi-definite",
           low >= -1e-9 * g.np.max(g.np.abs(q.p.weight_cov)))
    g.frame("imitation leaves the demonstrations unchanged", fr)


check_fit.symbolic = None
