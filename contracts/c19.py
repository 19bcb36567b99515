"""C19: conditioning of a ProMP."""
from .c18 import basis, model

FUNCTIONS = ["promp.ProMP.condition_position", "promp.via_points",
             "promp.ProMP.from_weight_distribution", "promp.ProMP._rbfs_1d_point",
             "promp._nd_block_diagonal"]


def posterior(g, q, y, y_cov, t):
    """Gaussian posterior of the weights given position y at time t."""
    nd, nw, N = q.nd, q.nw, q.nd * q.nw

    def phi(a):
        return basis(g, q, t, a)

    def cross(r, d):            # covariance of weight r and position d
        return g.sum(nw, lambda a: q.cov[r, d * nw + a] * phi(a))
    S = g.stack(nd, lambda d: g.stack(nd, lambda e: g.sum(nw, lambda a: phi(a) * cross(
        d * nw + a, e)) + (0.0 if y_cov is None else y_cov[d, e])), nd)
    P = g.np.linalg.inv(S)

    def gain(r, d):
        return g.sum(nd, lambda e: cross(r, e) * P[e, d])

    def mean(r):
        return q.mean[r] + g.sum(nd, lambda d: gain(r, d) * (
            y[d] - g.sum(nw, lambda a: phi(a) * q.mean[d * nw + a])))

    def cov(r, s):
        return q.cov[r, s] - g.sum(nd, lambda d: gain(r, d) * cross(s, d))
    return mean, cov


def check_posterior(g, M):
    q = model(g, M)
    y = g.arr("y", q.nd)
    y_cov = g.psd("y_cov", q.nd) if g.flag("uncertain") else None
    t_max = g.time("t_max", pos=True)
    t = g.real("fraction", nonneg=True, sample=(0.0, 1.0)) * t_max
    fr = g.freeze(q.mean, q.cov, y, *([] if y_cov is None else [y_cov]))
    mean, cov = posterior(g, q, y, y_cov, t / t_max)
    if not g.sym and g.flag("used before"):
        q.p.condition_position(y + 1.0, y_cov, t if g.flag("same time") else 0.5 * t, t_max)
    with g.pure(q.p):
        c = q.p.condition_position(y, y_cov, t, t_max)
    g.cover("conditioned")
    N = q.nd * q.nw
    r, s = g.idx("weight", N), g.idx("other weight", N)
    g.eq("number of dimensions", c.n_dims, q.nd)
    g.eq("number of weights", c.n_weights_per_dim, q.nw)
    g.eq("posterior mean: shape", c.weight_mean.shape, (N,))
    g.eq("posterior covariance: shape", c.weight_cov.shape, (N, N))
    g.eq("posterior mean", c.weight_mean[r], mean(r))
    g.eq("posterior covariance", c.weight_cov[r, s], cov(r, s))
    g.frame("the original model and the arguments are unchanged", fr)
    g.eq("the original model keeps its mean", q.p.weight_mean, q.mean)
    g.eq("the original model keeps its covariance", q.p.weight_cov, q.cov)
    c.weight_mean[r] = c.weight_mean[r] + 1.0
    c.weight_cov[r, s] = c.weight_cov[r, s] + 1.0
    g.frame("the conditioned model is independent of the original", fr)


def check_through_observation(g, M):
    """Without observation noise the mean passes through the observation."""
    q = model(g, M, nd=g.choice("dimensions", 2) + 1)
    y = g.arr("y", q.nd)
    T = g.times("T", g.dim("n_steps", 2))
    n = T.shape[0]
    g.assume(T[0] >= 0.0)
    k = g.idx("step", n)
    zero = g.np.zeros((q.nd, q.nd)) if g.flag("zero covariance") else None
    c = q.p.condition_position(y, zero, T[k], T[n - 1])
    g.cover("conditioned without noise")
    Y = c.mean_trajectory(T)
    V = c.cov_trajectory(T)
    d, e = g.idx("dim", q.nd), g.idx("other dim", q.nd)
    g.eq("mean passes through the observation", Y[k, d], y[d])
    g.eq("no variance at the observation", V[d * n + k, e * n + k], 0.0)


def check_via_points(g, M):
    """Several via-points are conditioned on one after the other."""
    n = g.dim("n_viapoints", 1)
    ts = g.arr("ts", n)
    nd = g.dim("n_dims", 1)
    flat = g.flag("one dimension without axis")
    shape = (n,) if flat else (n, nd)
    y = g.arr("y", *shape)
    cov = g.arr("cov", *(shape if flat else shape + (nd,))) if g.flag("uncertain") else None
    states = []

    class Conditioned:
        """A model after conditioning on the first k via-points."""

        def __init__(self, k):
            self.k = k

        def __seq_at__(self, k):
            return Conditioned(k)

        def condition_position(self, y_mean, y_cov=None, t=0, t_max=1.0):
            k = self.k
            g.eq("via-points: observed position", y_mean, y[k])
            if cov is None:
                if y_cov is not None:
                    g.eq("via-points: no observation covariance", y_cov, 0.0 * y[k])
            else:
                g.eq("via-points: observation covariance", y_cov, cov[k])
            g.eq("via-points: time relative to the end", t / t_max, ts[k])
            return Conditioned(k + 1)
    seq = g.seq("via-points", dict(k=0), lambda st, k: dict(k=k + 1), n,
                closed={"k": lambda k: k})
    fr = g.freeze(ts, y, *([] if cov is None else [cov]))
    first = Conditioned(0)
    last = M("promp").via_points(first, ts, y, cov)
    g.cover("via-points")
    g.eq("via-points: number of observations", last.k, n)
    g.eq("via-points: the original model is not the result", first.k, 0)
    g.frame("via-points are unchanged", fr)
