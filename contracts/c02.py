"""C02: forcing term."""
FUNCTIONS = ["dmp._forcing_term.ForcingTerm"]


def setup(g, M, T=None):
    nd = g.dim("n_dims", 1)
    nw = g.dim("n_weights", 2)
    if T is None:
        start = g.time("start_t")
        dur = g.time("duration", pos=True)
    else:
        start, dur = T[0], T[-1] - T[0]
    overlap = g.real("overlap", pos=True, sample=(0.05, 0.95))
    g.assume(overlap < 1)
    alpha = g.real("alpha_z", pos=True, sample=(0.5, 6.0))
    ft = M("dmp._forcing_term").ForcingTerm(nd, nw, start + dur, start, overlap, alpha)
    return nd, nw, start, dur, overlap, alpha, ft


def arbitrary(g, M, T=None):
    """Forcing term with arbitrary weights and basis functions."""
    nd, nw, start, dur, overlap, alpha, ft = setup(g, M, T)
    ft.weights_[:, :] = g.arr("weights", nd, nw)
    ft.centers[:] = g.arr("centers", nw, sample=(0.0, 1.0))
    ft.widths[:] = g.arr("widths", nw, sample=(1.0, 20.0))
    return nd, nw, ft


def centre(g, alpha, i, nw):
    return g.np.exp(-alpha * i / (nw - 1))


def check_basis(g, M):
    nd, nw, start, dur, overlap, alpha, ft = setup(g, M)
    g.cover("forcing term")
    g.eq("shape", ft.shape, (nd, nw))
    g.eq("weights start at zero", ft.weights_, g.np.zeros((nd, nw)))
    i = g.idx("i", nw)
    g.eq("centres are the phases of equally spaced times", ft.centers[i], centre(g, alpha, i, nw))
    g.eq("phase of the centre's time", ft.phase(start + dur * i / (nw - 1)), ft.centers[i])
    j = g.idx("j", nw - 1)
    d = ft.centers[j + 1] - ft.centers[j]
    g.eq("basis has decayed to the overlap at the next centre",
         g.np.exp(-ft.widths[j] * d * d), overlap)
    g.eq("last basis is as wide as the one before", ft.widths[nw - 1], ft.widths[nw - 2])


def check_activations(g, M):
    nd, nw, ft = arbitrary(g, M)
    nt = g.dim("n_steps", 1)
    z = g.arr("z", nt, sample=(0.0, 1.5))
    fr = g.freeze(z, ft)
    a = ft._activations(z)
    g.cover("activations")
    g.eq("one activation per basis function and phase", a.shape, (nw, nt))
    k = g.idx("k", nt)
    g.eq("activations sum to one", g.np.sum(a[:, k]), 1.0)
    i = g.idx("i", nw)
    g.lt("activations are positive", 0.0, a[i, k], slack=0.0)
    g.frame("computing activations modifies nothing", fr)


def check_mixture(g, M):
    nd, nw, ft = arbitrary(g, M)
    nt = g.dim("n_steps", 1)
    z = g.arr("z", nt, sample=(0.0, 1.5))
    fr = g.freeze(z, ft)
    f = ft.forcing_term(z)
    a = ft._activations(z)
    g.cover("mixture")
    g.eq("one force per dimension and phase", f.shape, (nd, nt))
    d, k = g.idx("d", nd), g.idx("k", nt)
    g.eq("force is phase times weighted mixture", f[d, k],
         z[k] * g.np.sum(ft.weights_[d, :] * a[:, k]))
    # normalised radial basis functions of the phase
    b = g.np.exp(-ft.widths * (z[k] - ft.centers) ** 2)
    g.eq("mixture of normalised Gaussian basis functions", f[d, k],
         z[k] * g.np.sum(ft.weights_[d, :] * b) / g.np.sum(b))
    g.eq("scalar phase", ft.forcing_term(z[k])[d, 0], f[d, k])
    t = g.real("t", sample=(-2.0, 3.0))
    g.eq("calling evaluates at the phase of the time", ft(t), ft.forcing_term(ft.phase(t)))
    g.frame("evaluating the forcing term modifies nothing", fr)


def check_features(g, M):
    nt = g.dim("n_steps", 2)
    T = g.times("T", nt)
    nd, nw, ft = arbitrary(g, M, T)
    fr = g.freeze(T, ft)
    X = ft.design_matrix(T)
    g.cover("features")
    g.eq("one feature per basis function and time", X.shape, (nw, nt))
    k, d = g.idx("k", nt), g.idx("d", nd)
    g.eq("fitted features are the executed features", g.np.sum(ft.weights_[d, :] * X[:, k]),
         ft(T[k])[d, 0])
    g.frame("computing features modifies nothing", fr)


def check_rejects(g, M):
    F = M("dmp._forcing_term").ForcingTerm
    start, goal = g.time("start_t"), g.time("goal_t")
    nw = g.int("n_weights", 0, 4)
    if nw <= 1:
        g.cover("too few weights")
        g.raises("fewer than two weights are rejected", ValueError,
                 lambda: F(2, nw, goal, start, 0.8, 4.0))
    elif goal <= start:
        g.cover("end before start")
        g.raises("end time not after start time is rejected", ValueError,
                 lambda: F(2, nw, goal, start, 0.8, 4.0))
