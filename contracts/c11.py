"""C11: weights survive access and change of duration."""
FUNCTIONS = ["dmp._base.WeightParametersMixin.get_weights",
             "dmp._base.WeightParametersMixin.set_weights",
             "dmp._base.WeightParametersMixin.n_weights",
             "dmp._cartesian_dmp.CartesianDMP.get_weights",
             "dmp._cartesian_dmp.CartesianDMP.set_weights",
             "dmp._dmp.DMP.set_execution_time_",
             "dmp._cartesian_dmp.CartesianDMP.set_execution_time_",
             "dmp._dual_cartesian_dmp.DualCartesianDMP.set_execution_time_",
             "dmp._dmp_with_final_velocity.DMPWithFinalVelocity.set_execution_time_"]

EXACT = 1e-12                      # of evaluations: weights are only stored


def make(g, M, kind, tau, m, n=None):
    """A primitive, its number of force dimensions and its forcing terms with
    the dimensions they serve."""
    if kind == "cartesian":
        p = M("dmp._cartesian_dmp").CartesianDMP(execution_time=tau, n_weights_per_dim=m)
        return p, 6, [("forcing_term_pos", 0, 3), ("forcing_term_rot", 3, 3)]
    if kind == "dual":
        p = M("dmp._dual_cartesian_dmp").DualCartesianDMP(execution_time=tau, n_weights_per_dim=m)
        return p, 12, [("forcing_term", 0, 12)]
    n = n or g.dim("n", 1)
    if kind == "position":
        p = M("dmp._dmp").DMP(n, execution_time=tau, n_weights_per_dim=m)
    else:
        p = M("dmp._dmp_with_final_velocity").DMPWithFinalVelocity(
            n, execution_time=tau, n_weights_per_dim=m)
    return p, n, [("forcing_term", 0, n)]


def _access(g, M, kind):
    m = g.dim("n_weights_per_dim", 2)
    tau = g.time("execution_time", pos=True)
    p, n, parts = make(g, M, kind, tau, m)
    w0, w = g.arr("old_weights", n * m), g.arr("weights", n * m)
    p.set_weights(w0)
    before = p.get_weights()
    fr = g.freeze(w)
    p.set_weights(w)
    g.cover(kind)
    g.frame("%s: writing weights leaves the given vector unchanged" % kind, fr)
    r = p.get_weights()
    g.eq("%s: weights read are those written" % kind, r, w, EXACT)
    g.eq("%s: weights read earlier are not changed by writing" % kind, before, w0)
    if hasattr(p, "n_weights"):
        g.eq("%s: reported number of weights" % kind, p.n_weights, n * m)
    g.eq("%s: length of the weight vector" % kind, r.shape[0], n * m)
    p.set_weights(r)
    g.eq("%s: writing back what was read changes nothing" % kind, p.get_weights(), w, EXACT)
    # entries
    i = g.idx("basis", m)
    name, first, count = parts[g.choice("part", len(parts))]
    d = g.idx("dimension of %s" % name, count)
    g.eq("%s: entry of a dimension and basis function" % kind,
         getattr(p, name).weights_[d, i], w[(first + d) * m + i], EXACT)
    # independent of the primitive
    r[0] = r[0] + 1.0
    g.eq("%s: vector read is independent of the primitive" % kind, p.get_weights(), w, EXACT)
    w[0] = w[0] + 1.0
    w[0] = w[0] - 1.0
    keep = g.np.copy(w)
    w[0] = w[0] + 2.0
    g.eq("%s: vector written is independent of the primitive" % kind, p.get_weights(), keep, EXACT)


def _duration(g, M, kind):
    m = g.dim("n_weights_per_dim", 2)
    tau, tau2 = g.time("execution_time", pos=True), g.time("new_execution_time", pos=True)
    p, n, parts = make(g, M, kind, tau, m)
    w = g.arr("weights", n * m)
    p.set_weights(w)
    p.execution_time_ = tau2
    g.cover(kind)
    g.eq("%s: execution time is the one set" % kind, p.execution_time_, tau2)
    g.eq("%s: weights are kept when the duration changes" % kind, p.get_weights(), w, EXACT)
    for name, first, count in parts:
        f = getattr(p, name)
        g.eq("%s: phase starts at one" % kind, f.phase(0.0), 1.0)
        g.eq("%s: phase ends at its final value" % kind, f.phase(tau2), 0.01)
        t = g.time("t", nonneg=True)
        fresh, _, _ = make(g, M, kind, tau2, m, n)
        fresh.set_weights(w)
        ft = getattr(fresh, name)
        g.eq("%s: phase after the change is that of a new primitive" % kind,
             f.phase(t), ft.phase(t))
        i = g.idx("basis", m)
        g.eq("%s: basis after the change is that of a new primitive" % kind,
             f.centers[i], ft.centers[i])
        if not g.sym:
            z = g.real("z", sample=(0.05, 1.0))
            g.eq("%s: forces after the change are those of a new primitive" % kind,
                 f.forcing_term(z), ft.forcing_term(z))
    p.execution_time_ = tau
    g.eq("%s: weights are kept when the duration changes again" % kind, p.get_weights(), w, EXACT)


def _add(kind):
    def access(g, M):
        _access(g, M, kind)

    def duration(g, M):
        _duration(g, M, kind)
    globals()["check_access_" + kind.replace(" ", "_")] = access
    globals()["check_duration_" + kind.replace(" ", "_")] = duration


for _k in ("position", "cartesian", "dual", "final velocity"):
    _add(_k)
