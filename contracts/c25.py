"""C25: state-following DMPs."""
from . import spec

FUNCTIONS = ["dmp._state_following_dmp.StateFollowingForcingTerm",
             "dmp._state_following_dmp.state_following_dmp_step",
             "dmp._state_following_dmp.StateFollowingDMP.step"]

MOD = "dmp._state_following_dmp"


def setup(g, M):
    s = spec.Setup()
    s.n = g.dim("n_dims", 1)
    s.nv = g.dim("n_viapoints", 2)
    s.start_t = g.time("start_t")
    s.duration = g.time("duration", pos=True)
    s.goal_t = s.start_t + s.duration
    s.overlap = g.real("overlap", pos=True, sample=(0.05, 0.95))
    g.assume(s.overlap < 1)
    s.alpha_z = g.real("alpha_z", pos=True, sample=(0.5, 6.0))
    s.ft = M(MOD).StateFollowingForcingTerm(
        s.n, s.nv, s.goal_t, s.start_t, s.overlap, s.alpha_z)
    return s


def arbitrary(g, M):
    """Forcing term with arbitrary via-points and basis functions."""
    s = setup(g, M)
    s.ft.viapoints[:, :] = g.arr("viapoints", s.nv, s.n)
    s.ft.centers[:] = g.arr("centers", s.nv, sample=(0.0, 1.0))
    s.ft.widths[:] = g.arr("widths", s.nv, sample=(1.0, 20.0))
    return s


def phase(g, s, t):
    return g.np.exp(-s.alpha_z * (t - s.start_t) / (s.goal_t - s.start_t))


def check_basis(g, M):
    s = setup(g, M)
    ft = s.ft
    g.cover("state following basis")
    g.eq("via-points start at zero", ft.viapoints, g.np.zeros((s.nv, s.n)))
    i = g.idx("i", s.nv)
    g.eq("centres are the phases of equally spaced times", ft.centers[i],
         phase(g, s, s.start_t + s.duration * i / s.nv))
    j = g.idx("j", s.nv - 1)
    d = ft.centers[j + 1] - ft.centers[j]
    g.eq("activation has decayed to the overlap at the next centre",
         g.np.exp(-ft.widths[j] * d * d), s.overlap)
    g.eq("last basis is as wide as the one before", ft.widths[s.nv - 1], ft.widths[s.nv - 2])


def check_activations(g, M):
    s = arbitrary(g, M)
    t = s.start_t + s.duration * g.real("part", sample=(0.0, 1.5))
    fr = g.freeze(s.ft)
    h = s.ft(t)
    g.cover("activations of via-points")
    g.eq("one activation per via-point", h.shape, (1, s.nv))
    i = g.idx("i", s.nv)
    g.eq("activations sum to one", g.np.sum(h[0]), 1.0)
    g.lt("activations are positive", 0.0, h[0, i], slack=0.0)
    g.eq("activations are normalised Gaussians of the phase", h[0], blend(g, s, t))
    g.frame("computing activations modifies nothing", fr)


def blend(g, s, t):
    b = g.np.exp(-s.ft.widths * (phase(g, s, t) - s.ft.centers) ** 2)
    return b / g.np.sum(b)


def step_setup(g, M):
    s = arbitrary(g, M)
    n = s.n
    s.elapsed = g.time("elapsed", nonneg=True)
    s.dt = g.time("dt", pos=True)
    s.last_t = s.start_t + s.elapsed
    s.t = s.last_t + s.dt
    s.int_dt = g.time("int_dt", pos=True)
    s.y, s.yd = g.arr("y", n), g.arr("yd", n)
    s.goal_y, s.start_y = g.arr("goal_y", n), g.arr("start_y", n)
    s.zero = g.np.zeros(n)
    s.alpha_y, s.beta_y = g.arr("alpha_y", n), g.arr("beta_y", n)
    spec.draw_coupling(g, s, n, n, both=True)
    s.add_coupling = True
    return s


def ghost(g, s, y0, yd0):
    tau = (s.goal_t - s.start_t) / 2
    via = s.ft.viapoints

    def step(st):
        dt = spec.substep(g, s, st["t"])
        tc = st["t"] + dt
        y, yd = st["y"], st["yd"]
        cd, cdd = spec.coupling_at(g, s, y, yd, s.n)
        h = blend(g, s, tc)
        pull = s.alpha_y * (s.beta_y * (via - y) - tau * yd)
        ydd = (g.np.sum(h[:, g.np.newaxis] * pull, axis=0) + cdd) / (tau * tau)
        yd2 = yd + dt * ydd + cd / tau
        return {"t": tc, "y": y + dt * yd2, "yd": yd2}
    return g.ghost(
        "state following", init={"t": s.last_t, "y": y0, "yd": yd0},
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


def check_step(g, M):
    s = step_setup(g, M)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = g.freeze(s.goal_y, s.start_y, s.alpha_y, s.beta_y, s.ft, *(s.precomputed or ()))
    want = ghost(g, s, s.y, s.yd)
    M(MOD).state_following_dmp_step(
        s.last_t, s.t, y, yd, s.goal_y, s.zero, s.zero, s.start_y, s.zero, s.zero,
        s.goal_t, s.start_t, s.alpha_y, s.beta_y, s.ft, coupling_term=s.coupling_term,
        coupling_term_precomputed=s.precomputed, int_dt=s.int_dt)
    g.cover("state following step")
    g.eq("state-following step: position", y, want.final["y"])
    g.eq("state-following step: velocity", yd, want.final["yd"])
    g.eq("state-following step covers the whole interval", want.final["t"], s.t)
    g.frame("state-following step modifies only the state", fr)


def check_result(g, M):
    """Results of earlier steps stay as they are."""
    n = g.dim("n_dims", 1)
    dmp = M(MOD).StateFollowingDMP(n, execution_time=1.0, dt=0.25, n_viapoints=3, int_dt=0.25)
    dmp.forcing_term.viapoints[:, :] = g.arr("viapoints", 3, n)
    y0, yd0 = g.arr("y", n), g.arr("yd", n)
    fr0 = g.freeze(y0, yd0)
    y1, yd1 = dmp.step(y0, yd0)
    fr1 = g.freeze(y1, yd1)
    g.cover("state following object")
    dmp.step(y1, yd1)
    g.frame("a step leaves the given state unchanged", fr0)
    g.frame("later steps leave earlier results unchanged", fr1)
    for r in (y1, yd1):
        g.no_alias("results do not share memory with the primitive", r,
                   [dmp.current_y, dmp.current_yd])
