"""C27: potential field of a DMP in the plane."""
from . import c17

FUNCTIONS = ["dmp_potential_field.potential_field_2d", "dmp._dmp.dmp_transformation_system"]
ASSUMPTIONS = ["velocity and direction to the obstacle are not parallel where the evaluated "
               "contract compares the obstacle part with the avoidance law"]


def make(g, M):
    """DMP in an arbitrary state."""
    nw = g.dim("n_weights", 2)
    tau = g.time("execution_time", pos=True)
    smooth = g.flag("smooth scaling")
    dmp = M("dmp._dmp").DMP(n_dims=2, execution_time=tau, dt=0.01, n_weights_per_dim=nw,
                            smooth_scaling=smooth)
    dmp.forcing_term.weights_[:, :] = g.arr("weights", 2, nw)
    dmp.configure(start_y=g.arr("start", 2), goal_y=g.arr("goal", 2))
    dmp.current_y, dmp.current_yd = g.arr("current_y", 2), g.arr("current_yd", 2)
    dmp.alpha_y, dmp.beta_y = g.arr("alpha_y", 2), g.arr("beta_y", 2)
    dmp.t = tau * g.real("part", sample=(0.0, 1.2))
    return dmp, tau, smooth


def grid(g):
    x, y = g.arr("x_range", 2), g.arr("y_range", 2)
    return x, y, g.int("n_ticks", 2)


def check_field(g, M):
    dmp, tau, smooth = make(g, M)
    xr, yr, n = grid(g)
    obstacle = None
    if g.flag("with obstacle"):
        obstacle = g.arr("obstacle", 2)
    f = dmp.forcing_term(dmp.t)
    z = dmp.forcing_term.phase(dmp.t)
    v = dmp.current_yd
    fr = g.freeze(dmp, dmp.forcing_term, dmp.current_y, dmp.current_yd, dmp.start_y, dmp.goal_y,
                  dmp.alpha_y, dmp.beta_y, dmp.forcing_term.weights_)
    A, calls = g.arr("avoidance", n, n, 2), []

    def avoidance(y, yd, obstacle_position, gamma=1000.0, beta=20.0 / g.np.pi):
        calls.append((y, yd, obstacle_position, gamma, beta))
        return A
    g.stub(M("dmp_potential_field"), "obstacle_avoidance_acceleration_2d", avoidance)
    xx, yy, ft, ts, ct, acc = M("dmp_potential_field").potential_field_2d(
        dmp, (xr[0], xr[1]), (yr[0], yr[1]), n, obstacle)
    g.cover("potential field")
    g.frame("DMP is not modified", fr)
    i, j = g.idx("i", n), g.idx("j", n)
    for name, a in [("forcing", ft), ("transformation", ts), ("obstacle", ct), ("sum", acc)]:
        g.eq("shape of %s part" % name, a.shape, (n, n, 2))
    x = xr[0] + (xr[1] - xr[0]) * j / (n - 1)
    y = yr[0] + (yr[1] - yr[0]) * i / (n - 1)
    g.eq("x coordinates", xx[i, j], x)
    g.eq("y coordinates", yy[i, j], y)
    p = g.np.array([x, y])
    for k in range(2):
        s = dmp.beta_y[k] * (dmp.goal_y[k] - dmp.start_y[k]) * z if smooth else 0.0
        acc_ts = dmp.alpha_y[k] * (dmp.beta_y[k] * (dmp.goal_y[k] - p[k]) - tau * v[k] - s)
        g.eq("transformation system part", ts[i, j, k], acc_ts / (tau * tau))
        g.eq("forcing part", ft[i, j, k], f[k, 0] / (tau * tau))
        if obstacle is None:
            g.eq("no obstacle part", ct[i, j, k], 0.0)
        g.eq("sum of the parts", acc[i, j, k], ft[i, j, k] + ts[i, j, k] + ct[i, j, k])
    if calls:
        (Y, V, o, gamma, beta), = calls
        g.eq("avoidance at the grid points", Y[i, j], p)
        g.eq("avoidance for the current velocity", V[i, j], v)
        g.eq("avoidance of the obstacle", o, obstacle)
        g.eq("default strength", gamma, 1000.0)
        g.eq("default decay", beta, 20.0 / g.np.pi)
        g.eq("obstacle part", ct[i, j], A[i, j] / (tau * tau))
    elif obstacle is not None:
        d = g.np.array([obstacle[0] - x, obstacle[1] - y])
        a = c17.law_2d(g, d, v, 1000.0, 20.0 / g.np.pi)
        g.eq("obstacle part", ct[i, j], a / (tau * tau))
