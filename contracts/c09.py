"""C09: an open-loop rollout is repeated stepping and leaves no trace."""
from . import prims, spec
from .c10 import TOL, arbitrary_state, compare

FUNCTIONS = ["dmp._dmp.DMP.open_loop", "dmp._dmp.dmp_open_loop",
             "dmp._cartesian_dmp.CartesianDMP.open_loop",
             "dmp._cartesian_dmp.dmp_open_loop_quaternion",
             "dmp._dual_cartesian_dmp.DualCartesianDMP.open_loop",
             "dmp._dmp_with_final_velocity.DMPWithFinalVelocity.open_loop",
             "dmp._state_following_dmp.StateFollowingDMP.open_loop",
             "dmp._state_following_dmp.state_following_dmp_open_loop",
             "spring_damper.SpringDamper.open_loop",
             "spring_damper.SpringDamperOrientation.open_loop",
             "spring_damper.spring_damper_open_loop",
             "spring_damper.spring_damper_open_loop_quaternion",
             "base.PointToPointMovement.n_steps_open_loop"]


def parts(g, q):
    """Independent parts of the state: name, positions, velocities."""
    if q.kind == "cartesian":
        return [("position", slice(0, 3), slice(0, 3)), ("orientation", slice(3, 7), slice(3, 6))]
    return [("state", slice(0, q.ny), slice(0, q.nv))]


def rollout(g, q, n):
    """Sequences of states of the parts of a rollout with n steps."""
    s = q.s
    out = []
    for name, ys, vs in parts(g, q):
        def step(st, k, name=name):
            te = prims.error(g, q, st["y"], st["y"])
            t = (k + 1) * s.dt
            y, yd = prims.advance(g, q, st["t"], t, st["y"], st["yd"], te, part=name)
            return dict(y=y, yd=yd, t=t)
        quats = prims.quaternions(q, name)
        out.append(g.seq("rollout %s" % name, dict(y=s.start_y[ys], yd=s.start_yd[vs], t=0.0),
                         step, n, quats={"y": quats} if quats else {},
                         closed={"t": lambda k: k * s.dt}))
    return out


def _rollout(g, M, kind, stepper=None):
    q = prims.build(g, M, kind, stepper=stepper)
    p, s = q.p, q.s
    prims.configure(q)
    again = g.flag("second rollout")
    if not again:
        arbitrary_state(g, q)
    # run times are multiples of the time step, not necessarily whole ones
    default = not kind.startswith("spring") and g.flag("run to the end")
    if default:
        run_t, steps = None, s.duration / s.dt
    else:
        steps = g.time("steps", nonneg=True)
        run_t = steps * s.dt
    n = g.ceil(steps)
    if not g.sym and n > 40:
        g.skip()
    seqs = rollout(g, q, n)
    fr = g.freeze(*prims.config_arrays(q))
    before = q.p.t
    T, Y = prims.open_loop(q, run_t)
    g.cover("rollout of %s" % kind)
    g.true("%s: rollout leaves the time or resets it" % kind, (q.p.t == before) | (q.p.t == 0.0))
    g.frame("%s: rollout leaves the configuration unchanged" % kind, fr)
    if again:
        T, Y = prims.open_loop(q, run_t)
    what = "%s: second rollout" % kind if again else "%s: rollout" % kind
    g.eq("%s: number of times" % what, T.shape, (n + 1,))
    g.eq("%s: number of samples" % what, Y.shape, (n + 1, q.ny))
    k = g.idx("sample", n + 1)
    g.eq("%s: times are spaced by the time step" % what, T[k], k * s.dt)
    if k == 0:
        g.eq("%s: starts at the configured start" % what, Y[0], s.start_y)
    else:
        want = g.np.concatenate([seq.at(k)["y"] for seq in seqs])
        compare(g, "%s: each sample is one step from the one before" % what, kind, Y[k], want)
    g.frame("%s: second rollout leaves the configuration unchanged" % kind, fr)


def check_steps(g, M):
    """n steps in one call are n single steps."""
    q = prims.build(g, M, "spring", coupling=False)
    p, s = q.p, q.s
    prims.configure(q)
    elapsed, _, _ = arbitrary_state(g, q)
    y, yd = prims.state(g, q, "given_y")
    n = g.dim("n_steps", 0)

    def step(st, k):
        t = elapsed + (k + 1) * s.dt
        ny, nyd = prims.advance(g, q, st["t"], t, st["y"], st["yd"], None)
        return dict(y=ny, yd=nyd, t=t)
    seq = g.seq("steps", dict(y=y, yd=yd, t=elapsed), step, n,
                closed={"t": lambda k: elapsed + k * s.dt})
    fr = g.freeze(y, yd, *prims.config_arrays(q))
    ry, ryd = p.n_steps_open_loop(y, yd, n)
    g.cover("n steps")
    g.eq("n steps: state", ry, seq.at(n)["y"])
    g.eq("n steps: velocity", ryd, seq.at(n)["yd"])
    g.frame("n steps: arguments and configuration unchanged", fr)


def _add(kind, stepper=None):
    def check(g, M):
        _rollout(g, M, kind, stepper)
    name = kind if stepper is None else "%s %s" % (kind, stepper.replace("-", " "))
    globals()["check_" + name.replace(" ", "_")] = check


for _k in prims.KINDS:
    if _k in ("position", "cartesian"):
        for _s in prims.STEPPERS:
            _add(_k, _s)
    else:
        _add(_k)
