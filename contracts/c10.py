"""C10: step, configure and reset."""
from . import prims

FUNCTIONS = ["base.PointToPointMovement.configure", "utils.check_1d_array_length",
             "utils.ensure_1d_array",
             "dmp._base.DMPBase.reset", "dmp._dmp.DMP.step",
             "dmp._cartesian_dmp.CartesianDMP.step",
             "dmp._dual_cartesian_dmp.DualCartesianDMP.step",
             "dmp._dmp_with_final_velocity.DMPWithFinalVelocity.step",
             "dmp._state_following_dmp.StateFollowingDMP.step",
             "spring_damper.SpringDamper.step", "spring_damper.SpringDamperOrientation.step",
             "spring_damper.SpringDamper.reset", "spring_damper.SpringDamperOrientation.reset"]

TOL = {"final velocity": 1e-5}


def compare(g, label, kind, a, b):
    """Equality of states; orientations up to the sign of the quaternion."""
    tol = TOL.get(kind)
    if g.sym or kind not in ("cartesian", "dual", "spring orientation"):
        g.eq(label, a, b, tol=tol)
        return
    parts = {"cartesian": ((slice(0, 3), slice(3, 7)),), "spring orientation": ((None, slice(0, 4)),),
             "dual": ((slice(0, 3), slice(3, 7)), (slice(7, 10), slice(10, 14)))}[kind]
    g.eq(label, a.shape, b.shape)
    for p, o in parts:
        if p is not None:
            g.eq(label, a[p], b[p], tol=tol)
        g.same_rotation(label, a[o], b[o])


def arbitrary_state(g, q):
    """Any state a sequence of earlier calls may have left."""
    p = q.p
    elapsed = g.time("elapsed", nonneg=True)
    p.configure(t=elapsed)
    if g.flag("stepped before"):
        y, yd = prims.state(g, q, "current_y")
        p.current_y, p.current_yd = g.np.copy(y), g.np.copy(yd)
        p.initialized = True
        p.last_t = elapsed - q.s.dt
        return elapsed, y, yd
    return elapsed, q.s.start_y, q.s.start_yd


def verify_step(g, q, elapsed, cy, cyd):
    """One step from a state of the primitive."""
    kind, p, s = q.kind, q.p, q.s
    y, yd = prims.state(g, q, "given_y")
    fr = g.freeze(y, yd, *prims.config_arrays(q))
    t = elapsed + s.dt
    te = prims.error(g, q, cy, y)
    from_y, from_yd = (y, yd) if q.overwrites else (cy, cyd)
    want_y, want_yd = prims.advance(g, q, elapsed, t, from_y, from_yd, te)
    ry, ryd = prims.step(q, y, yd)
    g.cover("step of %s" % kind)
    g.eq("%s: time advances by one time step" % kind, p.t, t)
    compare(g, "%s: new state" % kind, kind, ry, want_y)
    g.eq("%s: new velocity" % kind, ryd, want_yd, tol=TOL.get(kind))
    g.frame("%s: step leaves its arguments and the configuration unchanged" % kind, fr)
    # results are independent of the primitive
    ry0, ryd0 = g.np.copy(ry), g.np.copy(ryd)
    ry[0] = ry[0] + 1.0
    ryd[0] = ryd[0] + 1.0
    g.eq("%s: changing the result leaves the primitive's state unchanged" % kind,
         p.current_y, ry0)
    g.eq("%s: changing the result leaves the primitive's velocity unchanged" % kind,
         p.current_yd, ryd0)
    g.frame("%s: changing the result leaves arguments and configuration unchanged" % kind, fr)


def _step(g, M, kind):
    q = prims.build(g, M, kind)
    prims.configure(q)
    elapsed, cy, cyd = arbitrary_state(g, q)
    verify_step(g, q, elapsed, cy, cyd)


def _continue(g, M, kind):
    """A step after the first one continues from the state that one reached."""
    q = prims.build(g, M, kind, coupling=False)
    prims.configure(q)
    p, s = q.p, q.s
    y, yd = prims.state(g, q, "first_y")
    from_y, from_yd = (y, yd) if q.overwrites else (s.start_y, s.start_yd)
    prims.advance(g, q, 0.0, s.dt, from_y, from_yd, prims.error(g, q, s.start_y, y))
    prims.step(q, y, yd)
    if g.sym:
        # whatever it is
        y, yd = prims.state(g, q, "reached_y")
        p.current_y, p.current_yd = g.np.copy(y), g.np.copy(yd)
    else:
        y, yd = g.np.copy(p.current_y), g.np.copy(p.current_yd)
    verify_step(g, q, s.dt, y, yd)


def _reset(g, M, kind):
    q = prims.build(g, M, kind, coupling=False)
    prims.configure(q)
    arbitrary_state(g, q)
    p, s = q.p, q.s
    fr = g.freeze(*prims.config_arrays(q))
    p.reset()
    g.cover("reset of %s" % kind)
    g.eq("%s: reset restores time zero" % kind, p.t, 0.0)
    if not kind.startswith("spring"):
        g.eq("%s: reset restores the start" % kind, p.current_y, s.start_y, 1e-12)
        g.eq("%s: reset restores the start velocity" % kind, p.current_yd, s.start_yd, 1e-12)
    g.frame("%s: reset leaves the configuration unchanged" % kind, fr)
    verify_step(g, q, 0.0, s.start_y, s.start_yd)


QUANTITIES = ("t", "start_y", "start_yd", "start_ydd", "goal_y", "goal_yd", "goal_ydd")


def simple(g, M, kind):
    """A primitive with default parameters."""
    n = g.dim("n", 1) if kind not in prims.FIXED else None
    ny, nv = prims.FIXED.get(kind, (n, n))
    p = {"position": lambda: M("dmp._dmp").DMP(n),
         "cartesian": lambda: M("dmp._cartesian_dmp").CartesianDMP(),
         "dual": lambda: M("dmp._dual_cartesian_dmp").DualCartesianDMP(),
         "final velocity": lambda: M("dmp._dmp_with_final_velocity").DMPWithFinalVelocity(n),
         "state following": lambda: M("dmp._state_following_dmp").StateFollowingDMP(n, 1.0),
         "spring": lambda: M("spring_damper").SpringDamper(n),
         "spring orientation": lambda: M("spring_damper").SpringDamperOrientation()}[kind]()
    size = {k: ny if k.endswith("_y") else nv for k in QUANTITIES}
    return p, size


def _configure(g, M, kind):
    p, size = simple(g, M, kind)
    draw = lambda tag: {k: g.time(tag + k, nonneg=True) if k == "t" else
                        g.arr(tag + k, size[k]) for k in QUANTITIES}
    old, new = draw("old_"), draw("new_")
    p.configure(**old)
    others = g.freeze(p.current_y, p.current_yd)
    k = g.choice("which", len(QUANTITIES) + 1)
    given = QUANTITIES if k == len(QUANTITIES) else (QUANTITIES[k],)
    fr = g.freeze(*[v for x, v in list(new.items()) + list(old.items()) if x != "t"])
    p.configure(**{x: new[x] for x in given})
    g.cover("configuring %s" % kind)
    for x in QUANTITIES:
        if x in given:
            g.eq("%s: configuring sets %s" % (kind, x), getattr(p, x), new[x], 1e-12)
        else:
            g.eq("%s: configuring leaves %s unchanged" % (kind, x), getattr(p, x), old[x], 1e-12)
    g.frame("%s: configuring leaves the given arrays unchanged" % kind, fr)
    g.frame("%s: configuring leaves the state unchanged" % kind, others)
    # wrong length
    x = QUANTITIES[1 + g.choice("wrong", len(QUANTITIES) - 1)]
    m = g.dim("wrong length", 1, 20)
    if g.sym:
        g.assume((m < size[x]) | (m > size[x]))
    elif m == size[x]:
        g.skip()
    before = getattr(p, x)
    bad = g.arr("bad", m)
    g.raises("%s: %s of wrong length is rejected" % (kind, x), ValueError,
             lambda: p.configure(**{x: bad}))
    g.eq("%s: rejected %s leaves the old one" % (kind, x), getattr(p, x), before, 1e-12)


def _gains(g, M, kind):
    """Gains are one number for all dimensions or one per dimension."""
    n = g.dim("n_dims", 1)
    nv = prims.FIXED.get(kind, (n, n))[1]
    cls = {"position": lambda **k: M("dmp._dmp").DMP(n, **k),
           "cartesian": lambda **k: M("dmp._cartesian_dmp").CartesianDMP(**k),
           "dual": lambda **k: M("dmp._dual_cartesian_dmp").DualCartesianDMP(**k),
           "final velocity": lambda **k: M("dmp._dmp_with_final_velocity")
           .DMPWithFinalVelocity(n, **k),
           "state following": lambda **k: M("dmp._state_following_dmp")
           .StateFollowingDMP(n, 1.0, **k)}[kind]
    x, other = ("alpha_y", "beta_y") if g.flag("alpha") else ("beta_y", "alpha_y")
    default = getattr(cls(), other)
    i = g.idx("i", nv)
    g.cover("gains of %s" % kind)
    if g.flag("one number"):
        v = g.real("gain")
        a = getattr(cls(**{x: v}), x)
        g.eq("%s: one gain per dimension" % kind, a.shape, (nv,))
        g.eq("%s: gain of every dimension" % kind, a[i], v, 1e-12)
        return
    v = g.arr("gains", nv)
    fr = g.freeze(v)
    p = cls(**{x: v})
    g.eq("%s: gains as given" % kind, getattr(p, x), v, 1e-12)
    g.eq("%s: other gains are the default ones" % kind, getattr(p, other), default)
    g.no_alias("%s: gains are copied" % kind, getattr(p, x), [v])
    g.frame("%s: gains are not modified" % kind, fr)
    m = g.dim("wrong length", 2, 20)
    if g.sym:
        g.assume((m < nv) | (m > nv))
    elif m == nv:
        g.skip()
    bad = g.arr("bad", m)
    g.raises("%s: gains of wrong length are rejected" % kind, ValueError, lambda: cls(**{x: bad}))
    flat = g.arr("matrix", nv, g.dim("columns", 1))
    g.raises("%s: matrices of gains are rejected" % kind, ValueError, lambda: cls(**{x: flat}))


def _add(kind):
    def gains(g, M):
        _gains(g, M, kind)
    if not kind.startswith("spring"):
        globals()["check_gains_" + kind.replace(" ", "_")] = gains

    def step(g, M):
        _step(g, M, kind)

    def continued(g, M):
        _continue(g, M, kind)
    if not kind.startswith("spring"):
        globals()["check_continue_" + kind.replace(" ", "_")] = continued

    def reset(g, M):
        _reset(g, M, kind)

    def configure(g, M):
        _configure(g, M, kind)
    for f, name in ((step, "step"), (reset, "reset"), (configure, "configure")):
        globals()["check_%s_%s" % (name, kind.replace(" ", "_"))] = f


for _k in prims.KINDS:
    _add(_k)
