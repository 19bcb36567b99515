"""C21: saving and loading."""
FUNCTIONS = ["io.write_json", "io.read_json", "io.write_yaml", "io.read_yaml", "io.write_pickle",
             "io.read_pickle", "io._recursive_to_dict", "io._recursive_from_dict",
             "io._dict_to_object"]
ASSUMPTIONS = ["json and yaml read back an equal value of what they wrote (lists for tuples in json), "
               "yaml's safe loader refuses anything but plain values, pickle reads back a structural "
               "copy; files are not touched by anyone else",
               "the state of a primitive is arbitrary in all numbers and arrays; arrays have at least "
               "one element"]

EXACT = 1e-14                      # of evaluations: files hold all digits
FORMATS = ("json", "yaml", "pickle")
KINDS = ("position", "final velocity", "cartesian", "dual", "state following", "probabilistic",
         "spring", "spring orientation", "minimum jerk")


def primitive(g, M, kind):
    """Object built by its constructor with arbitrary arguments."""
    n = g.dim("n_dims", 1)
    nw = g.dim("n_weights", 2)
    dt = g.real("dt", pos=True, sample=(0.01, 0.2))
    int_dt = g.real("int_dt", pos=True, sample=(0.001, 0.01))
    duration = g.real("execution_time", pos=True, sample=(0.2, 2.0))
    if not g.sym and g.flag("numpy numbers"):
        dt, int_dt, duration = g.np.float64(dt), g.np.float32(int_dt), g.np.float64(duration)
    if kind == "probabilistic":
        return M("promp").ProMP(n, nw), n, n
    if kind == "minimum jerk":
        return M("minimum_jerk_trajectory").MinimumJerkTrajectory(n, duration, dt), n, n
    if kind in ("spring", "spring orientation"):
        kw = dict(dt=dt, k=g.real("k", pos=True), int_dt=int_dt,
                  c=g.real("c") if g.flag("with damping") else None)
        if kind == "spring":
            return M("spring_damper").SpringDamper(n, **kw), n, n
        return M("spring_damper").SpringDamperOrientation(**kw), 4, 3
    kw = dict(execution_time=duration, dt=dt, int_dt=int_dt)
    if kind == "state following":
        return M("dmp._state_following_dmp").StateFollowingDMP(n, n_viapoints=nw, **kw), n, n
    kw["n_weights_per_dim"] = nw
    if kind in ("position", "dual", "cartesian"):
        kw["smooth_scaling"] = g.flag("smooth_scaling")
    if kind != "cartesian":
        kw["p_gain"] = g.real("p_gain")
    if kind == "position":
        return M("dmp._dmp").DMP(n, **kw), n, n
    if kind == "final velocity":
        return M("dmp._dmp_with_final_velocity").DMPWithFinalVelocity(n, **kw), n, n
    if kind == "cartesian":
        return M("dmp._cartesian_dmp").CartesianDMP(**kw), 7, 6
    return M("dmp._dual_cartesian_dmp").DualCartesianDMP(**kw), 14, 12


def is_object(v):
    return hasattr(v, "__dict__") and type(v).__module__.startswith("movement_primitives")


def arbitrary_state(g, o, name):
    """Any history ends in some values of the attributes."""
    for k, v in list(o.__dict__.items()):
        a = "%s.%s" % (name, k)
        if is_object(v):
            arbitrary_state(g, v, a)
        elif isinstance(v, g.np.ndarray):
            o.__dict__[k] = g.arr(a, *v.shape)
        elif k in ("t", "last_t", "start_t", "goal_t"):
            o.__dict__[k] = None if v is None and not g.flag(a + " set") else g.real(a)
        elif isinstance(v, bool):
            o.__dict__[k] = g.flag(a) if k == "initialized" else v


def history(g, p, kind, ny, nv):
    """A state reached by training, configuration and use; can it step?"""
    def pose(name):
        if kind == "cartesian":
            return g.np.concatenate((g.arr(name + ".p", 3), g.unit(name + ".q")))
        if kind == "dual":
            return g.np.concatenate([x for s in "ab" for x in (g.arr(name + s, 3),
                                                               g.unit(name + ".q" + s))])
        if kind == "spring orientation":
            return g.unit(name)
        return g.arr(name, ny)
    if kind == "probabilistic":
        if g.flag("trained"):
            n = p.n_weights
            A = g.arr("covariance", n, n)
            p.from_weight_distribution(g.arr("mean", n), A.dot(A.T))
        return True
    for k in ("alpha_y", "beta_y"):
        if hasattr(p, k) and g.flag(k + " given"):
            setattr(p, k, g.arr(k, nv, pos=True, sample=(5.0, 20.0)))
    if g.flag("trained"):
        if kind == "state following":
            p.forcing_term.viapoints[:] = g.arr("viapoints", *p.forcing_term.viapoints.shape)
        elif hasattr(p, "set_weights"):
            p.set_weights(g.arr("weights", *p.get_weights().shape))
    if hasattr(p, "execution_time_") and g.flag("other duration"):
        p.execution_time_ = g.real("new duration", pos=True, sample=(0.2, 2.0))
    if g.flag("configured"):
        plain = (tuple, list, g.np.array)[g.choice("sequences", 3)]
        p.configure(start_y=plain(pose("start_y").tolist()), goal_y=pose("goal_y"),
                    goal_yd=plain(g.arr("goal_yd", nv).tolist()), start_yd=g.arr("start_yd", nv))
        if plain is not g.np.array:
            return False                 # stored as given; steps require arrays
    if g.flag("used"):
        y = pose("y")
        yd = g.arr("yd", nv)
        # a minimum jerk trajectory has two samples at least
        for _ in range(1 + g.choice("steps", 2 if kind == "minimum jerk" else 3)):
            y, yd = p.step(y, yd)
    return True


def same(g, label, a, b):
    """Restored object b equal to a in every attribute."""
    g.true(label + ": same class", type(a).__name__ == type(b).__name__
           and type(a).__module__ == type(b).__module__)
    for k, v in list(a.__dict__.items()):
        at = "%s.%s" % (label, k)
        g.true(at + " restored", k in b.__dict__)
        if k not in b.__dict__:
            continue
        w = b.__dict__[k]
        if is_object(v):
            same(g, at, v, w)
        elif v is None or isinstance(v, (str, bool)):
            g.true(at + " equal", w is v or w == v)
        elif isinstance(v, (g.np.ndarray, tuple, list)):
            v = g.np.array(v)
            g.true(at + " is no number", w is not None and not isinstance(w, (str, bool)))
            w = g.np.array(w)
            g.eq(at + " has the same shape", w.shape, v.shape)
            g.eq(at + " equal", w, v, EXACT)
        else:
            g.true(at + " is a number", w is not None and not isinstance(w, (str, list, tuple)))
            g.eq(at + " equal", w, v, EXACT)


def frozen(o):
    return [o] + [x for v in o.__dict__.values() if is_object(v) for x in frozen(v)]


def round_trip(kind):
    def check(g, M):
        io = M("io")
        p, ny, nv = primitive(g, M, kind)
        if g.sym:
            arbitrary_state(g, p, "p")
            if kind == "minimum jerk" and g.flag("planned"):
                n = g.dim("n_samples", 1)
                p.X, p.Xd = g.arr("X", n, nv), g.arr("Xd", n, nv)
                p.step_idx = g.idx("step", n)
        else:
            steps = history(g, p, kind, ny, nv)
        fmt = FORMATS[g.choice("format", 3)]
        fr = g.freeze(*frozen(p))
        with g.scratch("primitive." + fmt) as name:
            getattr(io, "write_" + fmt)(name, p)
            r = getattr(io, "read_" + fmt)(name)
        g.cover("read " + fmt)
        g.frame("writing does not modify the primitive", fr)
        same(g, "restored", p, r)
        if kind == "minimum jerk" and p.X is not None:
            # lists and arrays of samples are used alike
            y, yd = g.arr("last_y", nv), g.arr("last_yd", nv)
            if g.sym:
                p.initialized = r.initialized = True
            if g.sym or p.step_idx < len(p.X):
                g.eq("continues alike", p.step(y, yd), r.step(y, yd))
        elif not g.sym:
            if kind == "probabilistic":
                T = g.np.linspace(0.0, 1.0, 5)
                g.eq("same mean", r.mean_trajectory(T), p.mean_trajectory(T))
                g.eq("same variance", r.var_trajectory(T), p.var_trajectory(T))
            elif isinstance(p.__dict__.get("int_dt"), g.np.float32):
                pass                     # the original computes in single precision
            elif kind != "minimum jerk" and steps and g.flag("continue"):
                with g.np.errstate(all="ignore"):
                    y, yd = p.current_y + 0.0, p.current_yd + 0.0
                    y2, yd2 = y, yd
                    for _ in range(3):
                        y, yd = p.step(y, yd)
                        y2, yd2 = r.step(y2, yd2)
                        g.eq("continues alike", y2, y)
                        g.eq("continues with equal velocity", yd2, yd)
    check.__name__ = "check_" + kind.replace(" ", "_")
    return check


for _k in KINDS:
    globals()["check_" + _k.replace(" ", "_")] = round_trip(_k)


def check_unknown_class(g, M):
    """A file with an unknown class is refused."""
    fmt = FORMATS[g.choice("format", 2)]
    mod = ("movement_primitives", "movement_primitives.dmp",
           "movement_primitives.promp")[g.choice("module", 3)]
    with g.scratch("primitive." + fmt) as name:
        g.write_plain(name, fmt, {"class": "NoSuchPrimitive", "module": mod, "n_dims": 2})
        g.raises("import error", ImportError, lambda: getattr(M("io"), "read_" + fmt)(name))


check_unknown_class.trials = 20
