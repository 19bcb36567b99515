"""C01: the phase variable."""
TITLE = "phase"
FUNCTIONS = ["dmp._canonical_system.phase", "dmp._canonical_system.canonical_system_alpha",
             "dmp_fast.phase"]


def _impls(M):
    return [("python", M("dmp._canonical_system").phase), ("compiled", M("dmp_fast").phase)]


def check_endpoints(g, M):
    cs = M("dmp._canonical_system")
    goal_z = g.real("goal_z", pos=True)
    start = g.time("start_t")
    dur = g.time("duration", pos=True)
    goal = start + dur
    alpha = cs.canonical_system_alpha(goal_z, goal, start)
    for name, phase in _impls(M):
        g.eq("%s phase is 1 at the start time" % name, phase(start, alpha, goal, start), 1.0)
        g.eq("%s phase is the configured value at the end time" % name,
             phase(goal, alpha, goal, start), goal_z)
        s = g.real("fraction")
        # depends only on the elapsed fraction of the execution time
        g.eq("%s phase depends on the elapsed fraction only" % name,
             phase(start + s * dur, alpha, goal, start),
             phase(s, alpha, 1.0, 0.0))
        t1 = g.real("t1")
        t2 = t1 + g.real("dt", pos=True)
        p1, p2 = phase(t1, alpha, goal, start), phase(t2, alpha, goal, start)
        g.lt("%s phase is positive" % name, 0.0, p1)
        if goal_z < 1.0:
            g.cover("%s falling phase" % name)
            g.lt("%s phase falls" % name, p2, p1)


def check_arrays(g, M):
    n = g.dim("n", 1)
    t = g.arr("t", n)
    alpha, start = g.real("alpha"), g.time("start_t")
    goal = start + g.time("duration", pos=True)
    for name, phase in _impls(M):
        fr = g.freeze(t)
        z = phase(t, alpha, goal, start)
        g.eq("%s phase works elementwise" % name, z.shape, t.shape)
        i = g.idx("i", n)
        g.eq("%s phase of an array" % name, z[i], phase(t[i], alpha, goal, start))
        g.frame("%s phase keeps its argument" % name, fr)


def check_definition(g, M):
    t, alpha, start = g.real("t"), g.real("alpha"), g.time("start_t")
    goal = start + g.time("duration", pos=True)
    for name, phase in _impls(M):
        g.eq("%s phase is exponential" % name, phase(t, alpha, goal, start),
             g.np.exp(-alpha * (t - start) / (goal - start)))


def check_rejects(g, M):
    cs = M("dmp._canonical_system")
    goal_z, start, goal = g.real("goal_z"), g.time("start_t"), g.time("goal_t")
    if goal_z <= 0:
        g.cover("non-positive final phase")
        g.raises("non-positive final phase is rejected", ValueError,
                 lambda: cs.canonical_system_alpha(goal_z, goal, start))
    elif goal <= start:
        g.cover("end before start")
        g.raises("end time not after start time is rejected", ValueError,
                 lambda: cs.canonical_system_alpha(goal_z, goal, start))
    else:
        g.cover("valid")
        g.eq("alpha", cs.canonical_system_alpha(goal_z, goal, start), -g.np.log(goal_z))
