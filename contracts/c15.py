"""C15: spring-damper steps."""
from . import spec

FUNCTIONS = ["spring_damper.spring_damper_step", "spring_damper.spring_damper_step_quaternion",
             "spring_damper._default_critically_damped_c", "spring_damper.SpringDamper",
             "spring_damper.SpringDamperOrientation"]


def _setup(g, quat):
    s = spec.Setup()
    s.quat = quat
    s.n = 3 if quat else g.dim("n", 1)
    s.last_t = g.time("last_t")
    s.dt = g.time("dt", pos=True)
    s.t = s.last_t + s.dt
    s.int_dt = g.time("int_dt", pos=True)
    if quat:
        s.y, s.goal_y = g.unit("y"), g.unit("goal_y")
    else:
        s.y, s.goal_y = g.arr("y", s.n), g.arr("goal_y", s.n)
    s.yd = g.arr("yd", s.n)
    s.k = g.real("k", pos=True)
    s.c = g.real("c") if g.flag("with_damping") else None
    spec.draw_coupling(g, s, 4 if quat else s.n, s.n, both=True)
    s.add_coupling = True
    return s


def ghost(g, s, y0, yd0):
    """Damped spring pulling the state to the goal."""
    c = s.c if s.c is not None else 2.0 * g.np.sqrt(s.k)

    def step(st):
        dt = spec.substep(g, s, st["t"])
        y, yd = st["y"], st["yd"]
        cd, cdd = spec.coupling_at(g, s, y, yd, s.n)
        dist = spec.qdiff(g, s.goal_y, y) if s.quat else s.goal_y - y
        yd2 = yd + dt * (s.k * dist - c * yd + cdd) + cd
        y2 = spec.qmul(g, g.qexp(dt * yd2), y) if s.quat else y + dt * yd2
        return {"t": st["t"] + dt, "y": y2, "yd": yd2}
    return g.ghost(
        "spring", init={"t": s.last_t, "y": y0, "yd": yd0}, quats=("y",) if s.quat else (),
        guard=lambda st: st["t"] < s.t, step=step,
        inv=lambda st: [st["t"] <= s.t],
        measure=lambda st: s.t - st["t"], delta=s.int_dt)


def _check(g, name, s, step):
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = g.freeze(s.goal_y, *(s.precomputed or ()))
    want = ghost(g, s, s.y, s.yd)
    step(s.last_t, s.t, y, yd, s.goal_y, s.k, s.c, coupling_term=s.coupling_term,
         coupling_term_precomputed=s.precomputed, int_dt=s.int_dt)
    g.cover(name)
    (g.same_rotation if s.quat else g.eq)("%s spring-damper step: state" % name, y, want.final["y"])
    g.eq("%s spring-damper step: velocity" % name, yd, want.final["yd"])
    g.eq("%s spring-damper step covers the whole interval" % name, want.final["t"], s.t)
    if s.quat:
        g.eq("spring-damper orientation stays a unit quaternion", g.np.dot(y, y), 1.0)
    g.frame("%s spring-damper step modifies only the state" % name, fr)


def check_position(g, M):
    _check(g, "position", _setup(g, False), M("spring_damper").spring_damper_step)


def check_orientation(g, M):
    _check(g, "orientation", _setup(g, True), M("spring_damper").spring_damper_step_quaternion)


def _object(g, name, s, sd):
    """One step of a configured spring-damper object from a given state."""
    s.precomputed = None
    start = g.unit("start_y") if s.quat else g.arr("start_y", s.n)
    sd.configure(t=s.last_t, start_y=start, goal_y=s.goal_y)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = g.freeze(y, yd, start, s.goal_y)
    want = ghost(g, s, s.y, s.yd)
    ny, nyd = sd.step(y, yd, coupling_term=s.coupling_term)
    g.cover(name)
    (g.same_rotation if s.quat else g.eq)("%s: new state" % name, ny, want.final["y"])
    g.eq("%s: new velocity" % name, nyd, want.final["yd"])
    g.eq("%s: time advances by the step length" % name, sd.t, s.t)
    g.frame("%s: step leaves its arguments unchanged" % name, fr)


def check_object(g, M):
    s = _setup(g, False)
    sd = M("spring_damper").SpringDamper(s.n, dt=s.dt, k=s.k, c=s.c, int_dt=s.int_dt)
    _object(g, "SpringDamper", s, sd)


def check_object_orientation(g, M):
    s = _setup(g, True)
    sd = M("spring_damper").SpringDamperOrientation(dt=s.dt, k=s.k, c=s.c, int_dt=s.int_dt)
    _object(g, "SpringDamperOrientation", s, sd)
