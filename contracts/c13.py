"""C13: position DMP steps commute with shifts and with scaling of space and time.

The runs of the code are tied to ghost runs; the ghost runs are related by
induction over the substeps."""
import copy

from . import spec

FUNCTIONS = ["dmp._dmp.dmp_step_euler", "dmp._dmp.dmp_step_rk4", "dmp_fast.dmp_step",
             "dmp_fast.dmp_step_rk4", "dmp._canonical_system.phase", "dmp_fast.phase"]


class Scaled:
    """Forcing term with scaled weights."""

    def __init__(self, inner, factor):
        self.inner = inner
        self.phase = inner.phase
        self.factor = factor

    def forcing_term(self, z):
        return self.factor * self.inner.forcing_term(z)


class Slowed:
    """Forcing term of a movement whose times are scaled."""

    def __init__(self, inner, factor):
        self.inner = inner
        self.forcing_term = inner.forcing_term
        self.factor = factor

    def phase(self, t):
        return self.inner.phase(t / self.factor)


def shifted(g, s):
    d = g.arr("shift", s.n)
    s2 = copy.copy(s)
    s2.y, s2.goal_y, s2.start_y = s.y + d, s.goal_y + d, s.start_y + d
    return s2, lambda st: {"t": st["t"], "y": st["y"] + d, "yd": st["yd"]}


def scaled(g, s):
    f = g.real("factor", sample=(-2.0, 2.0))
    s2 = copy.copy(s)
    for k in ("y", "yd", "goal_y", "goal_yd", "goal_ydd", "start_y", "start_yd", "start_ydd", "te"):
        setattr(s2, k, f * getattr(s, k))
    s2.forcing = Scaled(s.forcing, f)
    return s2, lambda st: {"t": st["t"], "y": f * st["y"], "yd": f * st["yd"]}


def slowed(g, s):
    s.te = g.np.zeros(s.n)
    # powers of two keep the substeps of concrete runs aligned
    f = g.real("slower", pos=True) if g.sym else 2.0 ** g.int("log2 slower", -2, 2)
    s2 = copy.copy(s)
    for k in ("start_t", "duration", "goal_t", "elapsed", "dt", "last_t", "t", "int_dt"):
        setattr(s2, k, f * getattr(s, k))
    s2.yd = s.yd / f
    s2.forcing = Slowed(s.forcing, f)
    return s2, lambda st: {"t": f * st["t"], "y": st["y"], "yd": st["yd"] / f}


def _euler(g, name, step, change, what):
    s = spec.pos_setup(g, coupling=False)
    s2, phi = change(g, s)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    y2, yd2 = g.np.copy(s2.y), g.np.copy(s2.yd)
    a = spec.euler_ghost(g, s, s.y, s.yd)
    b = spec.euler_ghost(g, s2, s2.y, s2.yd)
    g.simulate("%s run" % what, a, b, phi)
    spec.pos_call(step, s, y, yd)
    spec.pos_call(step, s2, y2, yd2)
    verify(g, name, what, phi, s, (y, yd), (y2, yd2))


def _rk4(g, name, step, change, what):
    s = spec.pos_setup(g, coupling=False)
    s2, phi = change(g, s)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    y2, yd2 = g.np.copy(s2.y), g.np.copy(s2.yd)
    spec.pos_call(step, s, y, yd)
    spec.pos_call(step, s2, y2, yd2)
    verify(g, name, what, phi, s, (y, yd), (y2, yd2))


def verify(g, name, what, phi, s, first, second):
    if not g.sym and not (g.np.all(g.np.abs(first[0]) < 1e5) and g.np.all(g.np.abs(first[1]) < 1e5)):
        g.skip()
    want = phi({"t": s.t, "y": first[0], "yd": first[1]})
    g.cover("%s %s" % (name, what))
    g.eq("%s: %s position" % (name, what), second[0], want["y"])
    g.eq("%s: %s velocity" % (name, what), second[1], want["yd"])


CHANGES = {"shifted": shifted, "rescaled": scaled, "slowed": slowed}
STEPS = {"euler_python": ("Python Euler step", _euler, "dmp._dmp", "dmp_step_euler"),
         "euler_compiled": ("compiled Euler step", _euler, "dmp_fast", "dmp_step"),
         "rk4_python": ("Python Runge-Kutta step", _rk4, "dmp._dmp", "dmp_step_rk4"),
         "rk4_compiled": ("compiled Runge-Kutta step", _rk4, "dmp_fast", "dmp_step_rk4")}


def _make(key, what):
    name, run, mod, fn = STEPS[key]

    def check(g, M):
        run(g, name, getattr(M(mod), fn), CHANGES[what], what)
    check.__name__ = "check_%s_%s" % (key, what)
    return check


for _k in STEPS:
    for _w in CHANGES:
        _c = _make(_k, _w)
        globals()[_c.__name__] = _c
del _c


def check_phase(g, M):
    """The phase of the library does not change when all times are scaled."""
    start, dur = g.time("start_t"), g.time("duration", pos=True)
    goal = start + dur
    t = g.time("t")
    f = g.real("slower", pos=True) if g.sym else 2.0 ** g.int("log2 slower", -2, 2)
    alpha = g.real("alpha", pos=True)
    for name, mod in (("Python", "dmp._canonical_system"), ("compiled", "dmp_fast")):
        ph = M(mod).phase
        g.cover("%s phase" % name)
        g.eq("%s phase is invariant to scaling of time" % name,
             ph(f * t, alpha, f * goal, f * start), ph(t, alpha, goal, start))
