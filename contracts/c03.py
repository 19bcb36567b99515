"""C03: position DMP steps."""
from . import spec

FUNCTIONS = ["dmp._dmp.dmp_step_euler", "dmp._dmp.dmp_step_rk4", "dmp._dmp._dmp_acc",
             "dmp_fast.dmp_step", "dmp_fast.dmp_step_rk4", "dmp_fast._dmp_acc"]


def _euler(g, M, name, step):
    s = spec.pos_setup(g)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = spec.pos_frozen(g, s)
    want = spec.euler_ghost(g, s, s.y, s.yd)
    spec.pos_call(step, s, y, yd)
    g.cover("%s euler" % name)
    g.eq("%s Euler step: position" % name, y, want.final["y"])
    g.eq("%s Euler step: velocity" % name, yd, want.final["yd"])
    g.eq("%s Euler step covers the whole interval" % name, want.final["t"], s.t)
    g.frame("%s Euler step modifies only the state" % name, fr)


def _rk4(g, M, name, step):
    s = spec.pos_setup(g)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = spec.pos_frozen(g, s)
    wy, wyd = spec.rk4(g, s, s.y, s.yd)
    spec.pos_call(step, s, y, yd)
    g.cover("%s rk4" % name)
    g.eq("%s Runge-Kutta step: position" % name, y, wy)
    g.eq("%s Runge-Kutta step: velocity" % name, yd, wyd)
    g.frame("%s Runge-Kutta step modifies only the state" % name, fr)


def check_euler_python(g, M):
    _euler(g, M, "Python", M("dmp._dmp").dmp_step_euler)


def check_euler_compiled(g, M):
    _euler(g, M, "compiled", M("dmp_fast").dmp_step)


def check_rk4_python(g, M):
    _rk4(g, M, "Python", M("dmp._dmp").dmp_step_rk4)


def check_rk4_compiled(g, M):
    _rk4(g, M, "compiled", M("dmp_fast").dmp_step_rk4)
