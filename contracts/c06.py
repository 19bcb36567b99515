"""C06: dual-arm steps."""
from . import spec

FUNCTIONS = ["dmp._dual_cartesian_dmp.dmp_step_dual_cartesian_python",
             "dmp_fast.dmp_step_dual_cartesian"]


def _step(g, M, name, step):
    s = spec.dual_setup(g)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = spec.dual_frozen(g, s)
    want = spec.dual_ghost(g, s, s.y, s.yd)
    spec.dual_call(step, s, y, yd)
    g.cover("%s dual-arm step" % name)
    g.eq("%s dual-arm step: velocities" % name, yd, want.final["yd"])
    for k, arm in enumerate(("first", "second")):
        p, q = spec.arms(y)[k]
        g.eq("%s dual-arm step: %s position" % (name, arm), p, want.final["p%d" % k])
        g.same_rotation("%s dual-arm step: %s orientation" % (name, arm), q, want.final["q%d" % k])
        g.eq("%s dual-arm step: %s unit quaternion" % (name, arm), g.np.sum(q * q), 1.0)
    g.eq("%s dual-arm step covers the whole interval" % name, want.final["t"], s.t)
    g.frame("%s dual-arm step modifies only the state" % name, fr)


def check_step_python(g, M):
    _step(g, M, "Python", M("dmp._dual_cartesian_dmp").dmp_step_dual_cartesian_python)


def check_step_compiled(g, M):
    spec.stub_quaternions(g, M)
    _step(g, M, "compiled", M("dmp_fast").dmp_step_dual_cartesian)
