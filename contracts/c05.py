"""C05: orientation steps and quaternion helpers."""
from . import spec

FUNCTIONS = ["dmp._cartesian_dmp.dmp_step_quaternion_python", "dmp_fast.dmp_step_quaternion",
             "dmp_fast.concatenate_quaternions", "dmp_fast.q_conj",
             "dmp_fast.quaternion_from_compact_axis_angle",
             "dmp_fast.compact_axis_angle_from_quaternion",
             "dmp_fast.matrix_from_compact_axis_angle"]


def _step(g, M, name, step):
    s = spec.quat_setup(g)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = spec.quat_frozen(g, s)
    want = spec.quat_ghost(g, s, s.y, s.yd)
    spec.quat_call(step, s, y, yd)
    g.cover("%s orientation step" % name)
    g.eq("%s orientation step: angular velocity" % name, yd, want.final["yd"])
    g.same_rotation("%s orientation step: orientation" % name, y, want.final["y"])
    g.eq("%s orientation step: unit quaternion" % name, g.np.sum(y * y), 1.0)
    g.eq("%s orientation step covers the whole interval" % name, want.final["t"], s.t)
    g.frame("%s orientation step modifies only the state" % name, fr)


def check_step_python(g, M):
    _step(g, M, "Python", M("dmp._cartesian_dmp").dmp_step_quaternion_python)


def check_step_compiled(g, M):
    spec.stub_quaternions(g, M)
    _step(g, M, "compiled", M("dmp_fast").dmp_step_quaternion)


def check_product(g, M):
    q1, q2 = g.unit("q1"), g.unit("q2")
    fr = g.freeze(q1, q2)
    q = M("dmp_fast").concatenate_quaternions(q1, q2)
    g.eq("quaternion product", q, spec.qmul(g, q1, q2))
    g.eq("product of unit quaternions is a unit quaternion", g.np.sum(q * q), 1.0)
    g.frame("quaternion product modifies nothing", fr)


def check_conjugate(g, M):
    q = g.unit("q")
    f = getattr(M("dmp_fast"), "q_conj", None)
    if f is None:
        g.skip()
    g.eq("quaternion conjugate", f(q), spec.qconj(g, q))


check_conjugate.symbolic = "U"


def check_exponential(g, M):
    f = getattr(M("dmp_fast"), "quaternion_from_compact_axis_angle", None)
    if f is None:
        g.skip()
    if g.flag("zero"):
        g.eq("exponential of the zero rotation", f(g.np.zeros(3)), g.np.array([1.0, 0.0, 0.0, 0.0]))
        return
    u, th = g.unit("axis", 3), g.real("angle", pos=True)
    q = f(th * u)
    want = g.np.concatenate((g.np.array([g.np.cos(th / 2)]), g.np.sin(th / 2) * u))
    g.eq("exponential map", q, want)
    g.eq("exponential map gives a unit quaternion", g.np.sum(q * q), 1.0)


def check_logarithm(g, M):
    f = M("dmp_fast").compact_axis_angle_from_quaternion
    k = g.choice("case", 3)
    s = 1.0 if g.flag("sign") else -1.0
    if k == 0:
        g.eq("logarithm of the identity", f(s * g.np.array([1.0, 0.0, 0.0, 0.0])), g.np.zeros(3))
        return
    # (cos, sin * axis) of half the rotation angle, 0 < angle < pi
    u = g.unit("axis", 3)
    c = g.real("c", pos=True, sample=(0.01, 0.9999))
    g.assume(c < 1)
    sn = g.np.sqrt(1 - c * c)
    g.assume(sn * sn * 10 ** 14 > 1)
    q = s * g.np.concatenate((g.np.array([c]), sn * u))
    r = f(q)
    g.eq("logarithmic map", r, 2 * g.np.arccos(c) * u)


def check_matrix(g, M):
    f = getattr(M("dmp_fast"), "matrix_from_compact_axis_angle", None)
    if f is None:
        g.skip()
    if g.flag("zero"):
        g.eq("matrix of the zero rotation", f(g.np.zeros(3)), g.np.eye(3))
        return
    u, th = g.unit("axis", 3), g.real("angle", pos=True)
    c, s = g.np.cos(th), g.np.sin(th)
    k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]]
    g.eq("rotation matrix", f(th * u), g.np.array(
        [[u[i] * u[j] * (1.0 - c) + s * k[i][j] + (c if i == j else 0.0) for j in range(3)]
         for i in range(3)]))
