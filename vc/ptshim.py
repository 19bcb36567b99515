"""Assumed contracts of pytransform3d, scipy, numba, gmr."""
from . import symarray as S
from . import terms as T
from .npshim import NS, atleast_1d
from .symarray import Arr, as_arr, ci, from_fn, from_list, num_of
from .terms import ONE, ZERO, Num, Unsupported, as_num, conj, eq0, ite, le0, lt0


def qmul(q1, q2):
    """Hamilton product of two quaternions (no normalisation)."""
    q1, q2 = as_arr(q1), as_arr(q2)
    a = [num_of(q1.get((k,))) for k in range(4)]
    b = [num_of(q2.get((k,))) for k in range(4)]
    return from_list([
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]])


def q_conj(q):
    q = as_arr(q)
    return from_list([num_of(q.get((0,)))] + [-num_of(q.get((k,))) for k in range(1, 4)])


def qlog(q):
    """Rotation vector of a unit quaternion (compact axis-angle).

    Opaque except for: it vanishes at the identity and depends on the
    rotation only, i.e. q and -q have the same rotation vector."""
    q = as_arr(q)
    c = [T.maybe_const(num_of(q.get((k,)))) for k in range(4)]
    if all(T.is_zero(x) for x in c[1:]):
        return from_list([ZERO] * 3)
    c = strip_signs(c)
    # canonical sign: q and -q denote the same rotation
    for x in c:
        if x.p:
            if T._neg_lead(x):
                c = [-y for y in c]
            break
    return from_list([T.mk_app("qlog%d" % k, tuple(c)) for k in range(3)])


def strip_signs(c):
    """Remove signs common to all components."""
    ms = [m for x in c for m in x.p]
    if not ms:
        return c
    common = None
    for m in ms:
        ids = {a for a, _ in m if T.atom(a).name == "qsign"}
        common = ids if common is None else common & ids
    for a in common:
        s = Num({((a, 1),): 1}, "R")
        c = [x * s for x in c]
    return c


def qsign(q):
    """Sign with which a conversion from a matrix represents a rotation."""
    c = strip_signs([T.maybe_const(num_of(q.get((k,)))) for k in range(4)])
    for x in c:
        if x.p:
            if T._neg_lead(x):
                c = [-y for y in c]
            break
    s = sign_atom(tuple(T.real(x) for x in c))
    return from_list([s * x for x in c])


def sign_atom(c):
    for x in c:
        if x.p:
            if T._neg_lead(x):
                c = tuple(-y for y in c)
            break
    h = T._h("qsign", tuple(T.argkey(x) for x in c))
    return T.mk_app("qsign", c, square=ONE, fp=T.Decimal(1 if int(h * 10 ** 9) % 2 else -1), meta={"rebuild": sign_atom})


def unit_part(q):
    """Quaternion scaled to unit norm."""
    n2 = S.reduce_sum(q * q)
    if T.is_zero(n2 - 1):
        return q
    return q / T.sqrt(n2)


def matrix_from_quaternion(q):
    q = unit_part(as_arr(q))
    w, x, y, z = [num_of(q.get((k,))) for k in range(4)]
    return from_list([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def transform_from_pq(pq):
    """Homogeneous matrix of position and (normalised) quaternion."""
    pq = as_arr(pq)
    p, q = pq[:3], unit_part(pq[3:])
    return homogeneous(S.copy(p), S.copy(q))


def homogeneous(p, q):
    R = matrix_from_quaternion(q)
    g, h = R.snap(), p.snap()

    def fn(i):
        a, b = i
        if isinstance(a, int) and isinstance(b, int):
            if a == 3:
                return ONE if b == 3 else ZERO
            return num_of(h((a,))) if b == 3 else num_of(g((a, b)))
        raise Unsupported("symbolic index into a transformation matrix")
    m = from_fn((4, 4), fn)
    m.pose = (p, q, m.st, m.st.content)
    return m


def pose_of(m):
    """Position and quaternion a matrix was built from."""
    r = getattr(m, "pose", None)
    if r is None or r[2].content is not r[3]:
        raise Unsupported("transformation matrix of unknown origin")
    return r[0], r[1]


def rotate(q, v):
    return S.dot(matrix_from_quaternion(q), v)


def pq_from_transform(m, strict_check=True):
    p, q = pose_of(m)
    return S.concat([p, qsign(q)])


def concat_t(A2B, B2C, strict_check=True, check=True):
    (p1, q1), (p2, q2) = pose_of(A2B), pose_of(B2C)
    return homogeneous(rotate(q2, p1) + p2, qmul(q2, q1))


def invert_transform(A2B, strict_check=True, check=True):
    p, q = pose_of(A2B)
    c = q_conj(q)
    return homogeneous(-rotate(c, p), c)


def transform(A2B, PA, strict_check=True):
    PA = as_arr(PA)
    if PA.ndim == 1:
        return S.dot(as_arr(A2B), PA)
    return S.dot(PA, S.transpose(as_arr(A2B)))


def vector_to_direction(v):
    return S.concat([as_arr(v), from_list([ZERO])])


def vector_to_point(v):
    return S.concat([as_arr(v), from_list([ONE])])


def rodrigues(u, theta):
    """Rotation matrix entries of a unit axis and an angle."""
    c, s = T.cos(theta), T.sin(theta)
    x, y, z = u
    k = 1 - c
    return [[k * x * x + c, k * x * y - z * s, k * x * z + y * s],
            [k * y * x + z * s, k * y * y + c, k * y * z - x * s],
            [k * z * x - y * s, k * z * y + x * s, k * z * z + c]]


def matrix_from_compact_axis_angle(a):
    a = as_arr(a)
    v = [num_of(a.get((k,))) for k in range(3)]
    th = T.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    if bool(eq0(th)):
        return from_list([[ONE if i == j else ZERO for j in range(3)] for i in range(3)])
    return from_list(rodrigues([x / th for x in v], th))


def norm_vectors(V, out=None):
    """Rows of unit length; zero rows stay zero."""
    V = as_arr(V)
    if V.ndim == 1:
        return norm_vector(V)
    g = V.snap()

    def fn(idx):
        row = idx[:-1]
        n2 = ZERO
        for k in range(V.shape[-1]):
            x = num_of(g(row + (k,)))
            n2 = n2 + x * x
        v = num_of(g(idx))
        c = T.HOOKS.simplify(eq0(n2))
        if c is T.TRUE:
            return v
        with T.HOOKS.assuming(T.neg(c)):
            w = v / T.sqrt(n2)
        return ite(c, v, w)
    return from_fn(V.shape, fn)


def matrices_from_compact_axis_angles(A=None, axes=None, angles=None, out=None):
    A = as_arr(A)
    if A.ndim == 1:
        return matrix_from_compact_axis_angle(A)
    g = A.snap()

    def fn(idx):
        row, i, j = idx[:-2], idx[-2], idx[-1]
        v = [num_of(g(row + (k,))) for k in range(3)]
        n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        c = T.HOOKS.simplify(eq0(n2))
        e = ONE if i == j else ZERO
        if c is T.TRUE:
            return e
        with T.HOOKS.assuming(T.neg(c)):
            th = T.sqrt(n2)
            w = rodrigues([x / th for x in v], th)[i][j]
        return ite(c, e, w)
    return from_fn(A.shape[:-1] + (3, 3), fn)


def unit4(name, args, meta=None, n=4):
    """Atoms name0..3(args) constrained to unit norm."""
    ats = []
    h = [T._h(name, k, tuple(T.argkey(a) for a in args)) * T.Decimal("0.28")
         for k in range(n - 1)]
    for k in range(n - 1):
        ats.append(T.mk_app("%s%d" % (name, k), args, fp=h[k], meta=dict(meta or {},
            rebuild=lambda a, k=k: unit4(name, a, meta, n)[k])))
    sq = ONE
    for a in ats:
        sq = sq - a * a
    ats.append(T.mk_app("%s%d" % (name, n - 1), args, square=sq, fp=sq.val.sqrt(), meta=dict(
        meta or {}, rebuild=lambda a: unit4(name, a, meta, n)[n - 1])))
    return ats


def qexp(a):
    """Unit quaternion of a rotation vector; identity at zero."""
    a = as_arr(a)
    c = [T.maybe_const(num_of(a.get((k,)))) for k in range(3)]
    if all(T.is_zero(x) for x in c):
        return from_list([ONE, ZERO, ZERO, ZERO])
    return from_list(unit4("qexp", tuple(T.real(x) for x in c)))


def quaternion_gradient(Q, dt=1.0):
    """Central differences of orientations, one-sided at the ends."""
    Q = as_arr(Q)
    n = Q.shape[0]
    T.HOOKS.bounds(le0(2 - as_num(n)), "quaternion_gradient")
    g = Q.snap()
    row = lambda k: from_list([num_of(g((ci(k), j))) for j in range(4)])
    diff = lambda a, b: qlog(qmul(row(a), q_conj(row(b))))
    last = ci(as_num(n) - 1)

    def fn(idx):
        k, j = idx
        j = ci(j)
        if not isinstance(j, int):
            raise Unsupported("symbolic index of an angular velocity")
        c0, cl = S.eqc(k, 0), S.eqc(k, last)
        inner = None
        if c0 is not T.TRUE and cl is not T.TRUE:
            with T.HOOKS.assuming(T.neg(c0), T.neg(cl)):
                inner = diff(as_num(k) + 1, as_num(k) - 1).get((j,)) / (2 * as_num(dt))
        end = first = None
        if cl is not T.FALSE:
            end = diff(last, as_num(last) - 1).get((j,)) / as_num(dt)
        if c0 is not T.FALSE:
            first = diff(1, 0).get((j,)) / as_num(dt)
        r = inner
        if end is not None:
            r = end if r is None else ite(cl, end, r)
        if first is not None:
            r = first if r is None or c0 is T.TRUE else ite(c0, first, r)
        return r
    return from_fn((n, 3), fn)


def norm_vector(v):
    v = as_arr(v)
    n = T.sqrt(S.reduce_sum(v * v))
    if bool(eq0(n)):
        return S.copy(v)
    return v / n


class UrdfTransformManager:
    """Joints of a robot and the transforms of their links.  The pose of one
    link in another one is a function of the stored transforms."""

    def __init__(self, strict_check=True, check=True):
        self._joints = {}
        self.transforms = {}
        self.nodes = []

    def _shortest_path(self, i, j):
        return [self.nodes[i], self.nodes[j]]

    def _path_transform(self, path):
        return self.path_transform(path[0], path[-1])

    def get_transform(self, from_frame, to_frame):
        return self._path_transform([from_frame, to_frame])

    def add_transform(self, from_frame, to_frame, A2B):
        self.transforms[(from_frame, to_frame)] = A2B

    def path_transform(self, from_frame, to_frame):
        raise Unsupported("transforms of an unknown robot")


class JointType:
    def __init__(self, revolute):
        self.revolute = revolute

    def __eq__(self, other):
        if other == "revolute":
            return self.revolute
        if other == "prismatic":
            return T.neg(self.revolute)
        return False

    def __ne__(self, other):
        r = self == other
        return T.neg(r) if r is not False else True

    __hash__ = None


class SymRobot:
    """Robot with a symbolic number of joints, identified by their index."""
    base, ee = "base", "ee"

    def __init__(self, g, K, names):
        self.n = n = g.dim("n_joints", 1)
        self.path = g.fun("path", (4, 4))
        self.lo, self.width = g.arr("lower limit", n), g.arr("width", n, pos=True)
        self.hi = self.lo + self.width
        self.rows = g.arr("link", n, 4, 4)           # arbitrary earlier state
        self.names = names(n, lambda i: i)
        tm = self.tm = K.FastUrdfTransformManager()
        tm.nodes, tm._joints, tm.transforms = [self.base, "other", self.ee], self, self
        tm.path_transform = self._path_of

    def child2parent(self, i):
        i = as_num(i)
        q = from_list(unit4("link rotation", (i,), {"input": True}))
        p = from_list([T.mk_app("link position", (i, as_num(k)), meta={"input": True})
                       for k in range(3)])
        return homogeneous(p, q)

    def axis(self, i):
        return from_list(unit4("axis", (as_num(i),), {"input": True}, 3))

    def revolute(self, i):
        return lt0(T.mk_app("kind", (as_num(i),), meta={"input": True}))

    def limits(self, i):
        return self.lo[i], self.hi[i]

    def __getitem__(self, i):
        return (("child", i), ("parent", i), self.child2parent(i), self.axis(i),
                self.limits(i), JointType(self.revolute(i)))

    def __setitem__(self, key, A2B):
        (a, i), (b, j) = key
        if a != "child" or b != "parent" or not T.is_zero(as_num(i) - as_num(j)):
            raise Unsupported("transform of another link")
        self.rows[i] = A2B

    def _path_of(self, a, b):
        if (a, b) != (self.ee, self.base):
            return self.g_other(a, b)
        self.requested = from_fn(self.rows.shape, self.rows.snap())
        return self.path(self.requested)

    def g_other(self, a, b):
        return from_fn((4, 4), lambda i: T.mk_app("pose of %s in %s" % (a, b), tuple(
            as_num(k) for k in i)))

    def stored(self, i):
        return self.rows[i]

    def check(self, g, label, H, fn, i):
        """Was the pose of the end effector requested for these transforms
        of the joints?"""
        rows = self.requested
        g.eq(label, H, self.path(rows))
        g.eq(label, rows[i], fn(i))
        return H


def make_pr():
    rot = NS("pytransform3d.rotations",
             concatenate_quaternions=qmul, q_conj=q_conj,
             compact_axis_angle_from_quaternion=qlog,
             quaternion_from_compact_axis_angle=qexp,
             quaternion_gradient=quaternion_gradient,
             norm_vector=norm_vector, eps=T.Fraction(1, 10 ** 7),
             matrix_from_compact_axis_angle=matrix_from_compact_axis_angle,
             matrix_from_quaternion=matrix_from_quaternion)
    bat = NS("pytransform3d.batch_rotations", norm_vectors=norm_vectors,
             matrices_from_compact_axis_angles=matrices_from_compact_axis_angles)
    tra = NS("pytransform3d.transformations", transform_from_pq=transform_from_pq,
             pq_from_transform=pq_from_transform, concat=concat_t,
             invert_transform=invert_transform, transform=transform,
             vector_to_direction=vector_to_direction, vector_to_point=vector_to_point)
    urdf = NS("pytransform3d.urdf", UrdfTransformManager=UrdfTransformManager)
    top = NS("pytransform3d", rotations=rot, batch_rotations=bat, transformations=tra, urdf=urdf)
    return top


class Interp1d:
    """Interpolation of samples: equals the samples at the sample times,
    otherwise an unknown function of the data."""

    def __init__(self, x, y, bounds_error=None, fill_value=None, **kw):
        if kw:
            raise Unsupported("interp1d options %s" % sorted(kw))
        x, y = as_arr(x), as_arr(y)
        self.x, self.y = S.copy(x), S.copy(y)

    def _lam(self, a):
        k = T.fresh("l")
        with T.HOOKS.assuming(le0(-k), lt0(k - as_num(a.shape[0]))):
            return T.close_lam([k], num_of(a.get((ci(k),))), a.shape)

    def __call__(self, t):
        t = as_num(t)
        for j in range(4):
            n = self.x.shape[0]
            if isinstance(n, int) and j >= n:
                break
            if T.HOOKS.simplify(lt0(as_num(j) - as_num(n))) is not T.TRUE:
                break
            if T.is_zero(num_of(self.x.get((j,))) - t):
                return num_of(self.y.get((j,)))
        return T.mk_app("interp1d", (self._lam(self.x), self._lam(self.y), T.real(t)))


class Numba(NS):
    def __init__(self):
        NS.__init__(self, "numba")

    @staticmethod
    def jit(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f

    njit = jit


OPTIMIZER = [None]


class Result(dict):
    """Result of an optimization."""
    __getattr__ = dict.__getitem__


def minimize(fun, x0, args=(), method=None, bounds=None, **kw):
    """Unknown optimizer; the contract says what it is given."""
    if OPTIMIZER[0] is None:
        raise Unsupported("optimization")
    x, f = OPTIMIZER[0](lambda x: fun(x, *args), x0, method, bounds)
    return Result(x=x, fun=f, success=True)


def make_scipy():
    special = NS("scipy.special")
    opt = NS("scipy.optimize", minimize=minimize)
    stats = NS("scipy.stats")
    inter = NS("scipy.interpolate", interp1d=Interp1d)
    return NS("scipy", special=special, optimize=opt, stats=stats, interpolate=inter)


MVN = [None]


def make_gmr():
    """Gaussian distributions; the contract says what they are given."""
    def mvn(*a, **k):
        if MVN[0] is None:
            raise Unsupported("gmr")
        return MVN[0](*a, **k)
    return NS("gmr", MVN=mvn)


def make_tqdm():
    return NS("tqdm", tqdm=lambda x, *a, **k: x)
