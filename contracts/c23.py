"""C23: forward kinematics and pose error."""
FUNCTIONS = ["kinematics.FastUrdfTransformManager.set_joint",
             "kinematics.FastUrdfTransformManager.get_ee2base",
             "kinematics._fast_matrix_from_axis_angle",
             "kinematics.Kinematics.create_chain", "kinematics.Chain.__init__",
             "kinematics.Chain.forward", "kinematics.Chain.forward_trajectory",
             "kinematics.Chain.ee_pose_error", "kinematics.pose_dist"]
TRUSTED = ["pytransform3d.urdf.UrdfTransformManager: stores joints as given with unit axes; "
           "the pose of one link in another one is a function of the stored transforms along "
           "the path (their product; evaluated on generated robots)"]
ASSUMPTIONS = ["joint limits are finite in the proof; infinite limits are evaluated on "
               "generated robots", "lower joint limits are below upper joint limits"]

MOD = "kinematics"


def rotation(g, axis, angle):
    """Rodrigues' formula."""
    c, s = g.np.cos(angle), g.np.sin(angle)
    x, y, z = axis[0], axis[1], axis[2]
    k = [[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]]
    return [[axis[i] * axis[j] * (1.0 - c) + s * k[i][j] + (c if i == j else 0.0)
             for j in range(3)] for i in range(3)]


def clipped(g, r, i, value):
    lo, hi = r.limits(i)
    return g.np.minimum(g.np.maximum(value, lo), hi)


def joint_transform(g, r, i, value):
    """Transform of the link behind joint i."""
    value = clipped(g, r, i, value)
    axis, rev = r.axis(i), r.revolute(i)
    R = rotation(g, axis, value)
    m = [[g.ite(rev, R[a][b], 1.0 if a == b else 0.0) for b in range(3)]
         + [g.ite(rev, 0.0, value * axis[a])] for a in range(3)]
    return g.np.dot(r.child2parent(i), g.np.array(m + [[0.0, 0.0, 0.0, 1.0]]))


def chain(g, M):
    K = M(MOD)
    r = g.robot(K)
    return r, K.Chain(r.tm, r.names, r.base, r.ee)


def check_rotation(g, M):
    """Rodrigues' formula gives proper rotations about the axis."""
    axis = g.unit("axis", 3)
    R = g.np.array(rotation(g, axis, g.real("angle")))
    g.cover("rotation")
    g.eq("rotation is orthonormal", g.np.dot(R, R.T), g.np.eye(3))
    g.eq("rotation keeps the axis", g.np.dot(R, axis), axis)
    det = R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) \
        - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0]) \
        + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0])
    g.eq("rotation does not mirror", det, 1.0)


def check_joint(g, M):
    K = M(MOD)
    r = g.robot(K)
    i, j = g.idx("i", r.n), g.idx("j", r.n)
    value = g.real("value", sample=(-5.0, 5.0))
    before = g.np.copy(r.stored(j))
    r.tm.set_joint(r.names[i], value)
    g.cover("joint set")
    g.eq("joint moves by the value within its limits", r.stored(i),
         joint_transform(g, r, i, value))
    if i != j:
        g.eq("other joints stay", r.stored(j), before)


def check_forward(g, M):
    r, c = chain(g, M)
    q = g.arr("q", r.n, sample=(-5.0, 5.0))
    fr = g.freeze(q)
    with g.pure(c):
        H = c.forward(q)
    g.cover("forward kinematics")
    i = g.idx("i", r.n)
    old = r.check(g, "pose belongs to the given joint values", H,
                  lambda i: joint_transform(g, r, i, q[i]), i)
    g.frame("joint values are not modified", fr)
    q2 = g.arr("q2", r.n, sample=(-5.0, 5.0))
    H2 = c.forward(q2)
    r.check(g, "pose does not depend on earlier calls", H2,
            lambda i: joint_transform(g, r, i, q2[i]), i)
    g.eq("returned pose is not changed by later calls", H, old)
    if not g.sym:
        # the same array with other values, close values, another chain of the robot
        buffer = q2
        buffer[:] = g.arr("q3", r.n, sample=(-5.0, 5.0))
        other = M(MOD).Chain(r.tm, r.names, r.base, r.ee)
        if g.flag("other chain moves"):
            other.forward(q)
        for _ in range(2):
            r.check(g, "pose belongs to the values in a reused array", c.forward(buffer),
                    lambda i: joint_transform(g, r, i, buffer[i]), i)
            k = g.choice("next values", 3)
            if k == 0:
                buffer += 1e-5
            elif k == 1:
                buffer[g.idx("k", r.n)] = g.real("angle", sample=(-5.0, 5.0))
            else:
                other.forward(q)


def check_trajectory(g, M):
    r, c = chain(g, M)
    n = g.dim("n_steps", 1)
    Q = g.arr("Q", n, r.n, sample=(-5.0, 5.0))
    pose = None
    if g.sym:
        pose = g.abstract("forward", (4, 4))
        g.stub(M(MOD).Chain, "forward", lambda self, joint_angles: pose(joint_angles))
    fr = g.freeze(Q)
    H = c.forward_trajectory(Q)
    g.cover("forward kinematics of a trajectory")
    g.eq("one pose per step", H.shape, (n, 4, 4))
    t = g.idx("t", n)
    g.eq("pose of each step", H[t], pose(Q[t]) if g.sym else
         r.pose(lambda i: joint_transform(g, r, i, Q[t, i])))
    g.frame("arguments are not modified", fr)


def gap(g, p1, q1, p2, q2, ow, pw):
    """Weighted rotation angle and distance of two poses."""
    w = q1[0] * q2[0] + q1[1] * q2[1] + q1[2] * q2[2] + q1[3] * q2[3]
    d = p1 - p2
    dist = g.np.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    angle = g.np.arccos(g.np.clip(2.0 * w * w - 1.0, -1.0, 1.0))
    return ow * angle + pw * dist


def poses(g):
    p1, q1, p2, q2 = (g.arr("position1", 3), g.unit("orientation1"),
                      g.arr("position2", 3), g.unit("orientation2"))
    k = g.choice("relation", 5)
    if k == 1 or k == 4:
        p2, q2 = p1, q1
    elif k == 2:
        q2 = g.np.array([-q1[1], q1[0], -q1[3], q1[2]])        # half turn
    elif k == 3:
        q2 = g.np.array([-q1[0], -q1[1], -q1[2], -q1[3]])
    return k, p1, q1, p2, q2


def check_error(g, M):
    k, p1, q1, p2, q2 = poses(g)
    ow = g.real("orientation weight", nonneg=True, sample=(0.0, 2.0))
    pw = g.real("position weight", nonneg=True, sample=(0.0, 2.0))
    A, B = g.pose(p1, q1), g.pose(p2, q2)
    fr = g.freeze(A, B)
    e = M(MOD).pose_dist(A, B, ow, pw)
    g.cover("pose error")
    g.eq("weighted angle and distance", e, gap(g, p1, q1, p2, q2, ow, pw))
    g.le("error is not negative", 0.0, e)
    if k == 1:
        g.eq("equal poses have no error", e, 0.0, tol=1e-5)
    g.frame("arguments are not modified", fr)


check_error.trials = 400


def check_pose_error(g, M):
    """Error of the pose that joint values lead to."""
    r, c = chain(g, M)
    q = g.arr("q", r.n, sample=(-5.0, 5.0))
    p1, q1 = g.arr("position", 3), g.unit("orientation")
    ow = g.real("orientation weight", nonneg=True, sample=(0.0, 2.0))
    pw = g.real("position weight", nonneg=True, sample=(0.0, 2.0))
    D = g.pose(p1, q1)
    if g.sym:
        pose, dist = g.abstract("forward", (4, 4)), g.abstract("pose_dist", ())
        g.stub(M(MOD).Chain, "forward", lambda self, joint_angles: pose(joint_angles))
        g.stub(M(MOD), "pose_dist", lambda ee2base_desired, ee2base_actual, orientation_weight,
               position_weight: dist(ee2base_desired, ee2base_actual, orientation_weight,
                                     position_weight))
    default = g.flag("default weights")
    if default:
        e = c.ee_pose_error(q, D)
        ow, pw = 1.0, 1.0
    else:
        e = c.ee_pose_error(q, D, ow, pw)
    g.cover("error of joint values")
    if g.sym:
        g.eq("error of the reached pose", e, dist(D, pose(q), ow, pw))
    else:
        H = r.pose(lambda i: joint_transform(g, r, i, q[i]))
        R = g.np.dot(H[:3, :3].T, D[:3, :3])
        s = g.np.sqrt((R[2, 1] - R[1, 2]) ** 2 + (R[0, 2] - R[2, 0]) ** 2
                      + (R[1, 0] - R[0, 1]) ** 2)
        angle = g.np.arctan2(s, g.np.trace(R) - 1.0)
        g.eq("error of the reached pose", e,
             ow * angle + pw * g.np.linalg.norm(H[:3, 3] - p1), tol=1e-5)


def urdf(g, n):
    """Serial robot with a fixed tool and a second, shorter branch."""
    kinds = [("revolute", "prismatic", "continuous", "fixed")[g.choice("type%d" % i, 4)]
             for i in range(n)]
    kinds[g.choice("moving", n)] = "revolute"
    text = ['<robot name="r">'] + ['<link name="link%d"/>' % i for i in range(n + 1)] \
        + ['<link name="other"/>']
    for i, kind in enumerate(kinds + ["fixed"]):
        xyz, rpy = g.arr("xyz%d" % i, 3, sample=(-1.0, 1.0)), g.arr("rpy%d" % i, 3, sample=(-3.0, 3.0))
        axis = g.unit("axis%d" % i, 3)
        lo, hi = g.real("lower%d" % i, sample=(-2.0, 0.0)), g.real("upper%d" % i, sample=(0.1, 2.0))
        text.append('<joint name="joint%d" type="%s">' % (i, kind))
        text.append('<origin xyz="%r %r %r" rpy="%r %r %r"/>' % tuple(
            float(v) for v in list(xyz) + list(rpy)))
        text.append('<parent link="link%d"/><child link="%s"/>' % (
            (i, "link%d" % (i + 1)) if i < n else (0, "other")))
        if kind != "fixed":
            text.append('<axis xyz="%r %r %r"/>' % tuple(float(v) for v in axis))
        if kind in ("revolute", "prismatic"):
            text.append('<limit lower="%r" upper="%r"/>' % (float(lo), float(hi)))
        text.append('</joint>')
    return "\n".join(text + ["</robot>"]), ["joint%d" % i for i in range(n) if kinds[i] != "fixed"]


def check_robot_description(g, M):
    """Chains of a robot that is read from its description move like the robot."""
    from pytransform3d.urdf import UrdfTransformManager
    n = g.dim("n_joints", 1, 5)
    text, names = urdf(g, n)
    k = M(MOD).Kinematics(text)
    frames = ["link0", "link%d" % n, "other"]
    c = k.create_chain(names, frames[g.choice("base", 3)], frames[g.choice("ee", 3)])
    back = k.create_chain(names[::-1], c.ee_frame, c.base_frame)
    g.eq("number of joints", c.n_joints, len(names))
    for turn in range(2):
        q = g.arr("q%d" % turn, len(names), sample=(-3.0, 3.0))
        tm = UrdfTransformManager()
        tm.load_urdf(text)
        for name, value in zip(names, q):
            tm.set_joint(name, value)
        g.eq("pose of the robot", c.forward(q), tm.get_transform(c.ee_frame, c.base_frame))
        g.eq("pose of the chain in the other direction", back.forward(q[::-1]),
             tm.get_transform(c.base_frame, c.ee_frame))


check_robot_description.symbolic = None
