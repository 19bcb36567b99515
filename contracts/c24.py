"""C24: inverse kinematics."""
from .c23 import MOD, chain, joint_transform

FUNCTIONS = ["kinematics.Chain.__init__", "kinematics.Chain.inverse",
             "kinematics.Chain.inverse_with_random_restarts",
             "kinematics.Chain.local_inverse_with_random_restarts",
             "kinematics.Chain._within_joint_limits", "kinematics.Chain._sample_joints_uniform",
             "kinematics.Chain.inverse_trajectory"]
TRUSTED = ["scipy.optimize.minimize: replaced by an optimizer with arbitrary results; only what "
           "it is given and how its results are used is checked",
           "random_state.rand returns numbers above 0 and below 1"]
ASSUMPTIONS = ["joint limits are finite in the proof; infinite limits are evaluated on "
               "generated robots", "the errors of different restarts differ in the evaluated contract",
               "in the proof for trajectories the results of single searches depend on "
               "pose, initial values, bounds and weights only"]

SOLVERS = ["SLSQP", "L-BFGS-B", "COBYLA"]


def check_limits(g, M):
    r, c = chain(g, M)
    i = g.idx("i", r.n)
    lo, hi = r.limits(i)
    g.cover("chain created")
    g.eq("one pair of limits per joint", c.joint_limits.shape, (r.n, 2))
    if not g.sym:
        pi = float(g.np.pi)
        lo, hi = -pi if lo == -float("inf") else lo, pi if hi == float("inf") else hi
    g.eq("lower limit of the chain", c.joint_limits[i, 0], lo)
    g.eq("upper limit of the chain", c.joint_limits[i, 1], hi)


class Problem:
    """Chain, desired pose, weights and solver."""

    def __init__(self, g, M, brief=False):
        self.g = g
        self.r, self.c = chain(g, M)
        self.n = self.r.n
        self.limits = self.c.joint_limits
        self.ow = g.real("orientation weight", nonneg=True, sample=(0.0, 2.0))
        self.pw = g.real("position weight", nonneg=True, sample=(0.0, 2.0))
        self.kw = dict(orientation_weight=self.ow, position_weight=self.pw)
        brief = brief and g.sym          # fewer cases
        self.solver = SOLVERS[2 if brief else g.choice("solver", 3)]
        if not brief and g.flag("default solver"):
            self.solver = SOLVERS[0]
        else:
            self.kw["solver"] = self.solver
        if not brief and g.flag("default weights"):
            self.ow = self.pw = 1.0
            del self.kw["orientation_weight"], self.kw["position_weight"]
        self.D = g.pose(g.arr("position", 3), g.unit("orientation"))
        self.probe = g.arr("probe", self.n)
        if g.sym:
            self.fk, self.dist = g.abstract("forward", (4, 4)), g.abstract("pose_dist", ())
            g.stub(M(MOD).Chain, "forward", lambda self_, joint_angles: self.fk(joint_angles))
            g.stub(M(MOD), "pose_dist",
                   lambda ee2base_desired, ee2base_actual, orientation_weight, position_weight:
                   self.dist(ee2base_desired, ee2base_actual, orientation_weight,
                             position_weight))

    def error(self, D, q):
        """Error of the pose reached by joint values."""
        g, r = self.g, self.r
        if g.sym:
            return self.dist(D, self.fk(q), self.ow, self.pw)
        H = r.pose(lambda i: joint_transform(g, r, i, q[i]))
        R = H[:3, :3].T.dot(D[:3, :3])
        s = g.np.sqrt((R[2, 1] - R[1, 2]) ** 2 + (R[0, 2] - R[2, 0]) ** 2
                      + (R[1, 0] - R[0, 1]) ** 2)
        angle = g.np.arctan2(s, g.np.trace(R) - 1.0)
        return self.ow * angle + self.pw * g.np.linalg.norm(H[:3, 3] - D[:3, 3])

    def check_call(self, objective, method, bounds, D, expected):
        g = self.g
        g.true("solver is the caller's", method == self.solver)
        g.true("optimizer is given bounds", bounds is not None)
        g.eq("bounds of the search", bounds, expected)
        g.eq("objective is the weighted pose error", objective(self.probe),
             self.error(D, self.probe), tol=1e-5)

    def around(self, q, interval):
        """Bounds around joint values within the joint limits."""
        g, np = self.g, self.g.np
        lo, hi = self.limits[:, 0], self.limits[:, 1]
        return [np.minimum(np.maximum(q - interval, lo), hi),
                np.minimum(np.maximum(q + interval, lo), hi)]

    def pairs(self, lo, hi):
        b = self.g.np.empty((self.n, 2))
        b[:, 0] = lo
        b[:, 1] = hi
        return b

    def inside(self, label, q, bounds):
        i = self.g.idx("joint", self.n)
        self.g.le(label, bounds[i, 0], q[i])
        self.g.le(label, q[i], bounds[i, 1])

    def random_state(self):
        g = self.g
        if not g.sym:
            return g.random_state()
        draws = []

        def rand(n):
            draws.append(n)
            return 1.0 / (1.0 + g.arr("draw%d" % len(draws), n, pos=True))

        def uniform(lo, hi, size=None):
            return lo + rand(self.n) * (hi - lo)
        return g.random_state(rand=rand, random_sample=rand, uniform=uniform)


def check_inverse(g, M):
    p = Problem(g, M)
    q0 = g.arr("q0", p.n)
    x, f = g.arr("solution", p.n), g.real("error")
    calls = []
    expected = p.limits
    if g.flag("bounds given"):
        lo = g.arr("lower bound", p.n)
        expected = p.pairs(lo, lo + g.arr("bound width", p.n, pos=True))
        p.kw["bounds"] = expected

    def optimizer(objective, start, method, bounds):
        calls.append(start)
        p.check_call(objective, method, bounds, p.D, expected)
        g.eq("search starts at the initial guess", start, q0)
        return x, f
    g.optimizer(optimizer)
    fr = g.freeze(q0, p.D, p.limits)
    if g.flag("return error"):
        q, e = p.c.inverse(p.D, q0, return_error=True, **p.kw)
        g.eq("error of the solution", e, f)
    else:
        q = p.c.inverse(p.D, q0, **p.kw)
    g.cover("inverse kinematics")
    g.true("optimizer is called once", len(calls) == 1)
    g.eq("result of the optimizer", q, x)
    g.frame("arguments are not modified", fr)


def restarts_unbounded(g, p, q0, expected, run):
    """The same for any number of restarts; the k-th search gives X[k], E[k]."""
    n = g.int("n_restarts", 1)
    tol = g.real("tolerance", pos=True)
    X, E, draws = g.arr("x", n, p.n), g.arr("e", n), g.arr("draws", n + 1, p.n, pos=True)
    done = g.state(searches=0)

    def rand(size):
        g.eq("one random number per joint", size, p.n)
        return 1.0 / (1.0 + g.peek_row(draws, done.searches))

    def start(k):
        lo, hi = expected[:, 0], expected[:, 1]
        return lo + (hi - lo) / (1.0 + g.peek_row(draws, k))

    def optimizer(objective, x0, method, bounds):
        k = done.searches
        g.lt("number of searches is limited", k, n)
        p.check_call(objective, method, bounds, p.D, expected)
        if q0 is not None and k == 0:
            g.eq("first search starts at the given joint values", x0, q0)
        else:
            p.inside("searches start within the bounds", x0, expected)
        done.searches = k + 1
        return X[k], E[k]
    g.optimizer(optimizer)

    def closed(k):
        st = dict(searches=k, x=g.peek_row(X, k - 1), e=g.peek(E, k - 1))
        if q0 is not None:
            st["q"] = g.where(k == 0, q0, start(k))
        return st
    seq = g.seq("searches", closed(0), lambda st, k: closed(k + 1), n,
                closed={c: lambda k, c=c: closed(k)[c] for c in closed(0)},
                until=lambda st: st["e"] <= tol)
    fr = g.freeze(p.D, p.limits)
    q = run(dict(p.kw, random_state=g.random_state(rand=rand, random_sample=rand),
                 n_restarts=n, tolerance=tol))
    g.cover("inverse kinematics with restarts")
    g.frame("arguments are not modified", fr)
    m = seq.count
    g.eq("searches end at the tolerance or the maximum", done.searches, m)
    g.eq("result is the best one", q, X[g.np.argmin(E[:m])])


def restarts(g, p, q0, expected, run):
    """Search with restarts; q0 is None for a random start."""
    if g.sym and g.mode == "U":
        return restarts_unbounded(g, p, q0, expected, run)
    n = 1 + g.choice("n_restarts", 3 if g.sym else 6)
    default = not g.sym and g.flag("default restarts")
    kw = dict(p.kw, random_state=p.random_state())
    if default:
        n, tol = 10, 1e-3
    else:
        tol = g.real("tolerance", pos=True, sample=(0.0, 0.6))
        kw.update(n_restarts=n, tolerance=tol)
    X = [g.arr("x%d" % k, p.n) for k in range(n)]
    E = [g.real("e%d" % k, nonneg=True, sample=(0.0, 5e-3 if default else 2.0))
         for k in range(n)]
    for k in range(n):
        for j in range(k):
            g.assume(E[k] != E[j])
    if not g.sym and not default and g.flag("error equals tolerance"):
        tol = kw["tolerance"] = E[g.choice("equal", n)]
        g.assume(tol > 0)
    calls, starts = [], []

    def optimizer(objective, start, method, bounds):
        k = len(calls)
        g.true("number of searches is limited", k < n)
        calls.append(k)
        p.check_call(objective, method, bounds, p.D, expected)
        if k == 0 and q0 is not None:
            g.eq("first search starts at the given joint values", start, q0)
        else:
            p.inside("searches start within the bounds", start, expected)
            if not g.sym:
                g.true("restarts differ", not any(g.np.all(start == s) for s in starts)
                       or not g.np.all(expected[:, 0] < expected[:, 1]))
                starts.append(g.np.copy(start))
        return X[k], E[k]
    g.optimizer(optimizer)
    fr = g.freeze(p.D, p.limits)
    q = run(kw)
    g.cover("inverse kinematics with restarts")
    g.frame("arguments are not modified", fr)
    m = len(calls)
    g.true("at least one search", m >= 1)
    for k in range(m - 1):
        g.true("search goes on above the tolerance", tol < E[k])
    if m < n:
        g.le("search stops early at the tolerance only", E[m - 1], tol)
    for k in range(m):
        if all(bool(E[k] <= E[j]) for j in range(m)):
            g.eq("result is the best one", q, X[k])


def check_restarts(g, M):
    p = Problem(g, M, brief=True)
    restarts(g, p, None, p.limits,
             lambda kw: p.c.inverse_with_random_restarts(p.D, **kw))


def check_local(g, M):
    p = Problem(g, M, brief=True)
    q0 = g.arr("q0", p.n)
    interval = g.real("interval", pos=True, sample=(0.0, 2.0))
    expected = p.pairs(*p.around(q0, interval))
    fr = g.freeze(q0)
    restarts(g, p, q0, expected,
             lambda kw: p.c.local_inverse_with_random_restarts(p.D, q0, interval, **kw))
    g.frame("joint values are not modified", fr)


def check_bounds(g, M):
    """Search regions are within limits and interval."""
    p = Problem(g, M, brief=True)
    q0 = g.arr("q0", p.n)
    interval = g.real("interval", pos=True, sample=(0.0, 2.0))
    i = g.idx("i", p.n)
    g.assume(p.limits[i, 0] <= q0[i])
    g.assume(q0[i] <= p.limits[i, 1])
    lo, hi = p.around(q0, interval)
    g.cover("search region")
    g.le("region is within the joint limits", p.limits[i, 0], lo[i])
    g.le("region is within the joint limits", hi[i], p.limits[i, 1])
    g.le("region is within the interval", q0[i] - interval, lo[i])
    g.le("region is within the interval", hi[i], q0[i] + interval)
    g.le("region contains the joint values", lo[i], q0[i])
    g.le("region contains the joint values", q0[i], hi[i])


def check_trajectory(g, M):
    p = Problem(g, M, brief=True)
    K = M(MOD)
    n = g.dim("n_steps", 1)
    random = g.flag("random restarts")
    start = g.flag("initial guess")
    interval = g.real("interval", pos=True, sample=(0.01, 2.0))
    if g.flag("default interval"):
        interval = 0.1 * g.np.pi
    else:
        p.kw["interval"] = interval
    q0 = g.arr("q0", p.n)
    if start:
        p.kw["initial_joint_angles"] = q0
    if not random or g.flag("restarts given"):
        p.kw["random_restarts"] = random
    rs = p.random_state()
    seq = None
    if g.sym:
        H = g.arr("H", n, 4, 4)
        first, local, single = (g.abstract(k, (p.n,)) for k in ("first", "local", "single"))

        def options(random_state, solver, return_error=False):
            g.true("random numbers are the caller's", random_state is rs)
            g.true("solver is the caller's", solver == p.solver)
            g.true("joint values are requested", not return_error)

        def inverse(self, desired_pose, initial_joint_angles, return_error=False, bounds=None,
                    solver="SLSQP", orientation_weight=1.0, position_weight=1.0):
            options(rs, solver, return_error)
            b = p.limits if bounds is None else bounds
            return single(desired_pose, initial_joint_angles, b[:, 0], b[:, 1],
                          orientation_weight, position_weight)

        def restarted(self, desired_pose, n_restarts=10, tolerance=1e-3, random_state=None,
                      solver="SLSQP", orientation_weight=1.0, position_weight=1.0):
            options(random_state, solver)
            return first(desired_pose, n_restarts, tolerance, orientation_weight,
                         position_weight)

        def local_restarted(self, desired_pose, joint_angles, interval, n_restarts=10,
                            tolerance=1e-3, random_state=None, solver="SLSQP",
                            orientation_weight=1.0, position_weight=1.0):
            options(random_state, solver)
            return local(desired_pose, joint_angles, interval, n_restarts, tolerance,
                         orientation_weight, position_weight)

        def step(st, k):
            if random:
                return dict(q=local(H[k + 1], st["q"], interval, 10, 1e-3, p.ow, p.pw))
            lo, hi = p.around(st["q"], interval)
            return dict(q=single(H[k + 1], st["q"], lo, hi, p.ow, p.pw))
        q = single(H[0], q0, p.limits[:, 0], p.limits[:, 1], p.ow, p.pw) if start \
            else first(H[0], 10, 1e-3, p.ow, p.pw)
        seq = g.seq("joint values", dict(q=q), step, n - 1)
        g.stub(K.Chain, "inverse", inverse)
        g.stub(K.Chain, "inverse_with_random_restarts", restarted)
        g.stub(K.Chain, "local_inverse_with_random_restarts", local_restarted)
        Q = p.c.inverse_trajectory(H, random_state=rs, **p.kw)
    else:
        H = g.np.array([g.pose(x, q) for x, q in zip(g.arr("positions", n, 3),
                                                      g.units("orientations", n))])
        X = g.arr("X", 10 * n, p.n)
        E = g.arr("E", 10 * n, sample=(0.0, 4e-3))
        want, calls, group = [], [], []

        def finish():
            want.append(X[min(group, key=lambda k: E[k])])
            del group[:]

        def optimizer(objective, x0, method, bounds):
            t, k = len(want), len(calls)
            g.true("one solution per pose", t < n)
            b = p.limits if t == 0 else p.pairs(*p.around(want[-1], interval))
            p.check_call(objective, method, bounds, H[t], b)
            if not group and (t > 0 or start):
                g.eq("search starts at the previous solution", x0, want[-1] if t else q0)
            else:
                p.inside("restarts are within the bounds", x0, b)
            calls.append(k)
            group.append(k)
            once = start if t == 0 else not random
            if once or E[k] <= 1e-3 or len(group) == 10:
                finish()
            return X[k], float(E[k])
        g.optimizer(optimizer)
        Q = p.c.inverse_trajectory(H, random_state=rs, **p.kw)
        g.true("every pose is handled", len(want) == n and not group)
    g.cover("inverse kinematics of a trajectory")
    g.eq("one solution per pose", Q.shape, (n, p.n))
    t = g.idx("t", n)
    g.eq("solutions in the order of the poses", Q[t], seq.at(t)["q"] if g.sym else want[t])
