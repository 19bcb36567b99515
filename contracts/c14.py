"""C14: final-velocity DMPs follow a quintic meeting the boundary conditions."""
from . import spec

FUNCTIONS = ["dmp._dmp_with_final_velocity.solve_constraints",
             "dmp._dmp_with_final_velocity.apply_constraints",
             "dmp._dmp_with_final_velocity.dmp_step_euler_with_constraints",
             "dmp._dmp_with_final_velocity.DMPWithFinalVelocity.step"]

MOD = "dmp._dmp_with_final_velocity"


def check_boundary(g, M):
    """The target meets the boundary conditions at both ends."""
    m = M(MOD)
    n = g.dim("n", 1)
    t0, h = g.time("t0"), g.time("duration", pos=True)
    t1 = t0 + h
    spec.conditioned(g, t0, h)
    bc = [g.arr(x, n) for x in ("y0", "v0", "a0", "y1", "v1", "a1")]
    fr = g.freeze(*bc)
    c = m.solve_constraints(t0, t1, *bc)
    g.cover("boundary")
    for name, t, vals in (("start", t0, bc[:3]), ("end", t1, bc[3:])):
        got = m.apply_constraints(t, bc[3], t1, c)
        for what, a, b in zip(("position", "velocity", "acceleration"), got, vals):
            g.eq("target at the %s: %s" % (name, what), a, b, tol=1e-4)
    g.frame("solving for the target leaves the boundary values unchanged", fr)


def check_derivatives(g, M):
    """Velocity and acceleration of the target are derivatives of its
    position: all three come from one polynomial."""
    m = M(MOD)
    n = g.dim("n", 1)
    goal_t, left = g.time("goal_t"), g.time("left", nonneg=True)
    t = goal_t - left
    goal = g.arr("goal", n)
    c = g.arr("coefficients", 6, n)
    fr = g.freeze(goal, c)
    p, v, a = m.apply_constraints(t, goal, goal_t, c)
    g.cover("derivatives")
    g.eq("target position is a quintic", p, sum(c[k] * t ** k for k in range(1, 6)) + c[0])
    g.eq("target velocity is the derivative of the position",
         v, sum(k * c[k] * t ** (k - 1) for k in range(2, 6)) + c[1])
    g.eq("target acceleration is the derivative of the velocity",
         a, sum(k * (k - 1) * c[k] * t ** (k - 2) for k in range(3, 6)) + 2 * c[2])
    g.frame("evaluating the target modifies nothing", fr)


def rows(t):
    """Position, velocity and acceleration of a quintic in its coefficients."""
    return [[1, t, t ** 2, t ** 3, t ** 4, t ** 5],
            [0, 1, 2 * t, 3 * t ** 2, 4 * t ** 3, 5 * t ** 4],
            [0, 0, 2, 6 * t, 12 * t ** 2, 20 * t ** 3]]


class Solver:
    """numpy, with a system of equations that has the given solution."""

    def __init__(self, g, matrix, rhs, solution):
        self.g, self.matrix, self.rhs, self.solution = g, matrix, rhs, solution
        self.linalg = self
        self.called = False

    def __getattr__(self, name):
        return getattr(self.g.np, name)

    def solve(self, A, b):
        self.called = True
        self.g.eq("matrix of the boundary conditions", A, self.matrix)
        self.g.eq("boundary values", b, self.rhs)
        return self.solution


def check_closed_form(g, M):
    """The target in between is the quintic in closed form; it depends on
    differences of times only."""
    m = M(MOD)
    n = g.dim("n", 1)
    s = spec.Setup()
    s.start_t, h = g.time("t0"), g.time("duration", pos=True)
    s.goal_t = s.start_t + h
    spec.conditioned(g, s.start_t, h)
    left = g.time("left", nonneg=True)
    tc = s.goal_t - left
    g.assume(left <= h)
    if g.sym:
        # the conditions determine the coefficients, so any boundary values
        # are those of some coefficients
        c = g.arr("coefficients", 6, n)
        A = g.np.array(rows(s.start_t) + rows(s.goal_t))
        b = A.dot(c)
        np = Solver(g, A, b, c)
        g.stub(m, "np", np)
    else:
        b = g.arr("boundary values", 6, n)
    s.start_y, s.start_yd, s.start_ydd, s.goal_y, s.goal_yd, s.goal_ydd = (b[k] for k in range(6))
    c = m.solve_constraints(s.start_t, s.goal_t, *(b[k] for k in range(6)))
    got = m.apply_constraints(tc, s.goal_y, s.goal_t, c)
    if g.sym and not np.called:
        g.skip()
    g.cover("between the ends")
    for what, x, y in zip(("position", "velocity", "acceleration"), got,
                          spec.closed_quintic(s, tc)):
        g.eq("target in between: %s" % what, x, y, tol=1e-4)


def check_after(g, M):
    m = M(MOD)
    n = g.dim("n", 1)
    goal_t, past = g.time("goal_t"), g.time("past", pos=True)
    g.assume(past > spec.END)
    goal = g.arr("goal", n)
    p, v, a = m.apply_constraints(goal_t + past, goal, goal_t, g.arr("coefficients", 6, n))
    g.cover("after")
    g.eq("after the end the target is the goal", p, goal)
    g.eq("after the end the target does not move", v, g.np.zeros(n))
    g.eq("after the end the target does not accelerate", a, g.np.zeros(n))


def _setup(g):
    s = spec.pos_setup(g, both=True)
    s.add_coupling = True
    s.smooth = False
    spec.conditioned(g, s.start_t, s.duration)
    return s


def check_step(g, M):
    s = _setup(g)
    y, yd = g.np.copy(s.y), g.np.copy(s.yd)
    fr = spec.pos_frozen(g, s)
    want = spec.constrained_ghost(g, s, s.y, s.yd)
    spec.pos_call(M(MOD).dmp_step_euler_with_constraints, s, y, yd)
    g.cover("final velocity step")
    g.eq("final-velocity step: position", y, want.final["y"], tol=1e-5)
    g.eq("final-velocity step: velocity", yd, want.final["yd"], tol=1e-5)
    g.eq("final-velocity step covers the whole interval", want.final["t"], s.t)
    g.frame("final-velocity step modifies only the state", fr)
