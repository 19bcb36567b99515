"""Concrete side of the contracts: evaluates a contract on the real code.

Runs under the repository's interpreter.  The same contract text that is
proved symbolically is evaluated on generated inputs, with the compiled
extension built from the current source.
"""
import contextlib
import importlib
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

import numpy as np


class Skip(Exception):
    """Input outside of the precondition."""


class Violation(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label = label
        self.detail = detail


OPTIMIZER = {}


class Robot:
    """Chain of joints between fixed links, with a branch on the side."""
    base, ee = "base", "ee"

    def __init__(self, g, K):
        self.n = n = g.dim("n_joints", 1)
        self.child, self.ax, self.rev, self.lim, self.names = [], [], [], [], []
        tm = self.tm = K.FastUrdfTransformManager()
        inf = float("inf")
        before, self.fixed = self.base, []
        for i in range(n):
            T = g.pose(g.arr("link%d" % i, 3), g.unit("link rotation%d" % i))
            link = self.ee if i == n - 1 else "link%d" % i
            if g.flag("fixed link%d" % i):
                F = g.pose(g.arr("fixed%d" % i, 3), g.unit("fixed rotation%d" % i))
                tm.add_transform("mount%d" % i, before, F)
                before = "mount%d" % i
            else:
                F = np.eye(4)
            self.fixed.append(F)
            axis = g.unit("axis%d" % i, 3)
            lo = g.real("lower%d" % i, sample=(-3.0, 1.0))
            hi = lo + g.real("width%d" % i, pos=True, sample=(0.1, 4.0))
            k = g.choice("limits%d" % i, 4)
            lo, hi = (-inf if k in (1, 3) else lo), (inf if k in (2, 3) else hi)
            rev = g.flag("revolute%d" % i)
            tm.add_joint("joint%d" % i, link, before, T, axis, (lo, hi),
                         "revolute" if rev else "prismatic")
            tm.add_transform("tip%d" % i, link, np.eye(4))
            self.child.append(T)
            self.ax.append(np.array(axis))
            self.rev.append(rev)
            self.lim.append((lo, hi))
            self.names.append("joint%d" % i)
            before = link
        for i in range(n):
            if g.flag("moved%d" % i):
                tm.set_joint(self.names[i], float(g.real("earlier%d" % i)))

    def child2parent(self, i):
        return self.child[i]

    def axis(self, i):
        return self.ax[i]

    def revolute(self, i):
        return self.rev[i]

    def limits(self, i):
        return self.lim[i]

    def stored(self, i):
        a, b = self.tm._joints[self.names[i]][:2]
        return np.array(self.tm.get_transform(a, b))

    def pose(self, fn):
        m = np.eye(4)
        for i in range(self.n):
            m = m.dot(self.fixed[i]).dot(fn(i))
        return m

    def check(self, g, label, H, fn, i):
        g.eq(label, H, self.pose(fn))
        return np.array(H)


class CGhost:
    def __init__(self, name, init, guard, step, **kw):
        s = {k: np.array(v, dtype=float) if isinstance(v, np.ndarray) else v
             for k, v in init.items()}
        n = 0
        while guard(s):
            s = step(s)
            n += 1
            if n > 100000:
                raise Skip("too many iterations")
        self.final = s
        self.steps = n


class CSeq:
    def __init__(self, name, init, step, n, **kw):
        s = {k: np.array(v, dtype=float) if isinstance(v, np.ndarray) else v
             for k, v in init.items()}
        self.n = n
        self.states = [s]
        for k in range(n):
            s = step(s, k)
            self.states.append(s)
        self.init, self.final = self.states[0], s

    def at(self, k):
        return self.states[k]


class ConG:
    mode = "C"
    sym = False
    np = np

    def __init__(self, rng, hints=None, size=1.0):
        self.rng = rng
        self.hints = hints or {}
        self.drawn = {}
        self.seen = {}
        self.checked = 0
        self.labels = {}
        self.size = size
        self.tol = 1e-6
        self.choices = {}
        self.force = {}

    # ------------------------------------------------------------- drawing
    def _hint(self, name):
        """Recorded value; later drawings of a name are numbered."""
        self.seen[name] = self.seen.get(name, 0) + 1
        k = self.seen[name]
        self.key = name if k == 1 else "%s#%d" % (name, k)
        h = self.hints.get(self.key)
        if h is None:
            h = self.hints.get(name)
            h = None if isinstance(h, list) else h
        return h

    def dim(self, name, lo=1, hi=None):
        h = self._hint(name)
        hi = hi if hi is not None else lo + 4
        v = int(h) if h is not None else int(self.rng.integers(lo, hi + 1))
        if v > 40:
            v = 40
        self.drawn[self.key] = v
        return v

    def real(self, name, pos=False, lo=None, hi=None, nonneg=False, sample=None):
        """Real number; `sample` is the range tried, not a precondition."""
        if sample is not None:
            lo, hi = sample
        h = self._hint(name)
        if h is not None:
            v = max(-1e3 if lo is None else lo, min(1e3 if hi is None else hi, float(h)))
        else:
            v = self._value()
            if pos or nonneg:
                v = abs(v) + (0.05 if pos else 0.0)
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * self.rng.random()
            elif lo is not None:
                v = lo + abs(v)
            elif hi is not None:
                v = hi - abs(v)
        self.drawn[self.key] = v
        return v

    def _value(self):
        r = self.rng.random()
        if r < 0.08:
            return float(self.rng.integers(-2, 3))
        return float(self.rng.normal() * self.size)

    def time(self, name, pos=False, nonneg=False):
        """Times are multiples of 2^-8, so that sums of them are exact."""
        h = self._hint(name)
        if h is not None:
            v = round(max(-8.0, min(8.0, float(h))) * 256) / 256.0
            if pos and v <= 0:
                v = 1 / 256.0
            if nonneg:
                v = max(v, 0.0)
        else:
            v = int(self.rng.integers(1 if pos else 0 if nonneg else -128, 640)) / 256.0
            if nonneg and self.rng.random() < 0.2:
                v = 0.0
        self.drawn[self.key] = v
        return v

    def int(self, name, lo, hi=None):
        return self.dim(name, lo, hi)

    def arr(self, name, *shape, pos=False, sample=None):
        h = self._hint(name)
        a = np.empty(shape)
        it = np.ndindex(*shape)
        for idx in it:
            v = None
            if isinstance(h, dict):
                v = h.get(",".join(str(i) for i in idx))
            elif h is not None:
                v = np.asarray(h, dtype=float)[idx]
            if v is None:
                v = self._value()
                if pos:
                    v = abs(v) + 0.05
                if sample is not None:
                    v = sample[0] + (sample[1] - sample[0]) * self.rng.random()
            a[idx] = max(-1e3, min(1e3, float(v)))
            if sample is not None:
                a[idx] = max(sample[0], min(sample[1], a[idx]))
        if pos:
            a = np.abs(a) + (a == 0) * 0.05
        self.drawn[self.key] = a.tolist()
        return a.copy()

    def times(self, name, n):
        """Strictly increasing sample times."""
        h = self._hint(name)
        if h is not None and not isinstance(h, dict):
            a = np.array(h, dtype=float)
        else:
            d = self.rng.integers(8, 64, size=n) / 256.0
            if self.rng.random() < 0.4:
                d[:] = d[0]
            a = np.cumsum(d) - d[0]
            a = a + float(self.rng.integers(-64, 64)) / 256.0
        self.drawn[self.key] = a.tolist()
        return a.copy()

    def psd(self, name, n, definite=True):
        h = self._hint(name)
        if h is not None and not isinstance(h, dict):
            a = np.array(h, dtype=float)
        else:
            b = self.rng.normal(size=(n, n))
            a = b.dot(b.T) / n + 0.3 * np.eye(n)
            if self.rng.random() < 0.4:
                a = 0.02 * a
        self.drawn[self.key] = a.tolist()
        return a.copy()

    def unit(self, name, n=4):
        h = self._hint(name)
        if h is not None:
            if isinstance(h, dict):
                q = np.array([float(h.get(str(i), 0.0)) for i in range(n)])
            else:
                q = np.array(h, dtype=float)
            m = np.linalg.norm(q)
            if m < 1e-9:
                raise Skip("zero quaternion")
            q = q / m
        else:
            r = self.rng.random()
            q = self.rng.normal(size=n)
            if r < 0.15:
                q = np.eye(n)[int(self.rng.integers(0, n))]
            elif r < 0.3:
                # close to the identity
                q = np.concatenate([[1.0], 1e-3 * q[1:]])
            q = q / np.linalg.norm(q)
            if self.rng.random() < 0.3:
                q = -q
        self.drawn[self.key] = q.tolist()
        return q.copy()

    quat = unit

    def units(self, name, n):
        """Rows of unit quaternions; half of the time a smooth sequence."""
        h = self._hint(name)
        if h is not None and not isinstance(h, dict):
            a = np.array(h, dtype=float)
        else:
            a = self.rng.normal(size=(n, 4))
            if self.rng.random() < 0.5:
                a = np.cumsum(0.3 * a, axis=0) + self.rng.normal(size=4)
            a = a / np.linalg.norm(a, axis=1)[:, None]
        self.drawn[self.key] = a.tolist()
        return a.copy()

    def flag(self, name):
        return bool(self.choice(name, 2))

    def choice(self, name, n):
        h = self._hint(name)
        v = int(h) if h is not None else int(self.rng.integers(0, n))
        v %= n
        self.drawn[self.key] = v
        return v

    def opt(self, name):
        return self.flag(name)

    # ------------------------------------------------------------ opaque
    def fun(self, name, shape):
        """Opaque smooth function of arbitrary array/scalar arguments."""
        h = abs(hash_name(name))
        rng = np.random.RandomState((h + int(self.choice(name + "#fun", 1000))) % (2 ** 31))

        def f(*args):
            x = np.concatenate([np.ravel(np.asarray(a, dtype=float)) for a in args]) \
                if args else np.zeros(0)
            r = np.random.RandomState(rng_seed)
            w = r.normal(size=(int(np.prod(shape)) if shape else 1, x.size))
            b = r.normal(size=w.shape[0])
            v = np.sin(w.dot(x) / (1.0 + np.linalg.norm(x)) + b)
            return v.reshape(shape) if shape else float(v[0])
        rng_seed = int(rng.randint(0, 2 ** 31 - 1))
        return f

    def forcing(self, name, n):
        return CForcing(self, name, n)

    def coupling(self, name, ny, nv):
        f = self.fun(name + ".cd", (nv,))
        h = self.fun(name + ".cdd", (nv,))
        return COpaqueCoupling(f, h)

    # ------------------------------------------------------------- contract
    def assume(self, c):
        if not np.all(c):
            raise Skip()

    def ghost(self, name, **kw):
        return CGhost(name, **kw)

    def seq(self, name, *a, **kw):
        return CSeq(name, *a, **kw)

    def unfold(self, seq, k, *idx):
        """Lemma of the proof; nothing to do on concrete runs."""

    def simulate(self, label, a, b, phi):
        """Lemma of the proof; nothing to do on concrete runs."""

    @contextlib.contextmanager
    def scratch(self, name):
        """A file that does not exist yet."""
        d = tempfile.mkdtemp(prefix="vcfile")
        try:
            yield os.path.join(d, name)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def write_plain(self, name, fmt, data):
        """File with the given content, not written by the code."""
        import json
        with open(name, "w") as f:
            json.dump(data, f)

    def freeze(self, *objs):
        return [(o, snapshot(o)) for o in objs]

    def frame(self, label, frozen):
        for i, (o, s) in enumerate(frozen):
            self.checked += 1
            if not same_snapshot(snapshot(o), s):
                raise Violation(label, "argument %d was modified" % i)

    @contextlib.contextmanager
    def pure(self, *objs, allow=()):
        yield

    def eq(self, label, a, b, tol=None):
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                raise Violation(label, "lengths %d and %d" % (len(a), len(b)))
            for x, y in zip(a, b):
                self.eq(label, x, y, tol)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if a is not b and a != b:
                raise Violation(label, "%r is not %r" % (a, b))
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            if a is not b:
                raise Violation(label, "%r is not %r" % (a, b))
            return
        if x.shape != y.shape:
            raise Violation(label, "shape %s, contract says %s" % (x.shape, y.shape))
        x = x.astype(float)
        y = y.astype(float)
        if np.any(~np.isfinite(y)) or np.any(np.abs(y) > 1e5):
            # the specification itself overflows or is undefined here
            raise Skip()
        tol = self.tol if tol is None else tol
        scale = 1.0 + (np.max(np.abs(y)) if y.size else 0.0)
        bad = ~(np.abs(x - y) <= tol * scale)
        if np.any(bad):
            raise Violation(label, "got %s, contract says %s" % (
                np.array2string(x, threshold=20), np.array2string(y, threshold=20)))

    def true(self, label, c):
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not np.all(c):
            raise Violation(label, "condition is false")

    def lt(self, label, a, b, slack=1e-9):
        self.true(label, np.asarray(a) < np.asarray(b) + slack * (1 + np.abs(b)))

    def le(self, label, a, b, slack=1e-9):
        self.true(label, np.asarray(a) <= np.asarray(b) + slack * (1 + np.abs(b)))

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation(label, "raised %s instead of %s" % (type(e).__name__, exc))
        raise Violation(label, "did not raise")

    def call(self, label, fn):
        """Call that has to succeed."""
        return fn()

    def is_(self, label, a, b):
        self.checked += 1
        if a is not b:
            raise Violation(label, "not the same object")

    def no_alias(self, label, a, others):
        self.checked += 1
        for o in others:
            if isinstance(o, np.ndarray) and np.shares_memory(a, o):
                raise Violation(label, "result shares memory with internal state")

    def ceil(self, x):
        return int(np.ceil(x))

    def stack(self, n, fn, width=None, special=()):
        special = {at: f for at, f in special}
        return np.array([special[k]() if k in special else fn(k) for k in range(n)])

    def same_rotation(self, label, a, b):
        """Equal up to the sign of the quaternion."""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape == b.shape and a.shape[-1:] == (4,):
            s = np.where(np.sum(a * b, axis=-1, keepdims=True) < 0, -1.0, 1.0)
            a = s * a
        self.eq(label, a, b)

    def qlog(self, q):
        """Rotation vector; undefined for half turns."""
        q = np.asarray(q, dtype=float)
        q = q / np.linalg.norm(q)
        if q[0] < 0:
            q = -q
        m = np.linalg.norm(q[1:])
        if q[0] < 1e-6:
            raise Skip("half turn")
        if m == 0.0:
            return np.zeros(3)
        return 2.0 * np.arctan2(m, q[0]) * q[1:] / m

    def qexp(self, a):
        a = np.asarray(a, dtype=float)
        th = np.linalg.norm(a)
        if th == 0.0:
            return np.array([1.0, 0.0, 0.0, 0.0])
        if th > 3.1:
            raise Skip("more than half a turn in one substep")
        return np.concatenate(([np.cos(0.5 * th)], np.sin(0.5 * th) * a / th))

    def pose(self, p, q):
        w, x, y, z = q
        m = np.eye(4)
        m[:3, :3] = [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
        m[:3, 3] = p
        return m

    def robot(self, K):
        return Robot(self, K)

    def optimizer(self, fn):
        """Replaces scipy's optimizer by fn(objective, start, method,
        bounds), which returns solution and objective."""
        import scipy.optimize
        real = OPTIMIZER.setdefault("real", scipy.optimize.minimize)

        def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None,
                     bounds=None, *more, **kw):
            if not isinstance(args, tuple):
                args = (args,)
            if bounds is not None:
                if hasattr(bounds, "lb"):
                    bounds = np.column_stack((bounds.lb, bounds.ub))
                bounds = np.array(bounds, dtype=float)
            x, f = OPTIMIZER["fn"](lambda x: fun(x, *args), np.array(x0, dtype=float), method,
                                   bounds)
            return scipy.optimize.OptimizeResult(x=x, fun=f, success=True, status=0, nit=1,
                                                 nfev=1, message="")
        OPTIMIZER["fn"] = fn
        if scipy.optimize.minimize is real:
            scipy.optimize.minimize = minimize
            for name, m in list(sys.modules.items()):
                if name.startswith("movement_primitives"):
                    for k, v in list(vars(m).items()):
                        if v is real:
                            setattr(m, k, minimize)

    def mvn(self, cls):
        """Replaces the Gaussian distribution of gmr."""
        import gmr
        real = OPTIMIZER.setdefault("mvn", gmr.MVN)
        OPTIMIZER["mvn class"] = cls

        def make(*a, **k):
            return OPTIMIZER["mvn class"](*a, **k)
        if gmr.MVN is real:
            gmr.MVN = make
            for name, m in list(sys.modules.items()):
                if name.startswith("movement_primitives"):
                    for k, v in list(vars(m).items()):
                        if v is real:
                            setattr(m, k, make)

    def demonstrations(self, name, n, width):
        """List of n pairs of times and samples."""
        out = []
        for i in range(n):
            m = self.dim("%s.steps%d" % (name, i), 2, 9)
            out.append((self.times("%s.t%d" % (name, i), m), self.arr("%s.y%d" % (name, i), m, width)))
        return out

    def stub(self, module, name, contract):
        pass

    def cover(self, label):
        pass

    def skip(self):
        raise Skip()

    def where(self, c, a, b):
        return np.where(c, a, b)

    def random_state(self, **methods):
        """Source of random numbers, some of whose methods are given."""
        rs = type("RandomState", (np.random.RandomState,),
                  {k: staticmethod(f) for k, f in methods.items()})
        return rs(int(self.rng.integers(2**31)))

    def sum(self, n, fn):
        """Sum of fn(k) over k < n."""
        return sum(fn(k) for k in range(n))

    def ite(self, c, a, b):
        return a if c else b

    def peek(self, a, *idx):
        return a[idx]

    def idx(self, name, n):
        """Arbitrary index below n."""
        return self.choice(name, n)


class CForcing:
    """Opaque forcing term."""

    def __init__(self, g, name, n):
        self._ph = g.fun(name + ".phase", ())
        self._f = [g.fun(name + ".f%d" % d, ()) for d in range(n)]
        self.n = n
        self._scale = (1.0, 0.1, 0.001)[g.choice(name + ".scale", 3)]

    def phase(self, t):
        if np.ndim(t) == 0:
            return self._scale * (1.1 + 0.5 * self._ph(float(t)))
        return np.array([self.phase(x) for x in t])

    def forcing_term(self, z):
        z = np.atleast_1d(z)
        return np.array([[5.0 * self._f[d](float(x)) for x in z] for d in range(self.n)])


class COpaqueCoupling:
    def __init__(self, f, h):
        self.f, self.h = f, h

    def coupling(self, y, yd=None):
        return self.f(y, yd), self.h(y, yd)


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def snapshot(o, depth=0):
    if isinstance(o, np.ndarray):
        return ("a", o.shape, o.tobytes() if o.dtype != object else repr(o))
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return ("s", repr(o))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(snapshot(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("d", tuple(sorted((repr(k), snapshot(v, depth + 1)) for k, v in o.items())))
    if hasattr(o, "__dict__") and depth < 4 and not callable(o):
        return ("o", type(o).__name__, tuple(sorted(
            (k, snapshot(v, depth + 1)) for k, v in o.__dict__.items())))
    return ("x", id(o))


def same_snapshot(now, before):
    """Attributes added later and private memory are nobody's business."""
    if now[0] != before[0]:
        return False
    if now[0] == "l":
        return len(now[1]) == len(before[1]) and all(map(same_snapshot, now[1], before[1]))
    if now[0] == "o":
        new = dict(now[2])
        return now[1] == before[1] and all(
            k in new and same_snapshot(new[k], v) for k, v in before[2]
            if not (k.startswith("_") and v[0] == "d" or v == ("s", "None") and k.startswith("_")))
    return now == before


# ------------------------------------------------------------ real modules
class ExtFinder:
    """Loads the compiled extension from where it was built for this run."""

    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == "movement_primitives.dmp_fast":
            if self.so is None:
                return None
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


class RealModules:
    """Attribute access to the real modules of the package."""

    def __init__(self, repo, so):
        sys.meta_path.insert(0, ExtFinder(so))
        sys.path.insert(0, repo)

    def __call__(self, name):
        return importlib.import_module("movement_primitives." + name)
