"""Symbolic side of the contracts."""
import contextlib
import types

from . import terms as T
from .engine import Engine, Infeasible, StopPath
from .files import Text, make_files, plain
from .loader import Loader
from .loops import VC, Ghost, SeqGhost, SList
from .npshim import make_cy, make_numpy, math_mod
from .ptshim import MVN, OPTIMIZER, Numba, SymRobot, homogeneous, make_gmr, make_pr, make_scipy, \
    make_tqdm, qexp, qlog, unit4
from .symarray import (Arr, as_arr, ci, from_fn, from_list, idx_ctx,
                       scalar_value)
from .terms import (FALSE, TRUE, Num, SBool, Unsupported, as_bool, as_num,
                    conj, eq0, ite, le0, lt0, neg)


class BGhost:
    """Bounded evaluation of a loop contract."""

    def __init__(self, eng, name, init, guard, step, limit, **kw):
        s = dict(init)
        for k, v in s.items():
            if isinstance(v, Arr):
                s[k] = from_fn(v.shape, v.snap())
        n = 0
        while bool(as_bool(guard(s))):
            if n >= limit:
                eng.unroll_hit = True
                raise StopPath()
            s = step(s)
            n += 1
        self.final = s


class GhostState:
    """Ghost variables."""


class SymG:
    sym = True

    def __init__(self, eng, vc, np, dims=None):
        self.eng = eng
        self.vc = vc
        self.np = np
        self.mode = eng.mode
        self.dims = dims or {}
        self.labels = {}
        self.stubbed = []
        self.seen = {}

    # ------------------------------------------------------------- drawing
    def _once(self, name):
        """Later drawings of a name are other values."""
        self.seen[name] = k = self.seen.get(name, 0) + 1
        return name if k == 1 else "%s#%d" % (name, k)

    def dim(self, name, lo=1, hi=None):
        name = self._once(name)
        if self.mode == "B":
            return self.dims.get(name, max(lo, min(2, hi or 2)))
        v = T.var(name, "I")
        T.single_atom(v).meta = {"input": True}
        self.eng.assume(le0(lo - v))
        if hi is not None:
            self.eng.assume(le0(v - hi))
        return v

    def int(self, name, lo, hi=None):
        return self.dim(name, lo, hi)

    def real(self, name, pos=False, lo=None, hi=None, nonneg=False, sample=None):
        name = self._once(name)
        v = T.var(name)
        m = T.single_atom(v)
        m.meta = dict(m.meta or {})
        m.meta["input"] = True
        if pos:
            m.meta["pos"] = True
            self.eng.assume(lt0(-v))
        if nonneg:
            self.eng.assume(le0(-v))
        if lo is not None:
            self.eng.assume(le0(as_num(lo) - v))
        if hi is not None:
            self.eng.assume(le0(v - as_num(hi)))
        return v

    time = real

    def arr(self, name, *shape, pos=False, sample=None):
        name = self._once(name)
        meta = {"input": True}
        if pos:
            meta["pos"] = True
        return from_fn(shape, lambda i: T.mk_app(
            name, tuple(as_num(x) for x in i), meta=dict(meta)), tag=name)

    def times(self, name, n):
        """Strictly increasing times."""
        name = self._once(name)
        return from_fn((n,), lambda i: T.mk_app(
            name, (as_num(i[0]),), meta={"input": True, "incr": True}), tag=name)

    def psd(self, name, n, definite=True):
        name = self._once(name)

        def cell(args):
            a, b = args
            ca, cb = a.const(), b.const()
            if (ca > cb) if ca is not None and cb is not None else a.fp > b.fp:
                a, b = b, a
            return T.mk_app(name, (a, b), meta={"input": True, "rebuild": cell})
        return from_fn((n, n), lambda i: cell((as_num(i[0]), as_num(i[1]))), tag=name)

    def unit(self, name, n=4):
        name = self._once(name)
        if n != 4:
            h = [T._h(name, k) * T.Decimal("0.28") for k in range(n - 1)]
            vs = [T.mk_app(name, (as_num(k),), fp=h[k], meta={"input": True}) for k in range(n - 1)]
            sq = T.ONE
            for v in vs:
                sq = sq - v * v
            vs.append(T.mk_app(name, (as_num(n - 1),), square=sq, fp=sq.val.sqrt(),
                               meta={"input": True}))
            return from_list(vs)
        h = [T._h(name, k) * T.Decimal("0.28") for k in range(3)]
        vs = [T.mk_app(name, (as_num(k),), fp=h[k], meta={"input": True}) for k in range(3)]
        sq = 1 - vs[0] * vs[0] - vs[1] * vs[1] - vs[2] * vs[2]
        vs.append(T.mk_app(name, (as_num(3),), square=sq, fp=sq.val.sqrt(), meta={"input": True}))
        r = from_list(vs)
        r.st.tag = name
        return r

    quat = unit

    def units(self, name, n):
        """Array of n unit quaternions."""
        name = self._once(name)

        def fn(i):
            r, k = i
            return unit4(name, (as_num(r),), {"input": True})[k] if isinstance(k, int) else _row(r, k)

        def _row(r, k):
            v = unit4(name, (as_num(r),), {"input": True})
            return ite(eq0(as_num(k)), v[0], ite(eq0(as_num(k) - 1), v[1],
                       ite(eq0(as_num(k) - 2), v[2], v[3])))
        return from_fn((n, 4), fn, tag=name)

    def flag(self, name):
        b = self.eng.fork()
        self.eng.choice_log.append((self._once(name), int(b)))
        return b

    def choice(self, name, n):
        k = self.eng.choose(n)
        self.eng.choice_log.append((self._once(name), k))
        return k

    # -------------------------------------------------------------- opaque
    def fun(self, name, shape, meta=None):
        def lam(a):
            a = as_arr(a) if not isinstance(a, (Num, int, float)) else as_num(a)
            if isinstance(a, Arr):
                if all(isinstance(d, int) for d in a.shape):
                    from .symarray import all_idx
                    return [as_num(a.get(i)) for i in all_idx(a.shape)]
                vs = [T.fresh("l") for _ in a.shape]
                with self.eng.assuming(*idx_ctx(vs, a.shape)):
                    body = a.get(tuple(vs))
                return [T.close_lam(vs, body, a.shape)]
            return [as_num(a)]

        def f(*args):
            xs = []
            for a in args:
                xs.extend(lam(a))
            if not shape:
                return T.mk_app(name, tuple(xs), meta=meta)
            return from_fn(shape, lambda i: T.mk_app(
                name, tuple(xs) + tuple(as_num(k) for k in i), meta=meta))
        return f

    def forcing(self, name, n):
        return SForcing(self, name, n)

    def coupling(self, name, ny, nv):
        return SCoupling(self.fun(name + ".cd", (nv,)), self.fun(name + ".cdd", (nv,)))

    # ------------------------------------------------------------- contract
    def assume(self, c):
        self.eng.assume(as_bool(c))

    def ghost(self, name, init, guard, step, **kw):
        if self.mode == "B":
            return BGhost(self.eng, name, init, guard, step, self.eng.unroll, **kw)
        g = Ghost(name, init, guard, step, **kw)
        self.vc.offered.append(g)
        return g

    def seq(self, name, init, step, n, **kw):
        """Sequence of states that a loop with n iterations records."""
        if self.mode == "B":
            raise Unsupported("recording loops are not evaluated with a bound")
        g = SeqGhost(name, init, step, n, **kw)
        self.vc.offered.append(g)
        return g

    def state(self, **attributes):
        """Ghost variables that stubs read and assign."""
        s = GhostState()
        s.__dict__.update(attributes)
        self.vc.track(s)
        return s

    def unfold(self, seq, k, *idx):
        """Definition of a state of a sequence by the one before (k > 0), for
        one cell of its arrays."""
        prev = seq.at(as_num(k) - 1)
        new, raw = seq.step(prev, as_num(k) - 1), seq.raw(k)
        for c in raw:
            a, b = (raw[c], new[c]) if not isinstance(raw[c], Arr) else \
                (raw[c].get(idx), as_arr(new[c]).get(idx))
            self.eng.assume(eq0(as_num(a) - as_num(b)))

    def simulate(self, label, a, b, phi):
        """Lemma: run b is the image of run a under phi (by induction over
        the iterations); b's final state becomes the image of a's."""
        if self.mode == "B":
            return
        eng = self.eng
        gen = a.state("SIM")

        def same(what, x, y):
            for k in b.init:
                eng.eq("%s: %s %s" % (label, k, what), x[k], y[k], "lemma")
        same("initially", b.init, phi(a.init))
        img = phi(gen)
        with eng.assuming(*[as_bool(c) for c in a.inv(gen)]):
            ga, gb = as_bool(a.guard(gen)), as_bool(b.guard(img))
            eng.prove("%s: both runs end together" % label,
                      T.conj(T.disj(T.neg(ga), gb), T.disj(T.neg(gb), ga)), "lemma")
            with eng.assuming(ga):
                same("after one iteration", b.step(img), phi(a.step(gen)))
        b._fin = phi(a.final)

    def freeze(self, *objs):
        out = []
        for o in objs:
            if isinstance(o, Arr):
                out.append((o, o.st.content, from_fn(o.shape, o.snap())))
            elif hasattr(o, "__dict__"):
                out.append((o, dict(o.__dict__),
                            [(v, from_fn(v.shape, v.snap())) for v in o.__dict__.values()
                             if isinstance(v, Arr)]))
        return out

    def frame(self, label, frozen):
        for o, c, old in frozen:
            if isinstance(o, Arr):
                if o.st.content is c:
                    self.eng.record(label, "frame", "proved", "normalisation", 0.0)
                else:
                    self.eng.eq(label, o, old, "frame")
            else:
                for k, v in o.__dict__.items():
                    if k not in c or c[k] is not v:
                        if k in c and scalar_value(v) is not None:
                            self.eng.eq("%s: %s" % (label, k), v, c[k], "frame")
                            continue
                        if isinstance(v, Arr):
                            for x, y in old:
                                if x is c.get(k):
                                    self.eng.eq("%s: %s" % (label, k), v, y, "frame")
                        if self.mode == "U":
                            # equal values or unobservable memory: left to the evaluation
                            self.eng.record("%s: attribute %s" % (label, k), "history",
                                            "refuted", "engine", 0.0, "attribute replaced")
                for v, ov in old:
                    self.eng.eq(label, v, ov, "frame")

    @contextlib.contextmanager
    def pure(self, *objs, allow=()):
        """Calls inside leave no trace but in the allowed attributes, so that
        contracts hold after any history."""
        def places():
            for o in objs:
                yield "", vars(o)
                for c in type(o).__mro__:
                    if c.__module__.startswith("movement_primitives"):
                        yield " of the class", vars(c)
                        for f in vars(c).values():
                            if isinstance(f, types.FunctionType):
                                yield " of the module", f.__globals__
                                break

        def state(o):
            return {k: (v, len(v) if isinstance(v, (dict, list, set)) else
                        v.st.content if isinstance(v, Arr) else None)
                    for k, v in o.items()}
        before = [state(o) for _, o in places()]
        yield
        for (where, o), old in zip(places(), before):
            new = state(o)
            bad = [k for k in new if k not in allow and (
                k not in old or new[k][0] is not old[k][0] or new[k][1] is not old[k][1]
                and new[k][1] != old[k][1])]
            if self.mode == "U":
                self.eng.record("no trace is left" + where, "history", "refuted" if bad else
                                "proved", "engine", 0.0, "changed: %s" % bad if bad else None)

    def eq(self, label, a, b, tol=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        return self.eng.eq(label, a, b)

    def true(self, label, c):
        if isinstance(c, Arr):
            for idx, cs, txt in self.eng.generic_indices(c.shape):
                with self.eng.assuming(*cs):
                    self.eng.prove(label + txt, as_bool(c.get(idx)))
            return
        return self.eng.prove(label, as_bool(c))

    def lt(self, label, a, b, slack=None):
        return self.true(label, as_num(a) < as_num(b) if not isinstance(a, Arr) and
                         not isinstance(b, Arr) else as_arr(a) < b)

    def le(self, label, a, b, slack=None):
        return self.true(label, as_num(a) <= as_num(b) if not isinstance(a, Arr) and
                         not isinstance(b, Arr) else as_arr(a) <= b)

    def raises(self, label, exc, fn):
        try:
            fn()
        except (Unsupported, Infeasible, StopPath):
            raise
        except exc:
            self.eng.record(label, "raises", "proved", "path enumeration", 0.0)
            return
        except Exception as e:
            # may come from the extraction itself, so it is left to the evaluation
            raise Unsupported("%s: raised %s: %s" % (label, type(e).__name__, e))
        self.eng.record(label, "raises", "refuted", "path enumeration", 0.0,
                        "no exception raised", self.eng.pc_model())

    def is_(self, label, a, b):
        self.eng.record(label, "post", "proved" if a is b else "refuted",
                        "engine", 0.0, None if a is b else "different objects",
                        None if a is b else self.eng.pc_model())

    def no_alias(self, label, a, others):
        for o in others:
            if isinstance(o, Arr) and isinstance(a, Arr) and o.st is a.st:
                self.eng.record(label, "alias", "refuted", "engine", 0.0,
                                "result shares memory with internal state",
                                self.eng.pc_model())
                return
        self.eng.record(label, "alias", "proved", "engine", 0.0)

    def same_rotation(self, label, a, b):
        return self.eq(label, a, b)

    def qlog(self, q):
        return qlog(q)

    def qexp(self, a):
        return qexp(a)

    def pose(self, p, q):
        """Homogeneous matrix of a position and a unit quaternion."""
        return homogeneous(as_arr(p), as_arr(q))

    def abstract(self, name, shape):
        """Result of a function known by its contract only: a function of
        the arguments.  A difference of such results decides nothing."""
        return self.fun(name, shape, meta={"axiom": lambda a: []})

    def robot(self, K):
        """Robot with arbitrary joints."""
        def names(n, fn):
            r = self.vc.lst([])
            r.segs = ((n, fn),)
            return r
        return SymRobot(self, K, names)

    def optimizer(self, fn):
        """Replaces the numerical optimizer by fn(objective, start, method,
        bounds), which returns solution and objective."""
        OPTIMIZER[0] = fn

    def mvn(self, cls):
        """Replaces the Gaussian distribution of gmr."""
        MVN[0] = cls

    def demonstrations(self, name, n, width):
        """List of n pairs of times and samples.  Each has its own number
        of samples; times increase and are at least 0.005 apart on average."""
        busy = []

        def item(i):
            i = as_num(i)

            def axiom(a):
                m = Num({((a.id, 1),): 1}, "I")
                if busy:
                    return [le0(2 - m)]
                t = times(a.args[0], m)
                busy.append(a)
                try:
                    return [le0(2 - m)] + spaced(t)
                finally:
                    busy.pop()

            def spaced(t):
                dt = self.np.mean(self.np.diff(t))
                return [le0(as_num(0.005) - as_num(dt)), lt0(as_num(t[0]) - as_num(t[-1]))]

            def times(i, m):
                return from_fn((m,), lambda k: T.mk_app(
                    name + ".t", (i, as_num(k[0])), meta={"input": True}))
            m = T.mk_app(name + ".steps", (i,), "I", meta={"input": True, "axiom": axiom})
            return (times(i, m), from_fn((m, width), lambda k: T.mk_app(
                name + ".y", (i, as_num(k[0]), as_num(k[1])), meta={"input": True})))
        return self._list(n, item)

    def _list(self, n, item):
        r = self.vc.lst([])
        if isinstance(n, int):
            list.extend(r, [item(i) for i in range(n)])
        else:
            r.segs = ((n, item),)
        return r

    def unzip(self, pairs, n):
        """Lists of the first and of the second elements of n pairs."""
        return [self._list(n, lambda i, j=j: pairs[i][j]) for j in range(2)]

    def stub(self, module, name, contract):
        """Callers are verified against the contract of a function whose
        body has a contract check of its own."""
        if name in module.__dict__:
            f = module.__dict__[name]
            self.stubbed.append((module, name, f))
            setattr(module, name, contract)
            for h in list(module.__dict__.values()):
                d = getattr(h, "__defaults__", None)
                if d and isinstance(h, types.FunctionType) and any(x is f for x in d):
                    self.stubbed.append((h, "__defaults__", d))
                    h.__defaults__ = tuple(contract if x is f else x for x in d)

    @contextlib.contextmanager
    def scratch(self, name):
        """A file that does not exist yet."""
        self.vc.files.clear()
        yield name
        self.vc.files.clear()

    def write_plain(self, name, fmt, data):
        """File with the given content, not written by the code."""
        with self.vc.open(name, "w") as f:
            f.write(Text(fmt, plain(data, fmt)))

    def unstub(self):
        OPTIMIZER[0] = MVN[0] = None
        self.seen = {}
        while self.stubbed:
            owner, name, f = self.stubbed.pop()
            setattr(owner, name, f)

    def cover(self, label):
        """Reachability of this point (guards against vacuous contracts)."""
        self.eng.cover(label)

    def skip(self):
        raise Infeasible()

    def where(self, c, a, b):
        return self.np.where(c, a, b)

    def ceil(self, x):
        return T.ceil_(as_num(x))

    def random_state(self, **methods):
        """Source of random numbers whose methods are given."""
        return types.SimpleNamespace(**methods)

    def sum(self, n, fn):
        """Sum of fn(k) over k < n."""
        return T.sum_(as_num(n), lambda k: as_num(fn(k)))

    def ite(self, c, a, b):
        return ite(as_bool(c), as_num(a), as_num(b))

    def peek(self, a, *idx):
        """Element whose index is known to be in range where it is used."""
        return as_arr(a).get(tuple(idx))

    def peek_row(self, a, k):
        return from_fn(a.shape[1:], lambda i: a.get((as_num(k),) + tuple(i)))

    def stack(self, n, fn, width=None, special=()):
        """Array whose k-th row (number without width) is fn(k); pairs
        (index, function of no argument) in `special` override rows."""
        def cell(k, j):
            def pick(v):
                return as_num(scalar_value(as_arr(v)) if width is None
                              else as_arr(v).get((j,)))
            conds = [eq0(as_num(k) - as_num(at)) for at, _ in special]
            conds = [self.eng.simplify(c) for c in conds]
            r = None
            if TRUE not in conds:
                with T.HOOKS.assuming(*[neg(c) for c in conds]):
                    r = pick(fn(k))
            for c, (_, f) in zip(reversed(conds), reversed(special)):
                if c is TRUE:
                    r = pick(f())
                elif c is not FALSE:
                    with T.HOOKS.assuming(c):
                        v = pick(f())
                    r = v if r is None else ite(c, v, r)
            return r
        n = ci(n)
        if width is None:
            return from_fn((n,), lambda i: cell(i[0], None))
        return from_fn((n, width), lambda i: cell(i[0], i[1]))

    def idx(self, name, n):
        if isinstance(n, int):
            return self.choice(name, n)
        name = self._once(name)
        v = T.var(name, "I")
        T.single_atom(v).meta = {"input": True}
        self.eng.assume(le0(-v))
        self.eng.assume(lt0(v - as_num(n)))
        return v


class SForcing:
    def __init__(self, g, name, n):
        self.name = name
        self.n = n

    def phase(self, t):
        f = lambda v: T.mk_app(self.name + ".phase", (T.real(as_num(v)),))
        if isinstance(t, Arr):
            from .symarray import unop
            return unop(t, f)
        return f(t)

    def forcing_term(self, z):
        z = as_arr(z)
        if isinstance(z, Arr):
            g = z.snap()
            return from_fn((self.n, z.shape[0]), lambda i: T.mk_app(
                self.name + ".f", (as_num(i[0]), g((i[1],)))))
        v = as_num(z)
        return from_fn((self.n, 1), lambda i: T.mk_app(self.name + ".f", (as_num(i[0]), v)))


class SCoupling:
    def __init__(self, f, h):
        self.f, self.h = f, h

    def coupling(self, y, yd=None):
        return self.f(y, yd), self.h(y, yd)


class Modules:
    """Instrumented modules of the package."""

    def __init__(self, loader):
        self.loader = loader

    def __call__(self, name):
        return self.loader.load("movement_primitives." + name)


def make(mode="U", unroll=2, timeout=1500, deadline=None, cython=True, dims=None,
         repo=None, shims=None):
    eng = Engine(mode, unroll, timeout, deadline)
    vc = VC(eng)
    np = make_numpy()
    sh = {"numpy": np, "math": math_mod("math"), "scipy": make_scipy(),
          "numba": Numba(), "pytransform3d": make_pr(), "gmr": make_gmr(),
          "tqdm": make_tqdm(), "__cy__": make_cy()}
    if shims:
        sh.update(shims)
    mem = make_files()
    for k in ("json", "yaml", "pickle"):
        sh.setdefault(k, mem[k])
    ld = Loader(vc, sh, repo)
    ld.builtins["open"] = mem["open"]
    vc.open = mem["open"]
    vc.files = mem["files"]
    return eng, vc, SymG(eng, vc, np, dims), Modules(ld), ld
