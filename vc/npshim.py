"""Assumed contracts of numpy, math, scipy and the Cython runtime."""
import types

from . import symarray as S
from . import terms as T
from .symarray import (Arr, as_arr, binop, ci, conj, copy, dim_equal, dot,
                       eqc, from_fn, from_list, num_of, operand, prod,
                       reduce_sum, scalar_value, unop)
from .terms import (FALSE, ONE, TRUE, ZERO, Num, SBool, Unsupported, as_bool,
                    as_num, eq0, ite, le0, lt0)
from .loader import SymFloat, SymInt, SymIter, is_sym_iter, to_sym_iter


class NS:
    """Namespace whose missing members are reported as unsupported."""

    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing("%s.%s" % (self._name, k))


class Missing:
    """Library member without an assumed contract: may be imported, not used."""

    def __init__(self, name):
        self.__dict__["_missing"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing("%s.%s" % (self._missing, k))

    def __call__(self, *a, **k):
        raise Unsupported(self._missing)

    def __mro_entries__(self, bases):
        return (object,)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(ci(x) for x in s)
    if isinstance(s, Arr):
        return tuple(ci(x) for x in s)
    return (ci(s),)


def zeros(shape, dtype=None, order="C"):
    T.real_type(dtype)
    return from_fn(_shape(shape), lambda i: ZERO)


def ones(shape, dtype=None):
    T.real_type(dtype)
    return from_fn(_shape(shape), lambda i: ONE)


def full(shape, v, dtype=None):
    T.real_type(dtype)
    g = S.broadcast_value(v, _shape(shape))
    return from_fn(_shape(shape), g)


_N = [0]


def empty(shape, dtype=None, order="C"):
    T.real_type(dtype)
    _N[0] += 1
    k = _N[0]
    return from_fn(_shape(shape), lambda i: T.mk_app(
        "uninit!%d" % k, tuple(as_num(x) for x in i)), tag="uninit")


def empty_like(a, dtype=None):
    T.real_type(dtype)
    a = as_arr(a)
    return empty(a.shape)


def zeros_like(a, dtype=None):
    T.real_type(dtype)
    a = as_arr(a)
    if not isinstance(a, Arr):
        return ZERO
    return zeros(a.shape)


def ones_like(a, dtype=None):
    T.real_type(dtype)
    a = as_arr(a)
    return ones(a.shape) if isinstance(a, Arr) else ONE


def full_like(a, v, dtype=None):
    T.real_type(dtype)
    a = as_arr(a)
    return full(a.shape, v)


def _typed(r, dtype):
    """Numbers of the type, which is double unless all of them are whole."""
    name = None if dtype is None else T.type_name(dtype)
    if name in ("int", "SymInt", "int64", "intp"):
        if isinstance(r, Arr) and all(isinstance(n, int) for n in r.shape) and all(
                scalar_value(v) is not None and as_num(v).sort != "R" for v in r.ravel()):
            return r
    T.real_type(dtype)
    return r


def array(x, dtype=None, copy=True, ndmin=0):
    r = _typed(from_list(x), dtype)
    if not isinstance(r, Arr):
        v = r
        r = Scalar0(v)
    return r


def Scalar0(v):
    return v


def asarray(x, dtype=None, order=None):
    return _typed(as_arr(x), dtype)


def np_copy(x, order="K"):
    return copy(x) if isinstance(x, Arr) else from_list(x)


def atleast_1d(x):
    x = as_arr(x)
    if not isinstance(x, Arr):
        v = x
        return from_fn((1,), lambda i: v)
    return x


def atleast_2d(x):
    x = as_arr(x)
    if not isinstance(x, Arr):
        v = x
        return from_fn((1, 1), lambda i: v)
    if x.ndim == 1:
        return x[None, :]
    return x


def eye(n, m=None, dtype=None):
    T.real_type(dtype)
    n = ci(n)
    m = n if m is None else ci(m)
    return from_fn((n, m), lambda i: ite(eqc(i[0], i[1]), ONE, ZERO))


def diag(a):
    a = as_arr(a)
    if a.ndim == 1:
        g = a.snap()
        n = a.shape[0]
        return from_fn((n, n), lambda i: ite(eqc(i[0], i[1]), g((i[0],)), ZERO))
    g = a.snap()
    return from_fn((a.shape[0],), lambda i: g((i[0], i[0])))


def arange(*args, **kw):
    kw.pop("dtype", None)
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0], args[1], 1
    else:
        a, b, s = args
    a, b, s = as_num(a), as_num(b), as_num(s)
    n = T.ceil_((b - a) / s)
    c = n.const()
    if c is not None:
        n = max(0, int(c))
    else:
        # number of elements is max(0, ceil((b - a) / s))
        neg = T.HOOKS.simplify(lt0(n))
        if neg is TRUE:
            n = 0
        elif neg is not FALSE:
            n = 0 if bool(neg) else n
    return from_fn((n,), lambda i: a + as_num(i[0]) * s)


def linspace(a, b, n=50, endpoint=True):
    a, b, n = as_num(a), as_num(b), ci(n)
    if isinstance(n, int) and n == 1:
        return from_fn((1,), lambda i: a)
    d = as_num(n) - 1 if endpoint else as_num(n)
    if not isinstance(n, int) and endpoint:
        one = eqc(n, 1)
        if one is not FALSE and bool(one):
            return from_fn((1,), lambda i: a)
    return from_fn((n,), lambda i: a + (b - a) * as_num(i[0]) / d)


def hstack(xs):
    if is_sym_iter(xs):
        raise Unsupported("hstack of symbolic list")
    xs = [atleast_1d(x) for x in xs]
    return S.concat(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if getattr(xs, "segs", None):
        r = from_list(xs)
        if r.ndim == 2:
            return r
    if is_sym_iter(xs):
        raise Unsupported("vstack of symbolic list")
    xs = [atleast_2d(x) for x in xs]
    return S.concat(xs, 0)


def stack(xs, axis=0):
    if axis == 0:
        return from_list(list(xs))
    r = from_list(list(xs))
    order = list(range(1, r.ndim))
    order.insert(axis if axis > 0 else r.ndim + axis, 0)
    return r.transpose(order)


def column_stack(xs):
    xs = [as_arr(x) for x in xs]
    xs = [x[:, None] if x.ndim == 1 else x for x in xs]
    return S.concat(xs, 1)


def concatenate(xs, axis=0):
    return S.concat(list(xs), axis)


def gradient(f, *spacing, axis=None, edge_order=1):
    """numpy.gradient along one axis for unit, constant or coordinate
    spacing (first order at the ends, second order inside)."""
    f = as_arr(f)
    if edge_order != 1:
        raise Unsupported("gradient edge order")
    if axis is None:
        if f.ndim != 1:
            raise Unsupported("gradient of several axes")
        axis = 0
    n = f.shape[axis]
    g = f.snap()
    if len(spacing) == 0:
        x = lambda i: as_num(i)
        const = ONE
    else:
        sp = as_arr(spacing[0])
        if isinstance(sp, Arr):
            xs = sp.snap()
            if not dim_equal(sp.shape[0], n):
                raise ValueError("when 1d, distances must match the length of the "
                                 "corresponding dimension")
            x = lambda i: xs((i,))
            const = None
        else:
            const = as_num(sp)
            x = None
    if isinstance(n, int):
        if n < 2:
            raise ValueError("Shape of array too small to calculate a numerical gradient")
    else:
        T.HOOKS.bounds(le0(2 - as_num(n)), "gradient")

    def h(i, j):          # x_j - x_i
        if const is not None:
            return const * (as_num(j) - as_num(i))
        return x(ci(j)) - x(ci(i))

    def fn(idx):
        k = idx[axis]
        at = lambda j: num_of(g(idx[:axis] + (ci(j),) + idx[axis + 1:]))
        last = ci(as_num(n) - 1)
        c0 = eqc(k, 0)
        cl = eqc(k, last)

        def first():
            return (at(1) - at(0)) / h(0, 1)

        def end():
            p = ci(as_num(last) - 1)
            return (at(last) - at(p)) / h(p, last)

        def inner():
            a, b = ci(as_num(k) - 1), ci(as_num(k) + 1)
            hd, hs = h(a, k), h(k, b)
            if const is not None:
                return (at(b) - at(a)) / (2 * const)
            return (hd ** 2 * at(b) + (hs ** 2 - hd ** 2) * at(k) - hs ** 2 * at(a)) \
                / (hs * hd * (hd + hs))
        if c0 is TRUE:
            return first()
        if cl is TRUE:
            return end()
        if c0 is FALSE and cl is FALSE:
            return inner()
        return ite(c0, first(), ite(cl, end(), inner()))
    return from_fn(f.shape, fn)


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported("diff order")
    axis = axis % a.ndim
    k = [slice(None)] * a.ndim
    k2 = list(k)
    k[axis] = slice(1, None)
    k2[axis] = slice(None, -1)
    return a[tuple(k)] - a[tuple(k2)]


def np_sum(a, axis=None, keepdims=False):
    return reduce_sum(a, axis, keepdims)


def norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    a = as_arr(a)
    if not isinstance(a, Arr):
        return T.absolute(a)
    s = reduce_sum(unop(a, lambda v: num_of(v) * num_of(v)), axis, keepdims)
    return unop(s, lambda v: T.sqrt(v, checked=True))      # a sum of squares


def _inv_small(g, n):
    """Adjugate / determinant for n <= 3."""
    m = [[num_of(g((i, j))) for j in range(n)] for i in range(n)]

    def det(mm):
        if len(mm) == 1:
            return mm[0][0]
        r = ZERO
        for j in range(len(mm)):
            sub = [row[:j] + row[j + 1:] for row in mm[1:]]
            t = mm[0][j] * det(sub)
            r = r + t if j % 2 == 0 else r - t
        return r
    d = det(m)
    T.HOOKS.nonsingular(d)

    def cof(i, j):
        if n == 1:
            return ONE
        sub = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
        c = det(sub)
        return c if (i + j) % 2 == 0 else -c
    return [[cof(j, i) / d for j in range(n)] for i in range(n)]


def _solve_fixed(m, n, rhs, k):
    """Component k of the solution of a system of fixed size; characterised
    by the equations."""
    for c in range(n):
        # a multiple of a column (the matrix is taken to be nonsingular)
        one = [r for r in range(n) if m[r][c].const() == 1]
        if one and all(T.is_zero(rhs[r] - rhs[one[0]] * m[r][c]) for r in range(n)):
            return rhs[one[0]] if k == c else ZERO
    flat = tuple(x for row in m for x in row) + tuple(rhs)

    def ax(a):
        mm, bb = a.args[:n * n], a.args[n * n:n * n + n]
        col = [T.mk_app("linsolve%d" % n, mm + bb + (as_num(j),), meta=meta) for j in range(n)]
        out = []
        for r in range(n):
            e = ZERO
            for j in range(n):
                e = e + mm[r * n + j] * col[j]
            out.append(T.eq0(e - bb[r]))
        return out
    meta = {"axiom": ax}
    return T.mk_app("linsolve%d" % n, flat + (as_num(k),), meta=meta)


_DEPTH = [0]


def matrix_lam(g, shape):
    """Cells of a matrix as a function of the indices, in a canonical form;
    an index into blocks is split into block and offset."""
    _DEPTH[0] += 1
    try:
        d = _DEPTH[0]
        idx = tuple(T.var("$l%d_%d" % (d, k), "I") for k in range(2))
        ctx = S.idx_ctx(idx, shape)
        with T.HOOKS.assuming(*ctx):
            body = num_of(g(idx))
        vs, dims, cells, ctx2 = [], [], [], []
        for k, v in enumerate(idx):
            b = T._block_width(as_num(shape[k]), body, T.single_atom(v).id)
            if b is None:
                vs.append(v)
                dims.append(as_num(shape[k]))
                cells.append(v)
                ctx2 += [T.le0(-v), T.lt0(v - as_num(shape[k]))]
            else:
                w, m = b
                blk, off = (T.var("$l%d_%d%s" % (d, k, x), "I") for x in "bo")
                vs += [blk, off]
                dims += [m, w]
                cells.append(ci(blk * w + off))
                ctx2 += [T.le0(-blk), T.lt0(blk - m), T.le0(-off), T.lt0(off - w)]
        with T.HOOKS.assuming(*ctx2):
            if len(vs) > 2:
                body = num_of(g(tuple(cells)))
            body = T.HOOKS.lift(body)
        return T.close_lam(vs, body, tuple(dims))
    finally:
        _DEPTH[0] -= 1


def _dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _rigid(m):
    """Is it the homogeneous matrix of a rotation and a translation?"""
    if [x.const() for x in m[3]] != [0, 0, 0, 1]:
        return False
    return all(T.is_zero(_dot3(m[i], m[j]) - (1 if i == j else 0))
               for i in range(3) for j in range(i, 3))


def inv(a):
    a = as_arr(a)
    if not isinstance(a, Arr) or a.ndim != 2:
        raise Unsupported("inverse of stacked matrices")
    n = a.shape[0]
    if not dim_equal(n, a.shape[1]):
        raise ValueError("Last 2 dimensions of the array must be square")
    g = a.snap()
    if isinstance(n, int) and n <= 2:
        return from_list(_inv_small(g, n))
    if isinstance(n, int) and n <= 8:
        m = [[num_of(g((i, j))) for j in range(n)] for i in range(n)]
        if n == 4 and _rigid(m):
            return from_list([[m[c][r] for c in range(3)] + [-_dot3(
                [m[c][r] for c in range(3)], [m[c][3] for c in range(3)])]
                for r in range(3)] + [[ZERO, ZERO, ZERO, ONE]])
        return from_list([[_solve_fixed(m, n, [ONE if r == c else ZERO for r in range(n)], k)
                           for c in range(n)] for k in range(n)])
    lam = matrix_lam(g, a.shape)
    return from_fn(a.shape, lambda i: T.mk_app(
        "matinv", (lam, as_num(i[0]), as_num(i[1]))))


def pinv(a, *args, **kw):
    """Pseudo-inverse; equals the inverse for non-singular square matrices
    (assumed for the matrices the code inverts)."""
    a = as_arr(a)
    if a.ndim == 2 and S.deq(a.shape[0], a.shape[1]):
        return inv(a)
    g = a.snap()
    lam = matrix_lam(g, a.shape)
    return from_fn((a.shape[1], a.shape[0]), lambda i: T.mk_app(
        "pinv", (lam, as_num(i[0]), as_num(i[1]))))


def solve(a, b, *args, **kw):
    a, b = as_arr(a), as_arr(b)
    n = a.shape[0]
    if isinstance(n, int) and 2 < n <= 8 and dim_equal(n, a.shape[1]) \
            and dim_equal(n, b.shape[0]):
        g, h = a.snap(), b.snap()
        m = [[num_of(g((i, j))) for j in range(n)] for i in range(n)]

        def at(i):
            k = as_num(i[0])
            rhs = [num_of(h((r,) + tuple(i[1:]))) for r in range(n)]
            v = _solve_fixed(m, n, rhs, n - 1)
            if k.const() is not None:
                return _solve_fixed(m, n, rhs, int(k.const()))
            for j in range(n - 2, -1, -1):
                v = T.ite(T.eq0(k - j), _solve_fixed(m, n, rhs, j), v)
            return v
        return from_fn((n,) + tuple(b.shape[1:]), at)
    return dot(inv(a), b)


def cross(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
         a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    if all(not isinstance(x, Arr) for x in c):
        return from_list(c)
    r = from_list(c)
    return S.transpose(r, tuple(range(1, r.ndim)) + (0,))


def pad(a, pad_width, mode="constant", constant_values=0.0):
    a = as_arr(a)
    if mode != "constant":
        raise Unsupported("pad mode %s" % mode)
    if isinstance(pad_width, int):
        pad_width = [(pad_width, pad_width)] * a.ndim
    pw = [tuple(ci(x) for x in p) for p in pad_width]
    if len(pw) == 1 and a.ndim > 1:
        pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise ValueError("operands could not be broadcast together")
    shape = [ci(as_num(d) + as_num(l) + as_num(r)) for d, (l, r) in zip(a.shape, pw)]
    g = a.snap()
    fill = as_num(constant_values)

    def fn(idx):
        conds, inner = [], []
        for i, d, (l, _) in zip(idx, a.shape, pw):
            k = ci(as_num(i) - as_num(l))
            inner.append(k)
            conds += [le0(-as_num(k)), lt0(as_num(k) - as_num(d))]
        c = T.HOOKS.simplify(conj(*conds))
        if c is T.FALSE:
            return fill
        if c is TRUE:
            return num_of(g(tuple(inner)))
        with T.HOOKS.assuming(c):
            v = num_of(g(tuple(inner)))
        return ite(c, v, fill)
    return from_fn(shape, fn)


def trace(a):
    a = as_arr(a)
    g = a.snap()
    return T.sum_(as_num(a.shape[0]), lambda k: g((ci(k), ci(k))))


def tile(a, reps):
    a = as_arr(a)
    if not isinstance(a, Arr):
        a = atleast_1d(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    nd = max(len(reps), a.ndim)
    while a.ndim < nd:
        a = a[None]
    reps = (1,) * (nd - len(reps)) + tuple(ci(r) for r in reps)
    g = a.snap()
    sh = a.shape

    def fn(idx):
        src = []
        for i, d in zip(idx, sh):
            if isinstance(i, int) and isinstance(d, int):
                src.append(i % d)
            elif isinstance(d, int) and d == 1:
                src.append(0)
            else:
                src.append(ci(T.mod(as_num(i), as_num(d))))
        return g(tuple(src))
    return from_fn([prod((d, r)) for d, r in zip(sh, reps)], fn)


def repeat(a, n, axis=None):
    a = as_arr(a)
    if not isinstance(a, Arr):
        a = atleast_1d(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    g = a.snap()
    n = ci(n)
    shape = list(a.shape)
    shape[axis] = prod((shape[axis], n))

    def fn(idx):
        i = idx[axis]
        j = i // n if isinstance(i, int) and isinstance(n, int) else ci(T.floordiv(as_num(i), as_num(n)))
        return g(idx[:axis] + (j,) + idx[axis + 1:])
    return from_fn(shape, fn)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    sc, gc = operand(c)
    sa, ga = operand(a)
    sb, gb = operand(b)
    out = S.broadcast_shape(sc, sa, sb)
    f = lambda i: ite(as_bool(gc(S.bindex(i, sc, out))), ga(S.bindex(i, sa, out)),
                      gb(S.bindex(i, sb, out)))
    if out == ():
        return f(())
    return from_fn(out, f)


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = binop(r, lo, lambda x, y: T.maximum(x, y))
    if hi is not None:
        r = binop(r, hi, lambda x, y: T.minimum(x, y))
    return r


def squeeze(a, axis=None):
    a = as_arr(a)
    return S.squeeze(a, axis)


def np_round(a, d=0):
    from .loader import sym_round
    if d:
        raise Unsupported("round")
    return unop(a, sym_round)


def allclose(a, b, rtol=1e-5, atol=1e-8):
    raise Unsupported("allclose")


def isinf(a):
    return unop(a, lambda v: FALSE)


def argmin(a, axis=None):
    a = as_arr(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("argmin")
    if not isinstance(a.shape[0], int):
        n, k = as_num(a.shape[0]), T.fresh("l")
        with T.HOOKS.assuming(le0(-k), lt0(k - n)):
            lam = T.close_lam([k], num_of(a.get((k,))), (n,))

        def axiom(x):
            i = T.Num({((x.id, 1),): 1}, "I")
            return [le0(-i), lt0(i - x.args[0])]
        return T.mk_app("argmin", (n, lam), "I", meta={"axiom": axiom})
    best, bi = num_of(a.get((0,))), 0
    for k in range(1, a.shape[0]):
        v = num_of(a.get((k,)))
        if bool(v < best):
            best, bi = v, k
    return bi


def argmax(a, axis=None):
    return argmin(-as_arr(a), axis)


def meshgrid(*xs, **kw):
    idx = kw.get("indexing", "xy")
    xs = [as_arr(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    a, b = xs
    ga, gb = a.snap(), b.snap()
    if idx == "xy":
        sh = (b.shape[0], a.shape[0])
        return [from_fn(sh, lambda i: ga((i[1],))), from_fn(sh, lambda i: gb((i[0],)))]
    sh = (a.shape[0], b.shape[0])
    return [from_fn(sh, lambda i: ga((i[0],))), from_fn(sh, lambda i: gb((i[1],)))]


def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    g = a.snap()
    return from_fn(a.shape, lambda i: T.sum_(as_num(i[0]) + 1, lambda k: g((ci(k),))))


def interp(*a):
    raise Unsupported("interp")


def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    return a.ravel()[:, None] * b.ravel()[None, :]


def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.shape != b.shape:
        return False
    return S.all_(a == b)


class Dtype:
    """Callable stand-in for numpy scalar types."""

    def __init__(self, name, conv):
        self.name = name
        self.conv = conv

    def __call__(self, x=0):
        return self.conv(x)

    def __eq__(self, o):
        return isinstance(o, Dtype) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class _FloatingMeta(type):
    def __instancecheck__(cls, x):
        return False


class NoInstance(metaclass=_FloatingMeta):
    def __new__(cls, x=0):
        return x


def ufunc(f):
    def g(a, *rest, out=None, **kw):
        r = unop(a, lambda v: f(num_of(v)))
        if out is not None:
            out.assign(r)
            return out
        return r
    return g


def ufunc2(f):
    def g(a, b, out=None, **kw):
        r = binop(a, b, lambda x, y: f(num_of(x), num_of(y)))
        if out is not None:
            out.assign(r)
            return out
        return r
    return g


def _sign(v):
    return ite(lt0(v), as_num(-1), ite(lt0(-v), ONE, ZERO))


def make_numpy():
    f64 = Dtype("float64", lambda x=0: SymFloat(x) if not isinstance(x, Arr) else x)
    i64 = Dtype("int64", lambda x=0: SymInt(x))
    linalg = NS("numpy.linalg", norm=norm, inv=inv, pinv=pinv, solve=solve)
    finfo = lambda t=None: types.SimpleNamespace(eps=T.Fraction(1, 2 ** 52))
    np = NS(
        "numpy", ndarray=Arr, newaxis=None, pi=T.PI_FLOAT, inf=float("inf"),
        nan=float("nan"), float64=f64, int64=i64, float_=f64, intp=i64,
        bool_=bool, double=f64, floating=NoInstance, integer=NoInstance,
        number=NoInstance, generic=NoInstance,
        zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
        ones_like=ones_like, empty_like=empty_like, full_like=full_like,
        array=array, asarray=asarray, ascontiguousarray=asarray, copy=np_copy,
        atleast_1d=atleast_1d, atleast_2d=atleast_2d, eye=eye,
        identity=eye, diag=diag,
        arange=arange, linspace=linspace, hstack=hstack, vstack=vstack,
        stack=stack, column_stack=column_stack, concatenate=concatenate,
        gradient=gradient, diff=diff, sum=np_sum, dot=dot, einsum=S.einsum,
        matmul=dot, cross=cross, pad=pad, trace=trace, tile=tile, repeat=repeat,
        where=where, clip=clip, squeeze=squeeze, transpose=S.transpose,
        reshape=lambda a, s: S.reshape(as_arr(a), s if isinstance(s, (tuple, list)) else (s,)),
        ravel=lambda a: as_arr(a).ravel(), mean=lambda a, axis=None: S.mean(a, axis),
        outer=outer, inner=dot, prod=None, meshgrid=meshgrid, cumsum=cumsum,
        exp=ufunc(T.exp), log=ufunc(T.log), sqrt=ufunc(T.sqrt), sin=ufunc(T.sin),
        cos=ufunc(T.cos), arccos=ufunc(lambda v: T.fn("acos", v)),
        arcsin=ufunc(lambda v: T.fn("asin", v)),
        arctan=ufunc(lambda v: T.fn("atan", v)),
        arctan2=ufunc2(lambda a, b: T.fn("atan2", a, b)),
        tanh=ufunc(lambda v: T.fn("tanh", v)), abs=ufunc(T.absolute),
        absolute=ufunc(T.absolute), sign=ufunc(_sign), square=ufunc(lambda v: v * v),
        negative=ufunc(lambda v: -v), reciprocal=ufunc(lambda v: 1 / v),
        floor=ufunc(T.floor_), ceil=ufunc(T.ceil_),
        add=ufunc2(lambda a, b: a + b), subtract=ufunc2(lambda a, b: a - b),
        multiply=ufunc2(lambda a, b: a * b), divide=ufunc2(lambda a, b: a / b),
        true_divide=ufunc2(lambda a, b: a / b), power=ufunc2(lambda a, b: a ** b),
        minimum=ufunc2(T.minimum), maximum=ufunc2(T.maximum),
        max=lambda a, axis=None: S.extremum(a, axis, "max"),
        min=lambda a, axis=None: S.extremum(a, axis, "min"),
        amax=lambda a, axis=None: S.extremum(a, axis, "max"),
        amin=lambda a, axis=None: S.extremum(a, axis, "min"),
        any=lambda a, axis=None: S.any_(a), all=lambda a, axis=None: S.all_(a),
        isinf=isinf, isnan=isinf, isfinite=lambda a: unop(a, lambda v: TRUE),
        round=np_round, allclose=allclose, argmin=argmin, argmax=argmax,
        interp=interp, finfo=finfo, linalg=linalg, array_equal=array_equal,
        isscalar=lambda x: scalar_value(x) is not None,
        shape=lambda a: as_arr(a).shape, ndim=lambda a: as_arr(a).ndim,
        size=lambda a: as_arr(a).size,
        import_array=lambda: None, s_=_S(), copyto=lambda a, b: a.assign(b),
        broadcast_to=S.broadcast_to,
        expand_dims=lambda a, axis: as_arr(a)[(slice(None),) * (axis % (as_arr(a).ndim + 1)) + (None,)],
        logical_and=lambda a, b: as_arr(a) & b, logical_not=lambda a: ~as_arr(a),
        logical_or=lambda a, b: as_arr(a) | b,
    )
    np.prod = lambda a, axis=None: _prod(a)
    np.random = NS("numpy.random", RandomState=RandomState)
    return np


def _prod(a):
    a = as_arr(a)
    if not isinstance(a, Arr):
        return a
    r = ONE
    for v in a.ravel():
        r = r * v
    return r


class _S:
    def __getitem__(self, k):
        return k


class RandomState:
    """Opaque source of samples."""
    count = 0

    def __init__(self, seed=None):
        RandomState.count += 1
        self.id = RandomState.count
        self.n = 0

    def _draw(self, kind, shape, *params):
        self.n += 1
        name = "rnd%d.%d.%s" % (self.id, self.n, kind)
        return from_fn(shape, lambda i: T.mk_app(name, tuple(as_num(x) for x in i),
                                                 meta={"input": True}))

    def randn(self, *shape):
        if not shape:
            self.n += 1
            return T.var("rnd%d.%d" % (self.id, self.n))
        return self._draw("randn", tuple(ci(s) for s in shape))

    def multivariate_normal(self, mean, cov, size=None):
        m = as_arr(mean)
        shape = m.shape if size is None else (ci(size),) + m.shape
        r = self._draw("mvn", shape)
        r.mvn = (mean, cov)
        T.HOOKS.note_mvn(r, mean, cov)
        return r


def math_mod(name):
    return NS(
        name, pi=T.PI_FLOAT, sqrt=T.sqrt, exp=T.exp, log=T.log, sin=T.sin,
        cos=T.cos, acos=lambda x: T.fn("acos", x), atan2=lambda a, b: T.fn("atan2", a, b),
        asin=lambda x: T.fn("asin", x), atan=lambda x: T.fn("atan", x),
        fabs=lambda x: T.absolute(as_num(x)), floor=lambda x: ci(T.floor_(x)),
        ceil=lambda x: ci(T.ceil_(x)), tanh=lambda x: T.fn("tanh", x),
        isclose=lambda *a, **k: _unsup("isclose"),
        inf=float("inf"), fmod=lambda a, b: cy_mod(a, b))


def _unsup(w):
    raise Unsupported(w)


# ------------------------------------------------------------------- Cython
def cy_double(x):
    if isinstance(x, Arr):
        x = x.__sym_scalar__()
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        if x != x or x in (float("inf"), float("-inf")):
            return x
    v = as_num(x)
    if v is None:
        raise TypeError("must be real number, not %s" % type(x).__name__)
    return T.real(v)


def cy_int(x):
    if isinstance(x, Arr):
        x = x.__sym_scalar__()
    if isinstance(x, Num):
        if x.sort == "I":
            return ci(x)
        return ci(T.trunc_(x))
    return int(x)


def cy_buffer(x):
    if x is None or isinstance(x, Arr):
        return x
    raise TypeError("expected an array")


def cy_div(a, b):
    return a / b if not (isinstance(a, (int, float)) and isinstance(b, (int, float))) \
        else as_num(a) / as_num(b)


def cy_mod(a, b):
    """C remainder: the result has the sign of the dividend."""
    a, b = as_num(a), as_num(b)
    if a.sort == "I" and b.sort == "I":
        if T.HOOKS.simplify(le0(-a)) is TRUE:
            return a % b
        raise Unsupported("C integer remainder")
    if a.const() is not None and b.const() is not None:
        import math
        return as_num(T.Fraction(a.const()) - T.Fraction(b.const()) * int(
            T.Fraction(a.const()) / T.Fraction(b.const())))
    q = a / b
    k = ite(le0(-q), T.floor_(q), T.ceil_(q))
    return a - b * k


def make_cy():
    m = math_mod("libc.math")
    ns = NS("__cy__", double=cy_double, int=cy_int, bint=lambda x: x if isinstance(x, SBool) else bool(x),
            buffer=cy_buffer, div=cy_div, mod=cy_mod, floordiv=lambda a, b: as_num(a) // as_num(b))
    for f in ("sqrt", "exp", "log", "sin", "cos", "acos", "atan2", "asin", "atan", "fabs",
              "floor", "ceil", "tanh", "fmod"):
        setattr(ns, "math_" + f, getattr(m, f))
    ns.math_pi = T.PI_FLOAT
    ns.math_M_PI = T.PI_FLOAT
    ns.math_pow = lambda a, b: as_num(a) ** as_num(b)
    return ns
