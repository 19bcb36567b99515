"""Symbolic numpy arrays with concrete or symbolic shapes.

An array is a view on a storage.  The content of a storage is an immutable
function from index tuples to values; writing replaces the function, so every
result of an operation refers to the content at the time of the operation.
Aliasing follows numpy: basic indexing, transposition and reshaping of whole
arrays give views, everything else copies.
"""
import weakref

from . import terms as T
from .terms import (Num, SBool, Unsupported, as_num, as_bool, ite, conj, eq0,
                    lt0, le0, TRUE, FALSE, ZERO, ONE, same)

HOOKS = T.HOOKS
MATERIALIZE = 400


class PoisonRead(Exception):
    def __init__(self, what):
        Exception.__init__(self, "read of undefined value %r" % (what,))
        self.what = what


def ci(x):
    """Normalise an index/dimension: python int if constant, else Num."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Num):
        c = x.const()
        if c is not None:
            if not isinstance(c, int):
                raise IndexError("non-integer index")
            return c
        return x
    if hasattr(x, "__sym_scalar__"):
        return ci(x.__sym_scalar__())
    if hasattr(x, "__index__"):
        return x.__index__()
    raise Unsupported("index of type %s" % type(x).__name__)


def deq(a, b):
    """Definitely equal dimensions/indices."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return same(as_num(a), as_num(b))


def eqc(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    return HOOKS.simplify(eq0(as_num(a) - as_num(b)))


def inrange(k, n):
    """0 <= k < n"""
    if isinstance(k, int) and isinstance(n, int):
        return TRUE if 0 <= k < n else FALSE
    a = HOOKS.simplify(le0(-as_num(k)))
    if a is FALSE:
        return FALSE
    b = HOOKS.simplify(lt0(as_num(k) - as_num(n)))
    return conj(a, b)


def prod(xs):
    r = 1
    for x in xs:
        if isinstance(r, int) and isinstance(x, int):
            r = r * x
        else:
            r = ci(as_num(r) * as_num(x))
    return r


def idxkey(idx):
    return tuple(i if isinstance(i, int) else i.fp for i in idx)


class Content:
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def get(self, idx):
        tok = HOOKS.token()
        memo = self.memo.get(tok)
        if memo is None:
            while len(self.memo) >= 12:
                del self.memo[next(iter(self.memo))]
            memo = self.memo[tok] = {}
        k = idxkey(idx)
        v = memo.get(k)
        if v is None:
            v = memo[k] = self.fn(idx)
        return v


class Cells(Content):
    """Content of a small array of concrete shape."""
    __slots__ = ("cells", "shape")

    def __init__(self, cells, shape):
        self.cells = cells
        self.shape = shape

    def get(self, idx):
        v = self.cells.get(idx)
        if v is not None:
            if v.__class__ is PoisonCell:
                raise PoisonRead(v.what)
            return v
        return self._sym(idx, ())

    def _sym(self, idx, done):
        if len(done) == len(self.shape):
            return self.get(done)
        i = idx[len(done)]
        n = self.shape[len(done)]
        if isinstance(i, int):
            if not 0 <= i < n:
                raise IndexError("index %d out of bounds for axis of size %d" % (i, n))
            return self._sym(idx, done + (i,))
        r = self._sym(idx, done + (n - 1,))
        for k in range(n - 2, -1, -1):
            r = ite(eqc(i, k), self._sym(idx, done + (k,)), r)
        return r


class PoisonCell:
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


class Storage:
    __slots__ = ("shape", "content", "tag", "lazy", "__weakref__")

    def __init__(self, shape, content, tag=None):
        self.shape = shape
        self.content = content
        self.tag = tag
        self.lazy = False
        HOOKS.new_storage(self)
        self.materialize()

    def concrete(self):
        n = 1
        for d in self.shape:
            if not isinstance(d, int):
                return False
            n *= d
        return n <= MATERIALIZE

    def materialize(self):
        c = self.content
        if isinstance(c, (Cells, Poison)) or not self.concrete():
            return
        if self.lazy or HOOKS.lazy():
            return
        cells = {}
        for idx in all_idx(self.shape):
            try:
                cells[idx] = c.get(idx)
            except PoisonRead as e:
                cells[idx] = PoisonCell(e.what)
        self.content = Cells(cells, self.shape)

    def read(self, idx):
        return self.content.get(idx)

    def write(self, inv, valfn, desc):
        old = self.content
        HOOKS.log_write(self, inv, valfn, desc)
        if old.__class__ is Cells and not self.lazy:
            cells = dict(old.cells)
            for idx in all_idx(self.shape):
                c, v = inv(idx)
                if c is FALSE:
                    continue
                if c is TRUE:
                    cells[idx] = valfn(v)
                else:
                    cells[idx] = ite(c, valfn(v), old.get(idx))
            self.content = Cells(cells, self.shape)
            return

        def fn(idx):
            c, v = inv(idx)
            if c is TRUE:
                return valfn(v)
            if c is FALSE:
                return old.get(idx)
            with HOOKS.assuming(c):
                new = valfn(v)
            with HOOKS.assuming(T.neg(c)):
                kept = old.get(idx)
            return ite(c, new, kept)
        self.content = Content(fn)
        self.materialize()


class Poison(Content):
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def get(self, idx):
        raise PoisonRead(self.what)


def all_idx(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in all_idx(shape[1:]):
            yield (i,) + r


def fresh_idx(shape, name="i"):
    return tuple(0 if d == 1 and isinstance(d, int) else T.fresh(name) for d in shape)


def idx_ctx(idx, shape):
    cs = []
    for i, d in zip(idx, shape):
        if isinstance(i, Num):
            cs.append(le0(-i))
            cs.append(lt0(i - as_num(d)))
    return cs


def from_fn(shape, fn, tag=None):
    shape = tuple(ci(d) for d in shape)
    st = Storage(shape, Content(fn), tag)
    return full_view(st)


def full_view(st):
    return Arr(st, st.shape, lambda i: i, lambda i: (TRUE, i),
               [("rng", 0, d) for d in st.shape], contiguous=True)


def scalar_value(x):
    """Scalar python value -> Num/SBool; None if not a scalar."""
    if isinstance(x, (Num, SBool)):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float)):
        return as_num(x)
    if isinstance(x, T.Fraction):
        return as_num(x)
    return None


def num_of(v):
    return ite(v, ONE, ZERO) if isinstance(v, SBool) else v


class Arr:
    __array_priority__ = 10000
    __array_ufunc__ = None

    def __init__(self, st, shape, fwd, inv, desc, contiguous=False):
        self.st = st
        self.shape = tuple(ci(d) for d in shape)
        self.fwd = fwd
        self.inv = inv
        self.desc = desc
        self.contiguous = contiguous

    # ------------------------------------------------------------ access
    def get(self, idx):
        return self.st.read(self.fwd(tuple(idx)))

    def snap(self):
        """Function idx -> value for the current content."""
        c, fwd = self.st.content, self.fwd
        return lambda idx: c.get(fwd(tuple(idx)))

    def write(self, valfn):
        self.st.write(self.inv, valfn, self.desc)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def dtype(self):
        return HOOKS.dtype("R")

    @property
    def T(self):
        return transpose(self)

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return None

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() of symbolic length through the C protocol")

    def sym_len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __sym_scalar__(self):
        if self.shape == () or all(d == 1 for d in self.shape if isinstance(d, int)) \
                and all(isinstance(d, int) for d in self.shape):
            return self.get((0,) * len(self.shape))
        raise TypeError("only length-1 arrays can be converted to scalars")

    def __iter__(self):
        d = self.shape[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over an array of symbolic length")
        for k in range(d):
            yield self[k]

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return bool(as_bool(self.get((0,) * len(self.shape))))
        if any(isinstance(d, int) and d == 0 for d in self.shape):
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous.")

    def __float__(self):
        return float(self.__sym_scalar__())

    def __int__(self):
        return int(self.__sym_scalar__())

    def __index__(self):
        return self.__sym_scalar__().__index__()

    def __repr__(self):
        if all(isinstance(d, int) for d in self.shape) and (prod(self.shape) <= 16):
            try:
                return "arr(%s: %s)" % (self.shape, [self.get(i) for i in all_idx(self.shape)])
            except PoisonRead:
                return "arr(%s: poison)" % (self.shape,)
        return "arr(%s)" % (self.shape,)

    # ---------------------------------------------------------- indexing
    def _parse(self, key):
        """Basic indexing -> list of ('fix', c) / ('sl', start, step, n) /
        ('new',) or None if fancy."""
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        ax = 0
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError("multiple ellipsis")
                seen = True
                for _ in range(self.ndim - n_real):
                    out.append(("sl", 0, 1, self.shape[ax]))
                    ax += 1
                continue
            if k is None:
                out.append(("new",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.shape[ax]
            if isinstance(k, slice):
                out.append(("sl",) + norm_slice(k, d))
            elif isinstance(k, (list, tuple)) or (isinstance(k, Arr) and k.ndim > 0) \
                    or isinstance(k, range):
                out.append(("fancy", k))
            else:
                out.append(("fix", norm_index(k, d)))
            ax += 1
        while ax < self.ndim:
            out.append(("sl", 0, 1, self.shape[ax]))
            ax += 1
        return out

    def _view(self, parts):
        axes = []       # per source axis
        shape = []
        desc = None
        for p in parts:
            if p[0] == "new":
                shape.append(1)
            elif p[0] == "fix":
                axes.append(p)
            else:
                axes.append(("sl", p[1], p[2], p[3], len(shape)))
                shape.append(p[3])
        pfwd, pinv = self.fwd, self.inv

        def fwd(r):
            src = []
            for a in axes:
                if a[0] == "fix":
                    src.append(a[1])
                else:
                    src.append(lin(a[1], a[2], r[a[4]]))
            return pfwd(tuple(src))

        nd = len(shape)

        def inv(s):
            c, q = pinv(s)
            if c is FALSE:
                return FALSE, None
            r = [0] * nd
            for a, qi in zip(axes, q):
                if a[0] == "fix":
                    c = conj(c, eqc(qi, a[1]))
                else:
                    _, st, step, n, j = a
                    k = ci(as_num(qi) - as_num(st)) if not (
                        isinstance(qi, int) and isinstance(st, int)) else qi - st
                    if step != 1:
                        if step == -1:
                            k = ci(-as_num(k))
                        elif isinstance(k, int):
                            if k % step:
                                return FALSE, None
                            k = k // step
                        else:
                            kk = T.floordiv(as_num(k), as_num(step))
                            c = conj(c, eq0(as_num(k) - kk * step))
                            k = ci(kk)
                    c = conj(c, inrange(k, n))
                    r[j] = k
                if c is FALSE:
                    return FALSE, None
            return c, tuple(r)

        if self.desc is not None:
            desc = []
            # desc of the storage in terms of the parent view axes
            it = view_axes(self)
            if it is not None:
                desc = list(self.desc)
                ok = True
                for k, a in enumerate(axes):
                    s_ax = it[k]
                    if s_ax is None:
                        continue
                    kind = self.desc[s_ax]
                    if a[0] == "fix":
                        desc[s_ax] = ("pt", ci(as_num(kind[1]) + as_num(a[1])))
                    elif a[2] == 1:
                        desc[s_ax] = ("rng", ci(as_num(kind[1]) + as_num(a[1])), a[3])
                    else:
                        ok = False
                if not ok:
                    desc = None
            else:
                desc = None
        r = Arr(self.st, shape, fwd, inv, desc)
        if desc is not None:
            # remember which storage axis each view axis walks along
            it = view_axes(self)
            m = []
            src = 0
            for p in parts:
                if p[0] == "new":
                    m.append(None)
                else:
                    if p[0] != "fix":
                        m.append(it[src])
                    src += 1
            r._axes = m
        return r

    def __getitem__(self, key):
        if isinstance(key, Arr) and key.is_bool():
            return self._mask_read(key)
        parts = self._parse(key)
        if any(p[0] == "fancy" for p in parts):
            return self._fancy_read(parts)
        if len(parts) == self.ndim and all(p[0] == "fix" for p in parts):
            return self.get(tuple(p[1] for p in parts))
        return self._view(parts)

    def is_bool(self):
        if all(isinstance(d, int) for d in self.shape):
            if prod(self.shape) == 0:
                return False
            v = self.get((0,) * self.ndim)
            return isinstance(v, SBool)
        return getattr(self, "_isbool", False)

    def _mask_read(self, mask):
        if mask.ndim != self.ndim or not all(isinstance(d, int) for d in mask.shape):
            raise Unsupported("boolean mask read")
        vals = []
        for idx in all_idx(mask.shape):
            if bool(mask.get(idx)):
                vals.append(self.get(idx))
        return from_list(vals)

    def _fancy_read(self, parts):
        fparts = [p for p in parts if p[0] == "fancy"]
        if len(fparts) > 1:
            ls = [index_list(p[1]) for p in fparts]
            n = len(ls[0])
            if any(len(x) != n for x in ls):
                raise Unsupported("fancy indexing with broadcasting")
            rows = []
            for k in range(n):
                it = iter(ls)
                key = []
                j = 0
                for p in parts:
                    if p[0] == "fancy":
                        key.append(ls[j][k])
                        j += 1
                    else:
                        key.append(part_to_key(p))
                rows.append(self[tuple(key)])
            return from_list(rows)
        ax = next(i for i, p in enumerate(parts) if p[0] == "fancy")
        sel = parts[ax][1]
        if isinstance(sel, Arr) and sel.is_bool():
            n = sel.shape[0]
            sel = [k for k in range(n) if bool(sel.get((k,)))]
        if isinstance(sel, Arr) and (sel.ndim != 1 or not isinstance(sel.shape[0], int)):
            return self._fancy_sym(parts, ax, sel)
        lst = index_list(sel)
        p2 = list(parts)
        d = self.shape[sum(1 for p in parts[:ax] if p[0] != "new")]
        p2[ax] = ("sl", 0, 1, d)
        base = self._view(p2)
        snap = base.snap()
        # result axis of the fancy index
        rax = sum(1 for p in parts[:ax] if p[0] != "fix")
        lst = [norm_index(k, d) for k in lst]
        sel = from_fn((len(lst),), lambda i: as_num(lst[i[0]]) if isinstance(i[0], int)
                      else table(lst, i[0]))
        ssn = sel.snap()
        shape = list(base.shape)
        shape[rax] = len(lst)

        def fn(idx):
            j = ci(ssn((idx[rax],)))
            return snap(idx[:rax] + (j,) + idx[rax + 1:])
        return from_fn(shape, fn)

    def _fancy_sym(self, parts, ax, sel):
        if any(p[0] == "new" for p in parts):
            raise Unsupported("fancy index with newaxis")
        p2 = list(parts)
        p2[ax] = ("sl", 0, 1, self.shape[ax])
        base = self._view(p2)
        snap, ssn = base.snap(), sel.snap()
        rax = sum(1 for p in parts[:ax] if p[0] != "fix")
        shape = list(base.shape[:rax]) + list(sel.shape) + list(base.shape[rax + 1:])
        k = sel.ndim
        return from_fn(shape, lambda idx: snap(
            idx[:rax] + (ci(ssn(idx[rax:rax + k])),) + idx[rax + k:]))

    def __setitem__(self, key, value):
        if isinstance(key, Arr) and key.is_bool():
            m = broadcast_to(key, self.shape).snap()
            old = self.snap()
            v = broadcast_value(value, self.shape)
            self.write(lambda i: ite(m(i), v(i), old(i)))
            return
        parts = self._parse(key)
        if any(p[0] == "fancy" for p in parts):
            return self._fancy_write(parts, value)
        target = self._view(parts)
        target.assign(value)

    def assign(self, value):
        self.write(broadcast_value(value, self.shape))

    def _fancy_write(self, parts, value):
        fparts = [i for i, p in enumerate(parts) if p[0] == "fancy"]
        lists = []
        for i in fparts:
            sel = parts[i][1]
            if isinstance(sel, Arr) and sel.is_bool():
                sel = [k for k in range(sel.shape[0]) if bool(sel.get((k,)))]
            lists.append(index_list(sel))
        n = len(lists[0])
        if len(fparts) > 1 and any(len(x) != n for x in lists):
            raise Unsupported("fancy write with broadcasting")
        rax = sum(1 for p in parts[:fparts[0]] if p[0] != "fix")
        p2 = list(parts)
        p2[fparts[0]] = ("sl", 0, 1, n)
        for i in fparts[1:]:
            p2[i] = ("fix", 0)
        shape = [1 if p[0] == "new" else p[3] for p in p2 if p[0] != "fix"]
        v = broadcast_value(value, shape)
        for k in range(n):
            p3 = list(parts)
            for i, lst in zip(fparts, lists):
                ax = sum(1 for p in parts[:i] if p[0] != "new")
                p3[i] = ("fix", norm_index(lst[k], self.shape[ax]))
            tgt = self._view(p3)
            tgt.write(lambda idx, k=k: v(idx[:rax] + (k,) + idx[rax:]))

    # -------------------------------------------------------- arithmetic
    def _iop(self, o, op):
        r = binop(self, o, op)
        if len(r.shape) != len(self.shape) or not all(
                deq(a, b) for a, b in zip(r.shape, self.shape)):
            raise ValueError("non-broadcastable output operand")
        self.assign(r)
        return self

    def __add__(self, o):
        return binop(self, o, lambda a, b: num_of(a) + num_of(b))

    def __radd__(self, o):
        return binop(o, self, lambda a, b: num_of(a) + num_of(b))

    def __iadd__(self, o):
        return self._iop(o, lambda a, b: num_of(a) + num_of(b))

    def __sub__(self, o):
        return binop(self, o, lambda a, b: num_of(a) - num_of(b))

    def __rsub__(self, o):
        return binop(o, self, lambda a, b: num_of(a) - num_of(b))

    def __isub__(self, o):
        return self._iop(o, lambda a, b: num_of(a) - num_of(b))

    def __mul__(self, o):
        return binop(self, o, lambda a, b: num_of(a) * num_of(b))

    def __rmul__(self, o):
        return binop(o, self, lambda a, b: num_of(a) * num_of(b))

    def __imul__(self, o):
        return self._iop(o, lambda a, b: num_of(a) * num_of(b))

    def __truediv__(self, o):
        return binop(self, o, lambda a, b: num_of(a) / num_of(b))

    def __rtruediv__(self, o):
        return binop(o, self, lambda a, b: num_of(a) / num_of(b))

    def __itruediv__(self, o):
        return self._iop(o, lambda a, b: num_of(a) / num_of(b))

    def __pow__(self, o):
        return binop(self, o, lambda a, b: num_of(a) ** num_of(b))

    def __rpow__(self, o):
        return binop(o, self, lambda a, b: num_of(a) ** num_of(b))

    def __mod__(self, o):
        return binop(self, o, lambda a, b: num_of(a) % num_of(b))

    def __floordiv__(self, o):
        return binop(self, o, lambda a, b: num_of(a) // num_of(b))

    def __ipow__(self, o):
        return self._iop(o, lambda a, b: num_of(a) ** num_of(b))

    def __neg__(self):
        return unop(self, lambda a: -num_of(a))

    def __pos__(self):
        return unop(self, lambda a: a)

    def __abs__(self):
        return unop(self, lambda a: abs(num_of(a)))

    def __invert__(self):
        r = unop(self, lambda a: T.neg(as_bool(a)))
        r._isbool = True
        return r

    def _cmp(self, o, op):
        r = binop(self, o, op)
        if isinstance(r, Arr):
            r._isbool = True
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: as_bool(a < b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: as_bool(a <= b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: as_bool(a > b))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: as_bool(a >= b))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: as_bool(a == b))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: as_bool(a != b))

    __hash__ = object.__hash__

    def __and__(self, o):
        return self._cmp(o, lambda a, b: conj(as_bool(a), as_bool(b)))

    def __or__(self, o):
        return self._cmp(o, lambda a, b: T.disj(as_bool(a), as_bool(b)))

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    # ----------------------------------------------------------- methods
    def copy(self, order="C"):
        return copy(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return copy(self)

    def astype(self, t, copy=True):
        if not (self.is_bool() and T.type_name(t) == "bool"):
            T.real_type(t)
        return globals()["copy"](self)

    def dot(self, o):
        return dot(self, o)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self):
        return copy(self.ravel())

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def fill(self, v):
        self.assign(v)

    def sum(self, axis=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None):
        return mean(self, axis)

    def any(self, axis=None):
        return any_(self)

    def all(self, axis=None):
        return all_(self)

    def max(self, axis=None):
        return extremum(self, axis, "max")

    def min(self, axis=None):
        return extremum(self, axis, "min")

    def tolist(self):
        if self.ndim == 0:
            return self.get(())
        if not all(isinstance(d, int) for d in self.shape):
            return ArrList(from_fn(self.shape, self.snap()))
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def item(self, *a):
        return self.__sym_scalar__()


def part_to_key(p):
    if p[0] == "fix":
        return p[1]
    if p[0] == "new":
        return None
    return slice(p[1], p[1] + p[2] * p[3], p[2])


def view_axes(a):
    """Storage axis each view axis walks along (None: new axis)."""
    m = getattr(a, "_axes", None)
    if m is not None:
        return m
    if a.contiguous and len(a.shape) == len(a.st.shape):
        return list(range(len(a.shape)))
    return None


def lin(start, step, k):
    if isinstance(start, int) and isinstance(k, int):
        return start + step * k
    return ci(as_num(start) + as_num(k) * step)


def index_list(x):
    if isinstance(x, Arr):
        return [ci(v) for v in x]
    return [ci(v) for v in x]


def table(lst, i):
    r = as_num(lst[-1])
    for k in range(len(lst) - 2, -1, -1):
        r = ite(eqc(i, k), as_num(lst[k]), r)
    return r


def norm_index(k, d):
    k = ci(k)
    if isinstance(k, int):
        if k < 0:
            if isinstance(d, int):
                if k < -d:
                    raise IndexError("index %d out of bounds for size %d" % (k, d))
                return k + d
            HOOKS.bounds(le0(-(as_num(d) + k)), "index %d" % k)
            return ci(as_num(d) + k)
        if isinstance(d, int):
            if k >= d:
                raise IndexError("index %d is out of bounds for axis with size %d" % (k, d))
        else:
            HOOKS.bounds(lt0(as_num(k) - as_num(d)), "index %d" % k)
        return k
    c = HOOKS.simplify(lt0(k))
    if c is TRUE:
        k = ci(k + as_num(d))
        HOOKS.bounds(le0(-as_num(k)), "index")
        return k
    if c is not FALSE:
        if bool(c):
            return ci(k + as_num(d))
    HOOKS.bounds(lt0(as_num(k) - as_num(d)), "index")
    return k


def clip_bound(k, d, default):
    if k is None:
        return default
    k = ci(k)
    if isinstance(k, int) and isinstance(d, int):
        if k < 0:
            k += d
            return max(k, 0)
        return min(k, d)
    n = as_num(d)
    kk = as_num(k)
    neg = HOOKS.simplify(lt0(kk))
    if neg is not TRUE and neg is not FALSE:
        neg = TRUE if bool(neg) else FALSE
    if neg is TRUE:
        kk = kk + n
        c = HOOKS.simplify(lt0(kk))
        if c is not FALSE and (c is TRUE or bool(c)):
            return 0
        return ci(kk)
    c = HOOKS.simplify(lt0(n - kk))       # k > n
    if c is not FALSE and (c is TRUE or bool(c)):
        return d
    return ci(kk)


def norm_slice(s, d):
    """-> (start, step, length)"""
    step = 1 if s.step is None else ci(s.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == -1 and s.start is None and s.stop is None:
        return ci(as_num(d) - 1), -1, d
    if step < 0:
        if isinstance(d, int):
            r = range(*slice(s.start if s.start is None else ci(s.start),
                             s.stop if s.stop is None else ci(s.stop), step).indices(d))
            return r.start, step, len(r)
        raise Unsupported("negative slice step")
    a = clip_bound(s.start, d, 0)
    b = clip_bound(s.stop, d, d)
    if isinstance(a, int) and isinstance(b, int):
        n = max(0, -((a - b) // step))
        return a, step, n
    c = HOOKS.simplify(lt0(as_num(b) - as_num(a)))
    if c is not FALSE and (c is TRUE or bool(c)):
        return a, step, 0
    n = as_num(b) - as_num(a)
    if step != 1:
        n = T.floordiv(n + (step - 1), as_num(step))
    return a, step, ci(n)


# ----------------------------------------------------------- construction
class ArrList(list):
    """Nested list of symbolic length with the elements of an array."""

    def __init__(self, a):
        self.array = a

    def sym_len(self):
        return self.array.shape[0]

    def __getitem__(self, k):
        r = self.array[k]
        return r.tolist() if isinstance(r, Arr) else r

    def copy(self):
        return ArrList(from_fn(self.array.shape, self.array.snap()))

    def _unsupported(self, *a, **k):
        raise Unsupported("list of symbolic length")

    append = extend = insert = pop = remove = sort = reverse = clear = _unsupported
    __setitem__ = __delitem__ = __iadd__ = __add__ = __mul__ = __iter__ = __len__ = _unsupported
    __eq__ = __ne__ = __contains__ = __reversed__ = __bool__ = count = index = _unsupported
    __hash__ = None


def from_list(x):
    """Nested lists / tuples / arrays / scalars -> array (always a copy)."""
    v = scalar_value(x)
    if v is not None:
        return v
    if isinstance(x, Arr):
        return copy(x)
    if isinstance(x, ArrList):
        return from_fn(x.array.shape, x.array.snap())
    if isinstance(x, SymSeq):
        return x.to_array()
    if getattr(x, "segs", None):
        from .loops import slist_to_arr
        return slist_to_arr(x)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        items = [from_list(e) for e in x]
        if not items:
            return from_fn((0,), lambda i: ZERO)
        shapes = [e.shape if isinstance(e, Arr) else () for e in items]
        sh = shapes[0]
        for s in shapes[1:]:
            if len(s) != len(sh) or not all(dim_equal(a, b) for a, b in zip(s, sh)):
                raise ValueError("inhomogeneous shape")
        if sh == ():
            cells = {(i,): e for i, e in enumerate(items)}
            st = Storage((len(items),), Cells(cells, (len(items),)))
            return full_view(st)
        snaps = [e.snap() for e in items]

        def fn(idx):
            if isinstance(idx[0], int):
                return snaps[idx[0]](idx[1:])
            r = snaps[-1](idx[1:])
            for k in range(len(snaps) - 2, -1, -1):
                r = ite(eqc(idx[0], k), snaps[k](idx[1:]), r)
            return r
        return from_fn((len(items),) + sh, fn)
    raise Unsupported("array from %s" % type(x).__name__)


def as_arr(x):
    """asarray: no copy for arrays; scalars stay scalars."""
    if isinstance(x, Arr):
        return x
    return from_list(x)


class SymSeq:
    """A python list with a symbolic number of appended elements."""

    def to_array(self):
        raise Unsupported("symbolic list")


def copy(a):
    if not isinstance(a, Arr):
        return from_list(a)
    s = a.snap()
    r = from_fn(a.shape, s)
    if getattr(a, "_isbool", False):
        r._isbool = True
    return r


def dim_equal(a, b):
    if deq(a, b):
        return True
    c = eqc(a, b)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return bool(c)


def broadcast_shape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if deq(d, cur):
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif isinstance(d, int) and d == 1:
                continue
            elif dim_equal(d, cur):
                if isinstance(d, int):
                    cur = d
            elif dim_equal(d, 1):
                continue
            elif dim_equal(cur, 1):
                cur = d
            else:
                raise ValueError("operands could not be broadcast together with "
                                 "shapes %s" % (shapes,))
        out.append(cur)
    return tuple(out)


def bindex(idx, shape, out):
    """Index of an operand of the given shape for result index idx."""
    off = len(out) - len(shape)
    r = []
    for k, d in enumerate(shape):
        o = out[off + k]
        if isinstance(d, int) and d == 1:
            r.append(0)
        elif deq(d, o):
            r.append(idx[off + k])
        else:
            # d known to be equal to o or to 1 on this path
            c = eqc(d, o)
            if c is TRUE:
                r.append(idx[off + k])
            else:
                r.append(0)
    return tuple(r)


def operand(x):
    v = scalar_value(x)
    if v is not None:
        return (), (lambda i: v)
    if isinstance(x, Arr):
        return x.shape, x.snap()
    a = as_arr(x)
    if isinstance(a, Arr):
        return a.shape, a.snap()
    return (), (lambda i: a)


def broadcast_value(value, shape):
    sh, g = operand(value)
    if len(sh) > len(shape):
        # leading ones may be dropped on assignment
        extra = len(sh) - len(shape)
        if all(isinstance(d, int) and d == 1 for d in sh[:extra]):
            g0, e = g, extra
            g = lambda i: g0((0,) * e + tuple(i))
            sh = sh[extra:]
        else:
            raise ValueError("could not broadcast input array from shape %s "
                             "into shape %s" % (sh, shape))
    out = broadcast_shape(sh, shape)
    if len(out) != len(shape) or not all(dim_equal(a, b) for a, b in zip(out, shape)):
        raise ValueError("could not broadcast input array from shape %s into "
                         "shape %s" % (sh, shape))
    return lambda idx: g(bindex(idx, sh, shape))


def broadcast_to(a, shape):
    g = broadcast_value(a, tuple(ci(d) for d in shape))
    return from_fn(shape, g)


def binop(a, b, op):
    for x in (a, b):
        if x is None or isinstance(x, (str, dict)):
            return NotImplemented
    sa, ga = operand(a)
    sb, gb = operand(b)
    if sa == () and sb == ():
        return op(ga(()), gb(()))
    out = broadcast_shape(sa, sb)
    return from_fn(out, lambda i: op(ga(bindex(i, sa, out)), gb(bindex(i, sb, out))))


def unop(a, op):
    sa, ga = operand(a)
    if sa == ():
        return op(ga(()))
    return from_fn(sa, lambda i: op(ga(i)))


def transpose(a, axes=None):
    if not isinstance(a, Arr):
        a = as_arr(a)
        if not isinstance(a, Arr):
            return a
    nd = a.ndim
    if axes is None:
        axes = tuple(range(nd))[::-1]
    axes = tuple(x % nd for x in axes)
    pf, pi = a.fwd, a.inv

    def fwd(r):
        s = [None] * nd
        for j, ax in enumerate(axes):
            s[ax] = r[j]
        return pf(tuple(s))

    def inv(s):
        c, q = pi(s)
        if c is FALSE:
            return FALSE, None
        return c, tuple(q[ax] for ax in axes)
    r = Arr(a.st, tuple(a.shape[x] for x in axes), fwd, inv, a.desc)
    it = view_axes(a)
    if it is not None:
        r._axes = [it[x] for x in axes]
    elif a.desc is not None:
        r.desc = None
    return r


def squeeze(a, axis=None):
    if not isinstance(a, Arr):
        return a
    key = []
    for k, d in enumerate(a.shape):
        sel = axis is None or k == axis or (isinstance(axis, tuple) and k in axis) \
            or (isinstance(axis, int) and axis < 0 and k == axis + a.ndim)
        if sel and dim_equal(d, 1):
            key.append(0)
        else:
            if axis is not None and sel:
                raise ValueError("cannot select an axis to squeeze out which has "
                                 "size not equal to one")
            key.append(slice(None))
    if all(isinstance(k, slice) for k in key):
        return a[...]
    r = a[tuple(key)]
    return r


def reshape(a, shape):
    if not isinstance(a, Arr):
        a = as_arr(a)
        if not isinstance(a, Arr):
            v = a
            a = from_fn((1,), lambda i: v)
    if isinstance(shape, (int, Num)):
        shape = (shape,)
    shape = [ci(s) for s in shape]
    total = prod(a.shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = prod([s for s in shape if not (isinstance(s, int) and s == -1)])
        if isinstance(total, int) and isinstance(rest, int):
            if rest == 0 or total % rest:
                raise ValueError("cannot reshape")
            miss = total // rest
        else:
            q, r = T.split_multiple(as_num(total), as_num(rest)) \
                if not (isinstance(rest, int) and rest == 1) else (as_num(total), ZERO)
            if r.p:
                d = T.pdivexact(as_num(total).p, as_num(rest).p)
                if d is None:
                    raise Unsupported("reshape of symbolic size")
                q = Num(d, "I")
            miss = ci(q)
        shape = [miss if isinstance(s, int) and s == -1 else s for s in shape]
    shape = tuple(shape)
    if not dim_equal(prod(shape), total):
        raise ValueError("cannot reshape array of size %s into shape %s" % (total, shape))
    if len(shape) == len(a.shape) and all(deq(x, y) for x, y in zip(shape, a.shape)):
        return a[...] if a.ndim else a
    src = a if is_contiguous(a) else copy(a)
    sshape = src.shape

    def conv(idx, frm, to):
        # drop a common prefix of equal dimensions
        k = 0
        while k < len(frm) and k < len(to) and deq(frm[k], to[k]):
            k += 1
        pre = idx[:k]
        idx, frm, to = idx[k:], frm[k:], to[k:]
        if not to:
            return pre
        flat = 0
        for i, d in zip(idx, frm):
            if isinstance(flat, int) and isinstance(d, int) and isinstance(i, int):
                flat = flat * d + i
            else:
                flat = ci(as_num(flat) * as_num(d) + as_num(i))
        out = []
        for d in reversed(to[1:]):
            if isinstance(flat, int) and isinstance(d, int):
                out.append(flat % d)
                flat = flat // d
            else:
                q = T.floordiv(as_num(flat), as_num(d))
                out.append(ci(as_num(flat) - q * as_num(d)))
                flat = ci(q)
        out.append(flat)
        return pre + tuple(reversed(out))

    pf, pi = src.fwd, src.inv

    def inv(s):
        c, q = pi(s)
        if c is FALSE:
            return FALSE, None
        return c, conv(q, sshape, shape)
    return Arr(src.st, shape, lambda r: pf(conv(tuple(r), shape, sshape)), inv,
               None, contiguous=True)


def is_contiguous(a):
    if a.contiguous:
        return True
    it = view_axes(a)
    if it is None or a.desc is None:
        return False
    # row-major contiguous block: leading axes fixed or full, order preserved
    order = [x for x in it if x is not None]
    if order != sorted(order):
        return False
    started = False
    for k, (d, full) in enumerate(zip(a.desc, a.st.shape)):
        if d[0] == "pt":
            if started:
                return False
        else:
            if started and not deq(d[2], full):
                return False
            started = True
    return True


# -------------------------------------------------------------- reductions
def reduce_sum(a, axis=None, keepdims=False):
    sa, g = operand(a)
    if sa == ():
        return g(())
    if axis is None:
        def rec(pre, k):
            if k == len(sa):
                return num_of(g(tuple(pre)))
            return T.sum_(as_num(sa[k]), lambda i: rec(pre + [ci(i)], k + 1))
        r = rec([], 0)
        if keepdims:
            return from_fn((1,) * len(sa), lambda i: r)
        return r
    if isinstance(axis, tuple):
        r = a
        for ax in sorted([x % len(sa) for x in axis], reverse=True):
            r = reduce_sum(r, ax, keepdims)
        return r
    ax = axis % len(sa)
    out = sa[:ax] + sa[ax + 1:]

    def fn(idx):
        if keepdims:
            idx = idx[:ax] + idx[ax + 1:]
        return T.sum_(as_num(sa[ax]), lambda i: num_of(g(idx[:ax] + (ci(i),) + idx[ax:])))
    if keepdims:
        return from_fn(sa[:ax] + (1,) + sa[ax + 1:], fn)
    if not out:
        return fn(())
    return from_fn(out, fn)


def mean(a, axis=None):
    sa, _ = operand(a)
    n = prod(sa) if axis is None else sa[axis]
    return reduce_sum(a, axis) / as_num(n)


def any_(a):
    sa, g = operand(a)
    if sa == ():
        return as_bool(g(()))
    if all(isinstance(d, int) for d in sa):
        return T.disj(*[as_bool(g(i)) for i in all_idx(sa)])
    raise Unsupported("any() over a symbolic axis")


def all_(a):
    sa, g = operand(a)
    if sa == ():
        return as_bool(g(()))
    if all(isinstance(d, int) for d in sa):
        return conj(*[as_bool(g(i)) for i in all_idx(sa)])
    # universally quantified: decide with a generic element
    return HOOKS.forall(sa, lambda i: as_bool(g(i)))


def extremum(a, axis, which):
    sa, g = operand(a)
    if sa == ():
        return g(())
    f = T.maximum if which == "max" else T.minimum
    if axis is None:
        if all(isinstance(d, int) for d in sa):
            r = None
            for i in all_idx(sa):
                v = g(i)
                r = v if r is None else f(r, v)
            if r is None:
                raise ValueError("zero-size array to reduction operation")
            return r
        return HOOKS.extremum(sa, g, which)
    ax = axis % len(sa)
    out = sa[:ax] + sa[ax + 1:]

    def fn(idx):
        if not isinstance(sa[ax], int):
            return HOOKS.extremum((sa[ax],), lambda i: g(idx[:ax] + i + idx[ax:]), which)
        r = None
        for k in range(sa[ax]):
            v = g(idx[:ax] + (k,) + idx[ax:])
            r = v if r is None else f(r, v)
        return r
    return from_fn(out, fn) if out else fn(())


def dot(a, b):
    sa, ga = operand(a)
    sb, gb = operand(b)
    if sa == () or sb == ():
        return binop(a, b, lambda x, y: num_of(x) * num_of(y))
    ia = len(sa) - 1
    ib = max(0, len(sb) - 2)
    if not dim_equal(sa[ia], sb[ib]):
        raise ValueError("shapes %s and %s not aligned" % (sa, sb))
    n = sa[ia] if isinstance(sa[ia], int) else sb[ib]
    out = sa[:ia] + sb[:ib] + sb[ib + 1:]
    na = ia

    def fn(idx):
        pa, pb = idx[:na], idx[na:]
        return T.sum_(as_num(n), lambda k: num_of(ga(pa + (ci(k),)))
                      * num_of(gb(pb[:ib] + (ci(k),) + pb[ib:])))
    if not out:
        return fn(())
    return from_fn(out, fn)


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    oo = [operand(o) for o in ops]
    dims = {}
    for s, (sh, _) in zip(ins, oo):
        if len(s) != len(sh):
            raise ValueError("einsum dimension mismatch")
        for c, d in zip(s, sh):
            if c in dims:
                if not dim_equal(dims[c], d):
                    raise ValueError("einsum dimension mismatch")
            else:
                dims[c] = d
    summed = [c for c in dims if c not in out]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(k):
            if k == len(summed):
                r = ONE
                for s, (_, g) in zip(ins, oo):
                    r = r * num_of(g(tuple(env[c] for c in s)))
                return r

            def at(i):
                env[summed[k]] = ci(i)
                try:
                    return rec(k + 1)
                finally:
                    del env[summed[k]]
            return T.sum_(as_num(dims[summed[k]]), at)
        return rec(0)
    if not out:
        return fn(())
    return from_fn([dims[c] for c in out], fn)


def concat(arrs, axis=0):
    arrs = [as_arr(a) for a in arrs]
    arrs = [a if isinstance(a, Arr) else from_list([a]) for a in arrs]
    nd = arrs[0].ndim
    axis = axis % nd
    snaps = [a.snap() for a in arrs]
    sizes = [a.shape[axis] for a in arrs]
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not dim_equal(a.shape[k], arrs[0].shape[k]):
                raise ValueError("all the input array dimensions except for the "
                                 "concatenation axis must match exactly")
    offs = [0]
    for s in sizes:
        offs.append(offs[-1] + s if isinstance(offs[-1], int) and isinstance(s, int)
                    else ci(as_num(offs[-1]) + as_num(s)))
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]

    def fn(idx):
        i = idx[axis]
        r = None
        for k in range(len(snaps) - 1, -1, -1):
            def val(k=k):
                j = i - offs[k] if isinstance(i, int) and isinstance(offs[k], int) \
                    else ci(as_num(i) - as_num(offs[k]))
                return snaps[k](idx[:axis] + (j,) + idx[axis + 1:])
            if k == 0 and r is None:
                return val()
            c = TRUE if k == 0 else HOOKS.simplify(le0(as_num(offs[k]) - as_num(i)))
            if c is TRUE:
                if r is None:
                    return val()
                return conc_chain(r, val())
            if c is FALSE:
                continue
            r = (r or []) + [(c, val())]
        raise IndexError("empty concatenation")

    def conc_chain(r, last):
        v = last
        for c, x in reversed(r):
            v = ite(c, x, v)
        return v
    return from_fn(shape, fn)
