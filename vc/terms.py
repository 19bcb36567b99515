"""Exact symbolic numbers.

A ``Num`` is a Laurent polynomial with rational coefficients over *atoms*.
Atoms are input variables, applications of interpreted (exp, sqrt, sin, ...)
or uninterpreted functions, case distinctions, sums with a symbolic number
of summands, and reciprocals of polynomials.  Real arithmetic is mathematical:
floating point literals are read as the exact decimal they are written as.

Two numbers are equal if their difference normalises to the zero polynomial
after multiplying out all reciprocals.  A fingerprint (the value at one
pseudo-random point, computed with 60 decimal digits) is used to look up
candidates quickly; equality is always confirmed exactly.
"""
import decimal
import hashlib
from decimal import Decimal
from fractions import Fraction

CTX = decimal.Context(prec=60, Emin=-10**9, Emax=10**9,
                      traps=[decimal.InvalidOperation, decimal.Overflow])
KEYCTX = decimal.Context(prec=24, Emin=-10**9, Emax=10**9)
decimal.setcontext(CTX)
TINY = Decimal("1e-32")


class Unsupported(Exception):
    """The code uses something the verifier has no rule for."""


class TooBig(Unsupported):
    pass


MAX_TERMS = 60000

_ATOMS = []          # id -> Atom
_ROOTS = {}          # fingerprint of a power -> base
_INTERN = {}         # (kind, name, fingerprints) -> [Atom]
_SQUARES = set()     # ids of square roots of sums of squares


RESET = []           # called when all terms are forgotten


def reset():
    for f in RESET:
        f()
    _ATOMS.clear()
    _INTERN.clear()
    _SPECIAL.clear()
    _ROOTS.clear()
    _SQUARES.clear()


def _h(*parts):
    """Pseudo-random value in (0.3, 1.9)."""
    d = hashlib.blake2b(repr(parts).encode(), digest_size=24).digest()
    return Decimal("0.3") + Decimal("1.6") * int.from_bytes(d, "big") / Decimal(1 << 192)


def _mp(name, *args):
    import mpmath
    with mpmath.workdps(60):
        xs = [mpmath.mpf(str(a)) for a in args]
        r = getattr(mpmath, name)(*xs)
        if isinstance(r, mpmath.mpc):
            raise ValueError
        return Decimal(mpmath.nstr(r, 58))


def quant(v):
    """Hashable key of a value, insensitive to rounding noise."""
    if abs(v) < TINY:
        return 0
    return KEYCTX.plus(v).normalize(KEYCTX)


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort", "fp", "height",
                 "free", "square", "meta", "z3c", "__weakref__")

    def __repr__(self):
        return show_atom(self)


_SPECIAL = set()     # ids of atoms whose powers must be rewritten


def _new_atom(kind, name, args, sort, fp, height=0, free=frozenset(),
              square=None, meta=None):
    a = Atom()
    a.id = len(_ATOMS)
    a.kind = kind
    a.name = name
    a.args = args
    a.sort = sort
    a.fp = fp
    a.height = height
    a.free = free
    a.square = square
    a.meta = meta
    a.z3c = None
    _ATOMS.append(a)
    if square is not None or kind in ("inv", "exp"):
        _SPECIAL.add(a.id)
    return a


def atom(i):
    return _ATOMS[i]


# --------------------------------------------------------------- polynomials
def _mono_mul_plain(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _needs(m):
    for a, _ in m:
        if a in _SPECIAL:
            return True
    return False


def _clean(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = _clean(s)
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: _clean(v * c) for m, v in p.items()}


def _reduce_mono(m):
    """Rewrite special powers in a monomial; returns a polynomial."""
    exps = []
    rest = []
    extra = None
    for a, e in m:
        if a in _SPECIAL:
            at = _ATOMS[a]
            if at.kind == "exp":
                exps.append((at, e))
                continue
            if at.kind == "inv" and e < 0:
                f = at.args[0].p
                q = {(): 1}
                for _ in range(-e):
                    q = pmul(q, f)
                extra = q if extra is None else pmul(extra, q)
                continue
            if at.square is not None and (e >= 2 or e < 0):
                k, odd = divmod(e, 2)          # e = 2 k + odd
                if k > 0:
                    sq = at.square.p
                    q = {(): 1}
                    for _ in range(k):
                        q = pmul(q, sq)
                else:
                    q = npow(at.square, k).p
                extra = q if extra is None else pmul(extra, q)
                if odd:
                    rest.append((a, odd))
                continue
        rest.append((a, e))
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            rest.append((exps[0][0].id, 1))
            rest.sort()
        else:
            arg = ZERO
            for at, e in exps:
                arg = arg + at.args[0] * e
            q = exp(arg).p
            extra = q if extra is None else pmul(extra, q)
    base = {tuple(rest): 1}
    if extra is None:
        return base
    return pmul(base, extra)


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m1, c1), = p.items()
        if not m1:
            return pscale(q, c1)
    if len(p) * len(q) > MAX_TERMS * 20:
        raise TooBig("polynomial product")
    r = {}
    n1 = {m: _needs(m) for m in p}
    n2 = {m: _needs(m) for m in q}
    for m1, c1 in p.items():
        s1 = n1[m1]
        for m2, c2 in q.items():
            c = c1 * c2
            m = _mono_mul_plain(m1, m2)
            if (s1 or n2[m2]) and _must_reduce(m):
                for mm, cc in _reduce_mono(m).items():
                    s = r.get(mm, 0) + c * cc
                    if s:
                        r[mm] = _clean(s)
                    else:
                        r.pop(mm, None)
            else:
                s = r.get(m, 0) + c
                if s:
                    r[m] = _clean(s)
                else:
                    r.pop(m, None)
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial")
    return r


def _must_reduce(m):
    nexp = 0
    for a, e in m:
        if a in _SPECIAL:
            at = _ATOMS[a]
            if at.kind == "exp":
                nexp += 1
                if e != 1 or nexp > 1:
                    return True
            elif at.kind == "inv":
                if e < 0:
                    return True
            elif e >= 2 or e < 0:
                return True
    return False


def pval(p):
    s = Decimal(0)
    scale = Decimal(0)
    for m, c in p.items():
        if isinstance(c, Fraction):
            v = Decimal(c.numerator) / c.denominator
        else:
            v = Decimal(c)
        for a, e in m:
            f = _ATOMS[a].fp
            if e == 1:
                v = v * f
            else:
                v = v * f ** e
        s += v
        if abs(v) > scale:
            scale = abs(v)
    if scale and abs(s) < scale * TINY:
        return Decimal(0)
    return s


def enclose(x, depth=0):
    """Interval containing the value of a closed constant (None otherwise)."""
    import mpmath
    iv = mpmath.iv
    iv.prec = 200
    if x.free or depth > 6:
        return None
    s = iv.mpf(0)
    for m, c in x.p.items():
        c = Fraction(c)
        v = iv.mpf(c.numerator) / iv.mpf(c.denominator)
        for a, e in m:
            at = _ATOMS[a]
            if at.kind == "exp" or at.name in ("exp", "log", "sqrt"):
                arg = enclose(at.args[0], depth + 1)
                if arg is None or (at.name == "log" and not arg.a > 0) or \
                        (at.name == "sqrt" and not arg.a >= 0):
                    return None
                f = getattr(iv, at.name)(arg)
            elif at.name == "pi":
                f = iv.pi
            else:
                return None
            if e < 0:
                if 0 in f:
                    return None
                f = 1 / f
            v = v * f ** abs(int(e))
        s = s + v
    return s


# --------------------------------------------------------------------- Num
class Num:
    __slots__ = ("p", "_fp", "_val", "sort", "_free", "_h", "_z")
    __array_priority__ = 1000

    def __init__(self, p, sort="R"):
        self._z = None
        self.p = p
        self._fp = None
        self._val = None
        self.sort = sort
        self._free = None
        self._h = None

    # -- structure
    @property
    def fp(self):
        if self._fp is None:
            self._fp = quant(self.val)
        return self._fp

    @property
    def val(self):
        """Value at the fingerprint point."""
        if self._val is None:
            self._val = pval(self.p)
        return self._val

    @property
    def free(self):
        """Atoms (ids) of kind var/bound occurring anywhere inside."""
        if self._free is None:
            s = frozenset()
            seen = set()
            for m in self.p:
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        s = s | _ATOMS[a].free
            self._free = s
        return self._free

    @property
    def height(self):
        if self._h is None:
            h = 0
            for m in self.p:
                for a, _ in m:
                    h = max(h, _ATOMS[a].height)
            self._h = h
        return self._h

    def atoms(self):
        return {a for m in self.p for a, _ in m}

    def const(self):
        """Rational value if syntactically constant, else None."""
        if not self.p:
            return 0
        if len(self.p) == 1:
            c = self.p.get(())
            if c is not None:
                return c
        return None

    def key(self):
        return self.fp

    def __hash__(self):
        return hash(self.fp)

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        if not o.p:
            return self if self.sort == o.sort or o.sort == "I" else Num(self.p, "R")
        return Num(padd(self.p, o.p), _sort(self, o))

    __radd__ = __add__

    def __neg__(self):
        return Num(pscale(self.p, -1), self.sort)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return Num(padd(self.p, pscale(o.p, -1)), _sort(self, o))

    def __rsub__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return Num(pmul(self.p, o.p), _sort(self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        HOOKS.division(o)
        r = Num(pmul(self.p, recip(o).p), "R")
        if len(r.p) > 1:
            r = maybe_const(r)
        return r

    def __rtruediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        if isinstance(e, Num):
            c = e.const()
            if c is None:
                return power(self, e)
            e = c
        e = _clean(to_fraction(e))
        if isinstance(e, int):
            if e < 0:
                HOOKS.division(self)
            return npow(self, e)
        if e == Fraction(1, 2):
            return sqrt(self)
        return power(self, as_num(e))

    def __rpow__(self, b):
        return as_num(b) ** self

    def __floordiv__(self, o):
        return floordiv(self, as_num(o))

    def __rfloordiv__(self, o):
        return floordiv(as_num(o), self)

    def __mod__(self, o):
        return mod(self, as_num(o))

    def __rmod__(self, o):
        return mod(as_num(o), self)

    def __abs__(self):
        return absolute(self)

    # -- comparison (SBool)
    def __lt__(self, o):
        o = as_num(o)
        return NotImplemented if o is None else lt0(self - o)

    def __gt__(self, o):
        o = as_num(o)
        return NotImplemented if o is None else lt0(o - self)

    def __le__(self, o):
        o = as_num(o)
        return NotImplemented if o is None else le0(self - o)

    def __ge__(self, o):
        o = as_num(o)
        return NotImplemented if o is None else le0(o - self)

    def __eq__(self, o):
        o = as_num(o)
        return NotImplemented if o is None else eq0(self - o)

    def __ne__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return neg(eq0(self - o))

    # -- python protocol
    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return HOOKS.decide(neg(eq0(self)))

    def __index__(self):
        c = self.const()
        if c is None:
            c = HOOKS.concretize(self)
        if isinstance(c, int):
            return c
        raise TypeError("not an integer")

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported("int() of a symbolic number")

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic number")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1

    def squeeze(self, axis=None):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        real_type(t)
        return self

    @property
    def T(self):
        return self

    def ravel(self):
        return HOOKS.array1(self)

    flatten = ravel

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        raise TypeError("scalar is not subscriptable")

    @property
    def dtype(self):
        return HOOKS.dtype(self.sort)


def _sort(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def type_name(t):
    return t if isinstance(t, str) else getattr(t, "__name__", getattr(t, "name", None)) or str(t)


def real_type(t):
    """Numbers of other types than double are rounded, which is not modelled."""
    if t is not None and type_name(t) not in (
            "float", "Float", "SymFloat", "float64", "double", "d", "float_"):
        raise Unsupported("numbers of type %s" % type_name(t))


class _Hooks:
    """Filled in by the engine."""

    def division(self, d):
        pass

    def decide(self, c):
        raise Unsupported("decision outside of a proof")

    def concretize(self, n):
        raise Unsupported("symbolic index")

    def array1(self, n):
        raise Unsupported("array")

    def dtype(self, s):
        return float

    def nonneg(self, n, what):
        pass

    def nonsingular(self, d):
        pass

    def lift(self, n):
        return n

    def simplify(self, c):
        return c

    def assuming(self, *cs):
        import contextlib
        return contextlib.nullcontext()


HOOKS = _Hooks()


def to_fraction(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite number")
        # decimal reading of the literal
        return Fraction(repr(x))
    raise TypeError(type(x))


def as_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Num({(): x} if x else {}, "I")
    if isinstance(x, float):
        if x == PI_FLOAT:
            return pi()
        if x == 2 * PI_FLOAT:
            return pi() * 2
        if x == 0.5 * PI_FLOAT:
            return pi() / 2
        c = _clean(to_fraction(x))
        return Num({(): c} if c else {}, "R")
    if isinstance(x, Fraction):
        c = _clean(x)
        return Num({(): c} if c else {}, "R")
    if isinstance(x, SBool):
        return ite(x, ONE, ZERO)
    if hasattr(x, "__sym_scalar__"):
        if x.shape:
            return None
        return as_num(x.__sym_scalar__())
    return None


PI_FLOAT = 3.141592653589793
ZERO = Num({}, "I")
ONE = Num({(): 1}, "I")


def real(n):
    n = as_num(n)
    return n if n.sort == "R" else Num(n.p, "R")


def pi():
    return mk_app("pi", (), "R", fp=_PI)


_PI = Decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


# ------------------------------------------------------------------- atoms
def same(a, b):
    """Exact equality of two numbers as functions of their atoms."""
    if a is b:
        return True
    if a.fp != b.fp:
        return False
    if a.p == b.p:
        return True
    return is_zero(a - b)


def is_zero(n):
    if not n.p:
        return True
    if n.fp != 0:
        return False
    num, _ = together(n)
    return not num


def var(name, sort="R", square=None, meta=None, val=None):
    key = ("var", name, sort)
    a = _INTERN.get(key)
    if a is None:
        if square is not None:
            val = square.val.sqrt()
        elif val is None:
            val = _h("var", name, sort)
        a = _new_atom("var", name, (), sort, val, meta=meta)
        a.free = frozenset([a.id])
        _INTERN[key] = a
        if square is not None:
            a.square = square
            _SPECIAL.add(a.id)
    return Num({((a.id, 1),): 1}, sort)


def single_atom(v):
    (m, c), = v.p.items()
    (a, e), = m
    assert e == 1 and c == 1
    return _ATOMS[a]


def argkey(x):
    if isinstance(x, Num):
        return x.fp
    if isinstance(x, SBool):
        return ("b", x.key())
    if isinstance(x, Lam):
        return ("l", len(x.vars), x.body.fp if isinstance(x.body, Num) else x.body.key(),
                tuple(argkey(s) for s in x.shape))
    return ("c", repr(x))


def argsame(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return same(a, b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.key() == b.key()
    if isinstance(a, Lam) and isinstance(b, Lam):
        return (len(a.vars) == len(b.vars) and argsame(a.body, b.body)
                and len(a.shape) == len(b.shape)
                and all(argsame(s, t) for s, t in zip(a.shape, b.shape)))
    return repr(a) == repr(b)


def argfree(x):
    if isinstance(x, Num):
        return x.free
    if isinstance(x, SBool):
        return x.free()
    if isinstance(x, Lam):
        return x.body.free - frozenset(x.vars) if isinstance(x.body, Num) else \
            x.body.free() - frozenset(x.vars)
    return frozenset()


def argheight(x):
    if isinstance(x, Num):
        return x.height
    if isinstance(x, SBool):
        return x.height()
    if isinstance(x, Lam):
        h = x.body.height if isinstance(x.body, Num) else x.body.height()
        return h + len(x.vars)
    return 0


class Lam:
    """Array content as a function of bound index variables."""
    __slots__ = ("vars", "body", "shape")

    def __init__(self, vars, body, shape):
        self.vars = vars
        self.body = body
        self.shape = shape

    def __repr__(self):
        return "lam(%r)" % (self.body,)


def bound(level):
    """Canonical bound variable of a given binder height."""
    return var("$b%d" % level, "I")


_FRESH = [0]


def fresh(name, sort="I"):
    _FRESH[0] += 1
    return var("%s!%d" % (name, _FRESH[0]), sort)


def mk_lam(n, fn, shape=()):
    """Build a Lam over n index variables from a Python closure."""
    vs = [fresh("l") for _ in range(n)]
    body = fn(*vs)
    return close_lam(vs, body, shape)


def close_lam(vs, body, shape=()):
    if not isinstance(body, SBool):
        body = as_num(body)
        h = body.height
    else:
        h = body.height()
    canon = [bound(h + k + 1) for k in range(len(vs))]
    sub = {single_atom(v).id: c for v, c in zip(vs, canon)}
    body = subst(body, sub)
    return Lam(tuple(single_atom(c).id for c in canon), body,
               tuple(as_num(s) for s in shape))


def mk_app(name, args, sort="R", kind="app", square=None, fp=None, meta=None):
    key = (kind, name, tuple(argkey(a) for a in args))
    lst = _INTERN.get(key)
    if lst is not None:
        for a in lst:
            if all(argsame(x, y) for x, y in zip(a.args, args)):
                return Num({((a.id, 1),): 1}, a.sort)
    else:
        lst = _INTERN[key] = []
    free = frozenset()
    h = 0
    for x in args:
        free = free | argfree(x)
        h = max(h, argheight(x))
    if fp is None:
        fp = _h(key)
    a = _new_atom(kind, name, tuple(args), sort, fp, h, free, square, meta)
    lst.append(a)
    return Num({((a.id, 1),): 1}, sort)


def is_nonneg_syntactic(u):
    """Sum of even monomials with positive coefficients (or positive consts)."""
    for m, c in u.p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2:
                if not known_positive(_ATOMS[a]):
                    return False
    return True


def known_positive(a):
    if a.kind == "exp":
        return True
    if a.kind == "app" and a.name in ("sqrt", "pi"):
        return True   # non-negative is enough for the callers
    if a.kind == "inv":
        return is_nonneg_syntactic(a.args[0])
    if a.kind == "sum":
        return is_nonneg_syntactic(a.args[0].body)
    if a.kind == "var" and a.meta and a.meta.get("pos"):
        return True
    return False


def sqrt(x, checked=False):
    x = as_num(x)
    x = maybe_const(x)
    c = x.const()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of negative constant")
        c = Fraction(c)
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return as_num(Fraction(n, d))
    if not checked:
        HOOKS.nonneg(x, "sqrt")
    # perfect square of a known non-negative monomial
    if len(x.p) == 1:
        (m, cc), = x.p.items()
        if m and all(e % 2 == 0 and known_positive(_ATOMS[a]) for a, e in m):
            rc = sqrt(as_num(Fraction(cc)))
            return rc * Num({tuple((a, e // 2) for a, e in m): 1}, "R")
    v = x.val
    fp = v.sqrt() if v >= 0 else _h("sqrt", x.fp)
    r = mk_app("sqrt", (real(x),), "R", square=real(x), fp=fp)
    if checked and len(r.p) == 1:
        (m, cc), = r.p.items()
        if len(m) == 1:
            _SQUARES.add(m[0][0])
    return r


def maybe_const(x):
    """Collapse expressions that are semantically a small constant or that
    contain removable reciprocals."""
    if x.const() is not None:
        return x
    has_inv = any(_ATOMS[a].kind == "inv" for m in x.p for a, _ in m)
    if not has_inv:
        return x
    if len(x.p) > 400:
        return x
    return canon(x)


def canon(x):
    """Cancel common factors between numerator and reciprocals."""
    num, dens = together(x)
    if not num:
        return ZERO
    changed = False
    newd = []
    for a, e in dens:
        q = _ATOMS[a].args[0].p
        while e > 0:
            d = pdivexact(num, q)
            if d is None:
                break
            num = d
            e -= 1
            changed = True
        if e:
            newd.append((a, e))
    if not changed:
        return x
    r = Num(num, x.sort)
    for a, e in newd:
        r = Num(pmul(r.p, {((a, e),): 1}), x.sort)
    return Num(r.p, x.sort)


def _lead(p):
    return max(p, key=_order)


def _order(m):
    # graded lexicographic order; a genuine monomial order (exponents may be
    # negative only outside of division, where minima are factored out)
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


def _lexkey(m, ids):
    d = dict(m)
    return (sum(d.values()), tuple(d.get(i, 0) for i in ids))


def pdivexact(p, q, limit=3000):
    """Exact polynomial division p / q or None."""
    if len(q) == 1:
        return None
    if len(p) < len(q) and len(p) > 0 and len(q) > 1 and len(p) == 1:
        return None
    ids = sorted({a for m in p for a, _ in m} | {a for m in q for a, _ in m})
    for m in q:
        if any(e < 0 for _, e in m):
            return None
    # make p polynomial
    mins = {}
    for m in p:
        for a, e in m:
            mins[a] = min(mins.get(a, 0), e)
    shift = tuple((a, -e) for a, e in sorted(mins.items()) if e < 0)
    if shift:
        p = {_mono_mul_plain(m, shift): c for m, c in p.items()}
    pids = {a for m in p for a, _ in m}
    if any(a not in pids for m in q for a, _ in m):
        return None
    ql = max(q, key=lambda m: _lexkey(m, ids))
    qc = q[ql]
    r = dict(p)
    out = {}
    inv_ql = tuple((a, -e) for a, e in ql)
    for _ in range(limit):
        if not r:
            break
        rl = max(r, key=lambda m: _lexkey(m, ids))
        m = _mono_mul_plain(rl, inv_ql)
        if any(e < 0 for _, e in m):
            return None
        c = Fraction(r[rl]) / qc
        c = _clean(c)
        out[m] = c
        for mm, cc in q.items():
            k = _mono_mul_plain(m, mm)
            s = r.get(k, 0) - c * cc
            if s:
                r[k] = _clean(s)
            else:
                r.pop(k, None)
    if r:
        return None
    if shift:
        back = tuple((a, -e) for a, e in shift)
        out = {_mono_mul_plain(m, back): c for m, c in out.items()}
    return out


def together(n):
    """Return (numerator polynomial, [(inv atom id, exponent)])."""
    p = n.p
    dens = {}
    for m in p:
        for a, e in m:
            if a in _SPECIAL and _ATOMS[a].kind == "inv":
                if e > dens.get(a, 0):
                    dens[a] = e
    if not dens:
        return p, []
    # process atoms one at a time
    for a in sorted(dens, key=lambda a: len(_ATOMS[a].args[0].p)):
        k = 0
        for m in p:
            for b, e in m:
                if b == a and e > k:
                    k = e
        if not k:
            continue
        q = _ATOMS[a].args[0].p
        groups = {}
        for m, c in p.items():
            e = 0
            rest = []
            for b, x in m:
                if b == a:
                    e = x
                else:
                    rest.append((b, x))
            groups.setdefault(e, {})[tuple(rest)] = c
        acc = {}
        powq = {0: {(): 1}}
        for i in range(1, k + 1):
            powq[i] = pmul(powq[i - 1], q)
        for e, g in groups.items():
            acc = padd(acc, pmul(g, powq[k - e]))
        p = acc
    return p, sorted(dens.items())


def recip(n):
    n = as_num(n)
    c = n.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by zero")
        return as_num(Fraction(1) / Fraction(c))
    if len(n.p) == 1:
        (m, c), = n.p.items()
        mm = tuple((a, -e) for a, e in m)
        base = {mm: 1}
        if _needs(mm) and _must_reduce(mm):
            base = _reduce_mono(mm)
        return Num(pscale(base, Fraction(1) / Fraction(c)), "R")
    num, dens = together(n)
    if not num:
        raise Unsupported("division by zero")
    if dens or len(num) == 1:
        r = recip(Num(num)) if len(num) == 1 else _recip_poly(num)
        for a, e in dens:
            q = _ATOMS[a].args[0].p
            for _ in range(e):
                r = Num(pmul(r.p, q))
        return r
    return _recip_poly(num)


def _recip_poly(p):
    # monomial content
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for a in list(mins):
                e = min(mins[a], d.get(a, 0))
                if e:
                    mins[a] = e
                else:
                    del mins[a]
            for a, e in d.items():
                if e < 0 and a not in mins:
                    mins[a] = e
    # exp atoms must not be shifted out (their products combine)
    mins = {a: e for a, e in (mins or {}).items()
            if not (a in _SPECIAL and _ATOMS[a].kind == "exp")}
    sh = tuple((a, -e) for a, e in sorted(mins.items()))
    if sh:
        p = {_mono_mul_plain(m, sh): c for m, c in p.items()}
    lead = max(p, key=lambda m: tuple(m))
    c = p[lead]
    p = pscale(p, Fraction(1) / Fraction(c))
    f = Num(p)
    fpv = f.fp
    if fpv == 0:
        raise Unsupported("reciprocal with zero fingerprint")
    r = mk_app("inv", (f,), "R", kind="inv", fp=1 / f.val)
    r = pscale(r.p, Fraction(1) / Fraction(c))
    if sh:
        mm = sh
        base = {mm: 1}
        if _needs(mm) and _must_reduce(mm):
            base = _reduce_mono(mm)
        r = pmul(base, r)
    return Num(r, "R")


def npow(n, e):
    if e == 0:
        return ONE
    if e < 0:
        r = recip(n)
        e = -e
    else:
        r = n
    acc = r
    for _ in range(e - 1):
        acc = Num(pmul(acc.p, r.p), r.sort)
    if e > 1 and len(r.p) > 1:
        _ROOTS[acc.fp] = r
    return acc


def root_of(n):
    """x if n is known to be a power of x, else n."""
    return _ROOTS.get(n.fp, n)


def exp(x):
    x = maybe_const(real(as_num(x)))
    if not x.p:
        return ONE
    if is_zero(x):
        return ONE
    # exp(c * log(u)) with integer c
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and isinstance(c, int):
            a = _ATOMS[m[0][0]]
            if a.kind == "app" and a.name == "log":
                return npow(a.args[0], c)
    return mk_app("exp", (x,), "R", kind="exp", fp=x.val.exp())


def log(x):
    x = maybe_const(real(as_num(x)))
    c = x.const()
    if c == 1:
        return ZERO
    if c is not None and c <= 0:
        raise Unsupported("log of non-positive constant")
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            if a.kind == "exp":
                return a.args[0]
    HOOKS.nonneg(x, "log")
    return mk_app("log", (x,), "R", fp=x.val.ln() if x.val > 0 else None)


def power(b, e):
    b, e = as_num(b), as_num(e)
    return exp(e * log(b))


def _neg_lead(x):
    if not x.p:
        return False
    return x.p[max(x.p, key=lambda m: tuple(m))] < 0


def quarter_turns(x):
    """k if x = k*pi/2 for an integer k."""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].name == "pi" and (2 * c) == int(2 * c):
            return int(2 * c)
    return None


def sin(x):
    x = maybe_const(real(as_num(x)))
    if not x.p:
        return ZERO
    k = quarter_turns(x)
    if k is not None:
        return as_num((0, 1, 0, -1)[k % 4])
    if _neg_lead(x):
        return -sin(-x)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            if a.kind == "app" and a.name == "acos":
                return sqrt(1 - a.args[0] * a.args[0])
    c = cos(x)
    sq = 1 - c * c
    return mk_app("sin", (x,), "R", square=sq, fp=_mp("sin", x.val))


def cos(x):
    x = maybe_const(real(as_num(x)))
    if not x.p:
        return ONE
    k = quarter_turns(x)
    if k is not None:
        return as_num((1, 0, -1, 0)[k % 4])
    if _neg_lead(x):
        return cos(-x)
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            if a.kind == "app" and a.name == "acos":
                return a.args[0]
    return mk_app("cos", (x,), "R", fp=_mp("cos", x.val))


def fn(name, *args):
    args = tuple(maybe_const(real(as_num(a))) for a in args)
    if name == "acos" and args[0].const() == 1:
        return ZERO
    if name == "acos" and args[0].const() == 0:
        return pi() / 2
    if name == "acos" and args[0].const() == -1:
        return pi()
    if name in ("acos", "asin") and args[0].const() is None:
        HOOKS.nonneg(1 - args[0], name)
        HOOKS.nonneg(1 + args[0], name)
    if name == "acos" and _neg_lead(args[0]):
        return pi() - fn(name, -args[0])
    if name in ("atan", "asin", "tanh", "sinh", "tan") and not args[0].p:
        return ZERO
    if name in ("atan", "asin", "tanh", "tan") and _neg_lead(args[0]):
        return -fn(name, -args[0])
    fp = None
    if name in ("acos", "asin", "atan", "atan2", "tanh", "sinh", "cosh", "tan"):
        try:
            fp = _mp(name, *[a.val for a in args])
        except ValueError:
            fp = None
    return mk_app(name, args, "R", fp=fp)


def floor_(x):
    x = maybe_const(as_num(x))
    c = x.const()
    if c is not None:
        from math import floor
        return as_num(floor(c))
    if x.sort == "I":
        return x
    # value determined by the path condition
    k = as_num(int(x.val.to_integral_value(rounding="ROUND_FLOOR")))
    if HOOKS.simplify(le0(k - x)) is TRUE and HOOKS.simplify(lt0(x - k - 1)) is TRUE:
        return k
    return mk_app("floor", (x,), "I")


def ceil_(x):
    return -floor_(-as_num(x))


def trunc_(x):
    x = as_num(x)
    if x.sort == "I":
        return x
    c = x.const()
    if c is not None:
        return as_num(int(c))
    return ite(le0(-x), floor_(x), ceil_(x))


def floordiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return as_num(Fraction(ca) // Fraction(cb)) if not (
            isinstance(ca, int) and isinstance(cb, int)) else as_num(ca // cb)
    if cb == 1 and a.sort == "I":
        return a
    if a.sort == "I" and b.sort == "I":
        # (i*m + j) // m = i + j // m
        q, r = split_multiple(a, b)
        if q.p:
            return q + floordiv(r, b)
        if not r.p:
            return ZERO
        if HOOKS.simplify(le0(-r)) is TRUE and HOOKS.simplify(lt0(r - b)) is TRUE:
            return ZERO
        return mk_app("idiv", (a, b), "I")
    return floor_(a / b)


def split_multiple(a, b):
    """a = q*b + r where q collects the monomials divisible by b."""
    if len(b.p) == 1:
        (mb, cb), = b.p.items()
        inv = tuple((x, -e) for x, e in mb)
        q, r = {}, {}
        for m, c in a.p.items():
            mm = _mono_mul_plain(m, inv)
            cc = Fraction(c) / cb
            if all(e > 0 for _, e in mm) and cc.denominator == 1:
                q[mm] = cc.numerator
            else:
                r[m] = c
        return Num(q, "I"), Num(r, "I")
    d = pdivexact(a.p, b.p)
    if d is not None:
        return Num(d, "I"), ZERO
    return ZERO, a


def mod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return as_num(ca % cb)
    return a - b * floordiv(a, b)


def absolute(x):
    x = as_num(x)
    c = x.const()
    if c is not None:
        return as_num(abs(c))
    if is_nonneg_syntactic(x):
        return x
    return ite(le0(-x), x, -x)


def minimum(a, b):
    a, b = as_num(a), as_num(b)
    # np.minimum / min(a, b) (python: second if strictly smaller)
    return ite(lt0(b - a), b, a)


def maximum(a, b):
    a, b = as_num(a), as_num(b)
    return ite(lt0(a - b), b, a)


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, SBool) or isinstance(b, SBool):
        a, b = as_bool(a), as_bool(b)
        return disj(conj(c, a), conj(neg(c), b))
    a, b = as_num(a), as_num(b)
    if same(a, b):
        return a
    c = as_bool(HOOKS.simplify(c))
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    # canonical orientation
    if c.op == "not":
        c, a, b = c.args[0], b, a
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    if c.op == "eq":
        sub = _block_equation(c.args[0])
        if sub:
            a = as_num(subst(a, sub))
    if not b.p and len(a.p) == 1 and sort == "R":
        (m, f), = a.p.items()
        if f != 1 and m:
            return mk_app("ite", (c, Num({m: 1}, a.sort), b), sort, kind="ite") * f
    return mk_app("ite", (c, a, b), sort, kind="ite")


def _block_equation(x):
    """Substitution made by an equation between two block indices."""
    if len(x.p) != 2 or sorted(x.p.values()) != [-1, 1]:
        return None
    ids = []
    for m in x.p:
        if len(m) != 1 or m[0][1] != 1 or _ATOMS[m[0][0]].name != "idiv":
            return None
        ids.append(m[0][0])
    lo, hi = sorted(ids)
    sub = {hi: Num({((lo, 1),): 1}, "I")}
    for i in _ATOMS[hi].free:
        # substitution looks for variables
        sub.setdefault(i, Num({((i, 1),): 1}, _ATOMS[i].sort))
    return sub




def sum_(n, f, lo=0):
    """Sum of f(k) for lo <= k < n (n - lo >= 0)."""
    n, lo = as_num(n), as_num(lo)
    cn, cl = n.const(), lo.const()
    if cn is not None and cl is not None:
        acc = ZERO
        for k in range(cl, cn):
            acc = acc + f(k)
        return acc
    if not (lo.p == {}):
        return sum_(n - lo, lambda k: f(k + lo))
    k = fresh("s")
    with HOOKS.assuming(le0(-k), lt0(k - n)):
        body = as_num(f(k))
    w = _block_width(n, body, single_atom(k).id)
    if w is not None:
        # blocks of equal size: index = block * width + offset
        w, m = w
        return sum_(w, lambda a: sum_(m, lambda j: f(j * w + a)))
    body, done = _pinned(n, k, body)
    body, apart = _hoisted(n, k, body)
    return done + apart + sum_close(n, k, body)


def _hoisted(n, k, body):
    """Terms of a sum that vanish unless an equation without the index holds."""
    kid = single_atom(k).id
    rest, done = {}, ZERO
    for m, c in body.p.items():
        for a, e in m:
            at = _ATOMS[a]
            if at.kind == "ite" and e == 1 and kid in at.free and at.args[0].op == "eq" \
                    and not at.args[2].p and kid not in argfree(at.args[0]):
                break
        else:
            rest[m] = c
            continue
        cond, x, _ = at.args
        others = Num({tuple(z for z in m if z[0] != a): c}, body.sort)
        with HOOKS.assuming(cond):
            v = others * x
            part = sum_(n, lambda j: subst(v, {kid: as_num(j)}))
        done = done + ite(cond, part, ZERO)
    return Num(rest, body.sort), done


def _block_width(n, body, kid):
    """Width of the blocks that the body of a sum divides its index into."""
    if body.sort == "I" and not body.p:
        return None
    seen = set()
    found = []

    def walk(x):
        if isinstance(x, Num):
            for m in x.p:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = _ATOMS[a]
                    if kid not in at.free:
                        continue
                    if at.name == "idiv" and kid not in at.args[1].free:
                        found.append(at.args[1])
                    for y in at.args:
                        walk(y)
        elif isinstance(x, SBool):
            for y in x.args:
                walk(y)
        elif isinstance(x, Lam):
            walk(x.body)
    walk(body)
    for w in found:
        if w.const() is not None or same(w, n):
            continue
        if len(w.p) == 1:
            m, r = split_multiple(n, w)
        else:
            d = pdivexact(n.p, w.p)
            m, r = (Num(d, "I"), ZERO) if d is not None else (ZERO, n)
        if not r.p and m.p and HOOKS.simplify(lt0(-w)) is TRUE:
            return w, m
    return None


def _pinned(n, k, body):
    """Terms of a sum that are non-zero for one index only."""
    kid = single_atom(k).id
    rest, done = {}, ZERO
    todo = list(body.p.items())
    guard = 0
    while todo:
        m, c = todo.pop()
        hit = None
        for a, e in m:
            at = _ATOMS[a]
            if at.kind == "ite" and e == 1 and kid in at.free:
                d = _pin(at.args[0], k, kid)
                if d is not None:
                    hit = (a, at, d)
                    break
        guard += 1
        if hit is None or guard > 200:
            rest[m] = rest.get(m, 0) + c
            continue
        a, at, d = hit
        cond, x, y = at.args
        others = Num({tuple(z for z in m if z[0] != a): c}, body.sort)
        if isinstance(d, tuple):
            # non-zero for a range of indices only
            lo, hi = d
            inside = conj(le0(-lo), lt0(hi - n), le0(lo - hi - 1))
            if HOOKS.simplify(inside) is not TRUE:
                rest[m] = rest.get(m, 0) + c
                continue
            for mm, cc in (others * y).p.items():
                todo.append((mm, cc))

            def part(j, lo=lo, cond=cond, v=others * (x - y)):
                sub = {kid: lo + j}
                ok = HOOKS.simplify(subst(cond, sub))
                if ok is FALSE:
                    return ZERO
                with HOOKS.assuming(ok):
                    w = subst(v, sub)
                return ite(ok, w, ZERO)
            done = done + sum_(hi - lo + 1, part)
            continue
        for mm, cc in (others * y).p.items():
            todo.append((mm, cc))
        sub = {kid: d}
        inside = HOOKS.simplify(conj(le0(-d), lt0(d - n), subst(cond, sub)))
        if inside is FALSE:
            continue
        with HOOKS.assuming(inside):
            v = subst(others * (x - y), sub)
        done = done + ite(inside, v, ZERO)
    return Num({m: c for m, c in rest.items() if c}, body.sort), done


def _pin(cond, k, kid):
    """The only index for which the condition may hold, or first and last."""
    lo, hi = [], []
    for b in (cond.args if cond.op == "and" else (cond,)):
        negated = b.op == "not"
        b = b.args[0] if negated else b
        if b.op not in ("lt", "eq") or b.args[0].sort != "I":
            continue
        x = b.args[0]
        for s in (1, -1):
            r = x - k * s
            if kid not in r.free:
                break
        else:
            continue
        # x = s*k + r
        if b.op == "eq":
            if not negated:
                return -r if s == 1 else r
        elif not negated:          # s*k + r < 0
            (hi if s == 1 else lo).append(-r - 1 if s == 1 else r + 1)
        else:                      # s*k + r >= 0
            (lo if s == 1 else hi).append(-r if s == 1 else r)
    for x in lo:
        for y in hi:
            if same(x, y):
                return x
    if len(lo) == 1 and len(hi) == 1:
        return lo[0], hi[0]
    return None


def sum_close(n, k, body):
    """Sum over k < n of a body, in a canonical form: factors free of the
    bound variable are pulled out, nested sums are merged."""
    kid = single_atom(k).id
    total = ZERO
    groups = {}
    for m, c in body.p.items():
        outer, inner = [], []
        for a, e in m:
            if kid in _ATOMS[a].free:
                inner.append((a, e))
            else:
                outer.append((a, e))
        groups.setdefault(tuple(inner), []).append((tuple(outer), c))
    for inner, lst in groups.items():
        coeff = {}
        for o, c in lst:
            coeff[o] = coeff.get(o, 0) + c
        coeff = Num(coeff, body.sort)
        total = total + coeff * _sum_mono([(k, n)], inner, body.sort)
    return total


def _sum_mono(binders, inner, sort):
    """Sum over the binders of the monomial ``inner``."""
    if not inner:
        r = ONE
        for _, n in binders:
            r = r * n
        return r
    ids = {single_atom(k).id for k, _ in binders}
    nested = [(a, e) for a, e in inner if _ATOMS[a].kind == "sum" and e > 0]
    if nested:
        a, e = nested[0]
        at = _ATOMS[a]
        lam = at.args[0]
        ns = at.args[1:]
        vs = [fresh("s") for _ in lam.vars]
        b = subst(lam.body, {x: v for x, v in zip(lam.vars, vs)})
        rest = [(x, y) for x, y in inner if x != a]
        if e > 1:
            rest.append((a, e - 1))
            rest.sort()
        p = pmul(b.p, {tuple(rest): 1}) if rest else b.p
        out = ZERO
        for m, c in p.items():
            out = out + _sum_multi(binders + list(zip(vs, ns)), m, sort) * c
        return out
    return _sum_multi(binders, inner, sort)


def _sum_multi(binders, m, sort):
    ids = [single_atom(k).id for k, _ in binders]
    idset = frozenset(ids)
    outer, inner = [], []
    for a, e in m:
        (inner if _ATOMS[a].free & idset else outer).append((a, e))
    coeff = Num({tuple(outer): 1}, sort)
    # exp(a + b) = exp(a) * exp(b) for the part free of the binders
    for j, (a, e) in enumerate(inner):
        at = _ATOMS[a]
        if at.kind != "exp":
            continue
        p = at.args[0].p
        dep, ind = {}, {}
        for mm, c in p.items():
            if any(_ATOMS[x].free & idset for x, _ in mm):
                dep[mm] = c
            else:
                ind[mm] = c
        if ind and dep:
            x = exp(Num(dep, at.args[0].sort))
            if len(x.p) == 1:
                (mm, c), = x.p.items()
                if c == 1 and len(mm) == 1 and mm[0][1] == 1:
                    coeff = coeff * npow(exp(Num(ind, at.args[0].sort)), e)
                    inner[j] = (mm[0][0], e)
    inner.sort()
    # drop binders that do not occur; split independent groups
    groups = []          # list of (set of ids, factors)
    for a, e in inner:
        f = set(_ATOMS[a].free & idset)
        fac = [(a, e)]
        rest = []
        for g, fs in groups:
            if g & f:
                f |= g
                fac += fs
            else:
                rest.append((g, fs))
        groups = rest + [(f, fac)]
    used = set()
    for g, _ in groups:
        used |= g
    dep = {i: n for i, (_, n) in zip(ids, binders)}
    kv = {i: k for i, (k, _) in zip(ids, binders)}
    for i in ids:
        if i not in used:
            coeff = coeff * dep[i]
    for g, fac in groups:
        fac = tuple(sorted(fac))
        bs = [(kv[i], dep[i]) for i in ids if i in g]
        if any(_ATOMS[a].kind == "sum" and e > 0 for a, e in fac):
            coeff = coeff * _sum_mono(bs, fac, sort)
            continue
        coeff = coeff * _sum_atom(bs, fac, sort)
    return coeff


def _sum_atom(bs, fac, sort):
    import itertools
    best = None
    perms = itertools.permutations(bs) if 1 < len(bs) <= 5 else [tuple(bs)]
    for perm in perms:
        lam = close_lam([k for k, _ in perm], Num({fac: 1}, sort),
                        [n for _, n in perm])
        key = repr((argkey(lam),))
        if best is None or key < best[0]:
            best = (key, lam, [n for _, n in perm])
    return mk_app("sum", (best[1],) + tuple(best[2]), sort, kind="sum")


# ---------------------------------------------------------------- booleans
class SBool:
    __slots__ = ("op", "args", "_key", "_free", "_z")
    __array_priority__ = 1000

    def __init__(self, op, args):
        self._z = None
        self.op = op
        self.args = args
        self._key = None
        self._free = None

    def key(self):
        if self._key is None:
            if self.op in ("lt", "le", "eq"):
                self._key = (self.op, self.args[0].fp)
            elif self.op == "op":
                self._key = (self.op, self.args[0],
                             tuple(argkey(a) for a in self.args[1:]))
            elif self.op in ("and", "or"):
                self._key = (self.op,) + tuple(sorted((a.key() for a in self.args), key=repr))
            else:
                self._key = (self.op,) + tuple(a.key() for a in self.args)
        return self._key

    def free(self):
        if self._free is None:
            f = frozenset()
            for a in self.args:
                f = f | argfree(a)
            self._free = f
        return self._free

    def height(self):
        return max([argheight(a) for a in self.args], default=0)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        return HOOKS.decide(self)

    def __and__(self, o):
        return conj(self, as_bool(o))

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, as_bool(o))

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __eq__(self, o):
        o = as_bool(o)
        return disj(conj(self, o), conj(neg(self), neg(o)))

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show_bool(self)

    # numpy scalar protocol
    ndim = 0
    shape = ()

    def any(self):
        return self

    def all(self):
        return self

    # arithmetic on booleans
    def __mul__(self, o):
        return as_num(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return as_num(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return as_num(self) - o

    def __rsub__(self, o):
        return o - as_num(self)


TRUE = SBool("true", ())
FALSE = SBool("false", ())


def as_bool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Num):
        return neg(eq0(x))
    if x is None:
        return FALSE
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    if hasattr(x, "__sym_scalar__"):
        return as_bool(x.__sym_scalar__())
    return TRUE if x else FALSE


def _norm_cmp(n):
    n = maybe_const(n)
    if len(n.p) > 0:
        lead = max(n.p, key=lambda m: tuple(m))
        c = abs(Fraction(n.p[lead]))
        if c != 1:
            n = Num(pscale(n.p, 1 / c), n.sort)
    return n


def lt0(n):
    c = n.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    n2 = _norm_cmp(n)
    c = n2.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if n.sort == "I" and n2.sort != "I":
        n2 = n
    if is_zero(n2):
        return FALSE
    if _strictly_pos(n2):
        return FALSE
    if _strictly_pos(-n2):
        return TRUE
    if is_nonneg_syntactic(n2):
        return FALSE
    return SBool("lt", (n2,))


def _strictly_pos(n):
    """Positive constant term plus syntactically non-negative rest, or a
    single strictly positive monomial."""
    if not n.p:
        return False
    if len(n.p) == 1:
        (m, c), = n.p.items()
        return c > 0 and all(_ATOMS[a].kind == "exp" or
                             (_ATOMS[a].kind == "app" and _ATOMS[a].name == "pi") or
                             (_ATOMS[a].meta or {}).get("pos") for a, e in m)
    if n.p.get((), 0) > 0:
        return is_nonneg_syntactic(n)
    return False


def le0(n):
    return neg(lt0(-n))


def eq0(n):
    c = n.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    n2 = _norm_cmp(n)
    c = n2.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if is_zero(n2):
        return TRUE
    if _strictly_pos(n2) or _strictly_pos(-n2):
        return FALSE
    lead = max(n2.p, key=lambda m: tuple(m))
    if n2.p[lead] < 0:
        n2 = -n2
    return SBool("eq", (n2,))


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    return SBool("not", (b,))


def conj(*bs):
    out = []
    keys = set()
    for b in bs:
        b = as_bool(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == "and" else (b,)):
            k = x.key()
            if k not in keys:
                keys.add(k)
                out.append(x)
    for x in out:
        if neg(x).key() in keys:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def disj(*bs):
    return neg(conj(*[neg(as_bool(b)) for b in bs]))


def opaque_bool(name, *args):
    return SBool("op", (name,) + args)


# ------------------------------------------------------------ substitution
def subst(x, sub, memo=None):
    """Replace atoms (by id) by numbers."""
    if not sub:
        return x
    if memo is None:
        memo = {}
    keys = frozenset(sub)
    return _subst(x, sub, keys, memo)


def _subst(x, sub, keys, memo):
    if isinstance(x, Num):
        touched = False
        for m in x.p:
            for a, _ in m:
                if a in keys or (_ATOMS[a].free & keys):
                    touched = True
                    break
            if touched:
                break
        if not touched:
            return x
        acc = {}
        for m, c in x.p.items():
            term = Num({(): c}, x.sort)
            plain = []
            for a, e in m:
                at = _ATOMS[a]
                if a in keys or (at.free & keys):
                    v = _subst_atom(at, sub, keys, memo)
                    if e == 1:
                        f = v
                    elif e > 0:
                        f = npow(v, e)
                    else:
                        f = npow(v, e)
                    term = Num(pmul(term.p, f.p), x.sort)
                else:
                    plain.append((a, e))
            if plain:
                term = Num(pmul(term.p, {tuple(plain): 1}), x.sort)
            acc = padd(acc, term.p)
        return Num(acc, x.sort)
    if isinstance(x, SBool):
        if not (x.free() & keys):
            return x
        if x.op == "lt":
            return lt0(_subst(x.args[0], sub, keys, memo))
        if x.op == "eq":
            return eq0(_subst(x.args[0], sub, keys, memo))
        if x.op == "not":
            return neg(_subst(x.args[0], sub, keys, memo))
        if x.op == "and":
            return conj(*[_subst(a, sub, keys, memo) for a in x.args])
        if x.op == "op":
            return SBool("op", (x.args[0],) + tuple(
                _subst(a, sub, keys, memo) if isinstance(a, (Num, SBool, Lam)) else a
                for a in x.args[1:]))
        raise Unsupported("subst " + x.op)
    if isinstance(x, Lam):
        if not (argfree(x) & keys):
            return x
        # re-canonicalise (the replacement may contain binders)
        vs = [fresh("l") for _ in x.vars]
        inner = dict(sub)
        for v, a in zip(vs, x.vars):
            inner[a] = v
        body = _subst(x.body, inner, frozenset(inner), {})
        return close_lam(vs, body, tuple(_subst(s, sub, keys, memo) for s in x.shape))
    return x


def _subst_atom(at, sub, keys, memo):
    r = memo.get(at.id)
    if r is not None:
        return r
    if at.id in keys:
        r = sub[at.id]
    elif at.kind == "sum":
        lam = at.args[0]
        vs = [fresh("s") for _ in lam.vars]
        inner = dict(sub)
        for x, v in zip(lam.vars, vs):
            inner[x] = v
        r = _subst(lam.body, inner, frozenset(inner), {})
        for v, n in zip(vs, at.args[1:]):
            r = sum_build(_subst(n, sub, keys, memo), v, r)
    else:
        args = tuple(_subst(a, sub, keys, memo) for a in at.args)
        r = rebuild(at, args)
    memo[at.id] = r
    return r


def sum_build(n, v, body):
    c = n.const()
    if c is not None:
        vid = single_atom(v).id
        acc = ZERO
        for k in range(c):
            acc = acc + subst(body, {vid: as_num(k)})
        return acc
    return sum_close(n, v, body)


def rebuild(at, args):
    if at.kind == "var":
        return Num({((at.id, 1),): 1}, at.sort)
    if at.kind == "exp":
        return exp(args[0])
    if at.kind == "inv":
        return recip(args[0])
    if at.kind == "ite":
        return ite(args[0], args[1], args[2])
    n = at.name
    if at.meta and "rebuild" in at.meta:
        return at.meta["rebuild"](args)
    if n == "sqrt":
        return sqrt(args[0], checked=at.id in _SQUARES)
    if n == "log":
        return log(args[0])
    if n == "sin":
        return sin(args[0])
    if n == "cos":
        return cos(args[0])
    if n == "floor":
        return floor_(args[0])
    if n == "idiv":
        return floordiv(args[0], args[1])
    if at.kind == "app" and n in ("acos", "asin", "atan", "atan2", "tanh",
                                  "sinh", "cosh", "tan"):
        return fn(n, *args)
    return mk_app(n, args, at.sort, kind=at.kind, meta=at.meta)


# --------------------------------------------------------------------- show
def show_atom(a):
    if a.kind == "var":
        return a.name
    if a.kind == "inv":
        return "1/(%s)" % show(a.args[0])
    if a.kind == "ite":
        return "(%s if %s else %s)" % (show(a.args[1]), a.args[0], show(a.args[2]))
    if a.kind == "sum":
        return "sum<%s>(%s)" % (show(a.args[1]), show(a.args[0].body))
    return "%s(%s)" % (a.name, ", ".join(
        show(x) if isinstance(x, Num) else repr(x) for x in a.args))


def show(n, limit=40):
    if not isinstance(n, Num):
        return repr(n)
    if not n.p:
        return "0"
    out = []
    for i, (m, c) in enumerate(n.p.items()):
        if i >= limit:
            out.append("... (%d terms)" % len(n.p))
            break
        f = []
        if c != 1 or not m:
            f.append(str(c) if c >= 0 else "(%s)" % c)
        for a, e in m:
            s = show_atom(_ATOMS[a])
            f.append(s if e == 1 else "%s^%d" % (s, e))
        out.append("*".join(f))
    return " + ".join(out)


def show_bool(b):
    if b.op == "lt":
        return "%s < 0" % show(b.args[0])
    if b.op == "eq":
        return "%s == 0" % show(b.args[0])
    if b.op == "not":
        if b.args[0].op == "lt":
            return "%s >= 0" % show(b.args[0].args[0])
        if b.args[0].op == "eq":
            return "%s != 0" % show(b.args[0].args[0])
        return "not (%r)" % (b.args[0],)
    if b.op == "and":
        return " and ".join("(%r)" % (a,) for a in b.args)
    if b.op == "op":
        return "%s(%s)" % (b.args[0], ", ".join(repr(a) for a in b.args[1:]))
    return b.op
