"""Translation of symbolic terms to SMT and back-end calls (z3, cvc5)."""
import subprocess
import time
from fractions import Fraction

import z3

from . import terms as T

STATS = dict(z3_calls=0, z3_time=0.0, cvc5_calls=0, cvc5_time=0.0)


_EPOCH = [0]
_VARS = {}           # atom -> constant
_ENTRIES = {}        # atom -> (axioms, atoms, reciprocals used by them)
_OPS = {}


def _forget():
    _EPOCH[0] += 1
    _VARS.clear()
    _ENTRIES.clear()
    _OPS.clear()


T.RESET.append(_forget)


def zvar(i):
    v = _VARS.get(i)
    if v is None:
        v = _VARS[i] = (z3.Int if T.atom(i).sort == "I" else z3.Real)("a%d" % i)
    return v


class Use:
    """Atoms and reciprocals of atoms used by translated terms."""

    def __init__(self):
        self.atoms = {}
        self.recips = {}

    def add(self, part):
        self.atoms.update(part[1])
        self.recips.update(part[2])
        return part[0]

    # ---- numbers
    def num(self, n, want_int=False):
        return self.add(znum(n, want_int and n.sort == "I"))

    # ---- booleans
    def bool(self, b):
        return self.add(zbool(b))


def znum(n, as_int):
    z = n._z
    if z is None or z[0] != _EPOCH[0]:
        z = n._z = (_EPOCH[0], {})
    r = z[1].get(as_int)
    if r is not None:
        return r
    atoms, recips = {}, {}
    terms = []
    for m, c in n.p.items():
        fs = []
        if as_int:
            cz = z3.IntVal(int(c))
        else:
            c = Fraction(c)
            cz = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        for a, e in m:
            v = zvar(a)
            atoms[a] = True
            if e < 0:
                recips[a] = True
                fs.extend([z3.Real("r%d" % a)] * (-e))
            else:
                if not as_int and T.atom(a).sort == "I":
                    v = z3.ToReal(v)
                fs.extend([v] * e)
        if not fs:
            terms.append(cz)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = cz * t
            terms.append(t)
    if not terms:
        s = z3.IntVal(0) if as_int else z3.RealVal(0)
    else:
        s = terms[0]
        for t in terms[1:]:
            s = s + t
    r = z[1][as_int] = (s, atoms, recips)
    return r


def zbool(b):
    if b is T.TRUE:
        return z3.BoolVal(True), {}, {}
    if b is T.FALSE:
        return z3.BoolVal(False), {}, {}
    z = b._z
    if z is not None and z[0] == _EPOCH[0]:
        return z[1]
    u = Use()
    if b.op in ("lt", "eq"):
        n = b.args[0]
        as_int = n.sort == "I"
        if as_int and any(not isinstance(c, int) for c in n.p.values()):
            # comparisons are normalised by a positive factor
            from math import lcm
            f = lcm(*[Fraction(c).denominator for c in n.p.values()])
            n = T.Num(T.pscale(n.p, f), "I")
        x = u.num(n, as_int)
        zero = z3.IntVal(0) if as_int else z3.RealVal(0)
        r = x < zero if b.op == "lt" else x == zero
    elif b.op == "not":
        r = z3.Not(u.bool(b.args[0]))
    elif b.op == "and":
        r = z3.And([u.bool(a) for a in b.args])
    elif b.op == "op":
        k = b.key()
        r = _OPS.get(k)
        if r is None:
            r = _OPS[k] = z3.Bool("op%d" % len(_OPS))
    else:
        raise T.Unsupported("bool " + b.op)
    b._z = (_EPOCH[0], (r, u.atoms, u.recips))
    return b._z[1]


def entry(i):
    """Axioms about one atom."""
    e = _ENTRIES.get(i)
    if e is not None:
        return e
    a = T.atom(i)
    v = zvar(i)
    u = Use()
    ax = []
    k = a.kind
    if k == "var":
        if a.meta and a.meta.get("pos"):
            ax.append(v > 0)
        if a.square is not None:
            ax.append(v * v == u.num(a.square))
    elif k == "exp":
        x = u.num(a.args[0])
        ax.append(v > 0)
        ax.append(z3.Implies(x > 0, v > 1))
        ax.append(z3.Implies(x < 0, v < 1))
        ax.append(z3.Implies(x == 0, v == 1))
    elif k == "inv":
        q = u.num(a.args[0])
        ax.append(z3.Implies(q != 0, v * q == 1))
        ax.append(z3.Implies(q > 0, v > 0))
        ax.append(z3.Implies(q < 0, v < 0))
    elif k == "ite":
        c, x, y = a.args
        if a.sort == "I":
            ax.append(v == z3.If(u.bool(c), u.num(x, True), u.num(y, True)))
        else:
            ax.append(v == z3.If(u.bool(c), u.num(x), u.num(y)))
    elif k == "sum":
        lam = a.args[0]
        if T.is_nonneg_syntactic(lam.body):
            ax.append(v >= 0)
            if T._strictly_pos(lam.body):
                ax.append(z3.Implies(z3.And([u.num(n) > 0 for n in a.args[1:]]), v > 0))
    else:
        name = a.name
        if name == "sqrt":
            x = u.num(a.args[0])
            ax.append(v >= 0)
            ax.append(z3.Implies(x >= 0, v * v == x))
            ax.append(z3.Implies(x > 0, v > 0))
        elif name == "pi":
            ax.append(v > z3.RealVal("3.14159"))
            ax.append(v < z3.RealVal("3.1416"))
        elif name in ("sin", "cos"):
            x = u.num(a.args[0])
            ax.append(v >= -1)
            ax.append(v <= 1)
            if name == "sin":
                c = u.num(T.cos(a.args[0]))
                ax.append(v * v + c * c == 1)
                ax.append(z3.Implies(z3.And(x > 0, x < u.num(T.pi())), v > 0))
        elif name == "acos":
            x = u.num(a.args[0])
            p = u.num(T.pi())
            ax.append(v >= 0)
            ax.append(v <= p)
            ax.append(z3.Implies(z3.And(x >= -1, x < 1), v > 0))
            ax.append(z3.Implies(x == 1, v == 0))
            ax.append(z3.Implies(z3.And(x > -1, x <= 1), v < p))
            ax.append(z3.Implies(z3.And(x > 0, x <= 1), 2 * v < p))
            ax.append(z3.Implies(z3.And(x < 0, x >= -1), 2 * v > p))
        elif name == "log":
            x = u.num(a.args[0])
            ax.append(z3.Implies(z3.And(x > 0, x < 1), v < 0))
            ax.append(z3.Implies(x > 1, v > 0))
            ax.append(z3.Implies(x == 1, v == 0))
        elif name == "floor":
            x = u.num(a.args[0])
            ax.append(z3.ToReal(v) <= x)
            ax.append(x < z3.ToReal(v) + 1)
        elif name == "idiv":
            x, y = u.num(a.args[0], True), u.num(a.args[1], True)
            ax.append(z3.Implies(y > 0, z3.And(y * v <= x, x < y * v + y)))
            ax.append(z3.Implies(z3.And(y > 0, x >= 0), v >= 0))
        elif name == "atan2":
            p = u.num(T.pi())
            y, x = u.num(a.args[0]), u.num(a.args[1])
            ax.append(v <= p)
            ax.append(v > -p)
            ax.append(z3.Implies(y >= 0, v >= 0))
            ax.append(z3.Implies(y > 0, z3.And(v > 0, v < p)))
            ax.append(z3.Implies(z3.And(y == 0, x > 0), v == 0))
            ax.append(z3.Implies(z3.And(y >= 0, x > 0), 2 * v < p))
            ax.append(z3.Implies(z3.And(y > 0, x < 0), 2 * v > p))
        elif name == "tanh":
            x = u.num(a.args[0])
            ax.append(v < 1)
            ax.append(v > -1)
            ax.append((x > 0) == (v > 0))
            ax.append((x < 0) == (v < 0))
        if a.meta and a.meta.get("pos"):
            ax.append(v > 0)
        if a.square is not None:
            ax.append(v * v == u.num(a.square))
        if a.meta and a.meta.get("axiom"):
            for b in a.meta["axiom"](a):
                ax.append(u.bool(b))
    e = _ENTRIES[i] = (ax, u.atoms, u.recips)
    return e


class Translator:
    def __init__(self):
        self.consts = {}
        self.axioms = []
        self.apps = {}
        self.exps = []

    def num(self, n, want_int=False):
        return self.use(znum(n, want_int and n.sort == "I"))

    def bool(self, b):
        return self.use(zbool(b))

    def use(self, part):
        for i in part[1]:
            if i not in self.consts:
                self.atom(i)
        for i in part[2]:
            if ("r", i) not in self.consts:
                v, r = zvar(i), z3.Real("r%d" % i)
                self.consts["r", i] = r
                self.axioms += [z3.Implies(v != 0, r * v == 1), z3.Implies(v > 0, r > 0),
                                z3.Implies(v < 0, r < 0)]
        return part[0]

    def atom(self, i):
        a = T.atom(i)
        v = self.consts[i] = zvar(i)
        e = entry(i)
        self.axioms.extend(e[0])
        self.use(e)
        ax = self.axioms
        if a.kind == "exp":
            x = self.num(a.args[0])
            for (x2, v2) in self.exps[:12]:
                ax.append((x < x2) == (v < v2))
                ax.append((x2 < x) == (v2 < v))
            self.exps.append((x, v))
        elif a.kind not in ("var", "inv", "ite", "sum"):
            name = a.name
            if a.meta and a.meta.get("incr"):
                for b, w in self.apps.get((name, 1), [])[:12]:
                    x, y = self.num(a.args[0]), self.num(b.args[0])
                    ax.append((x < y) == (v < w))
                    ax.append((y < x) == (w < v))
            # congruence
            lst = self.apps.setdefault((name, len(a.args)), [])
            if a.args and len(lst) <= 8:
                for b, w in list(lst):
                    try:
                        eqs = []
                        for x, y in zip(a.args, b.args):
                            if isinstance(x, T.Num) and isinstance(y, T.Num):
                                eqs.append(self.num(x) == self.num(y))
                            elif not T.argsame(x, y):
                                eqs = None
                                break
                        if eqs is not None:
                            ax.append(z3.Implies(z3.And(eqs), v == w))
                    except T.Unsupported:
                        pass
            lst.append((a, v))


def relevant(pc, goal_free):
    """Conjuncts connected to the goal through shared free variables."""
    todo = list(pc)
    cur = set(goal_free)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c in todo:
            f = c.free()
            if f & cur or not f:
                out.append(c)
                cur |= f
                changed = True
            else:
                rest.append(c)
        todo = rest
    return out


def _linear(b):
    """A condition with every product replaced by an unknown."""
    if b.op in ("lt", "eq"):
        x = z3.RealVal(0)
        for m, c in b.args[0].p.items():
            c = Fraction(c)
            cz = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            x = x + (cz * z3.Real("m%s" % "_".join("%d.%d" % f for f in m)) if m else cz)
        return x < 0 if b.op == "lt" else x == 0
    if b.op == "not":
        return z3.Not(_linear(b.args[0]))
    if b.op == "and":
        return z3.And([_linear(a) for a in b.args])
    return zbool(b)[0]


def linear(cs, neg):
    """Do the conditions contradict each other by linear arithmetic alone?"""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add([_linear(c) for c in cs] + [_linear(neg)])
    return s.check() == z3.unsat


def check(pc, goal, timeout=1000, model=False, cvc5=False):
    """Is pc |= goal?  Returns ('proved'|'refuted'|'unknown', info)."""
    tr = Translator()
    neg = T.neg(goal)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    cs = relevant(pc, neg.free()) if neg is not T.TRUE else list(pc)
    try:
        fs = [tr.bool(c) for c in cs]
        g = tr.bool(neg)
    except RecursionError:
        return "unknown", "recursion"
    ctx, sol = s.ctx.ref(), s.solver
    for f in fs + tr.axioms + [g]:
        z3.Z3_solver_assert(ctx, sol, f.as_ast())
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", str(e)
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "proved", "z3"
    if r == z3.sat:
        if model:
            return "refuted", (s.model(), tr)
        return "refuted", None
    if goal is not T.FALSE and linear(cs, neg):
        return "proved", "z3"
    if cvc5:
        t0 = time.time()
        r = run_cvc5(s.to_smt2(), timeout)
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t0
        if r == "unsat":
            return "proved", "cvc5"
        if r == "sat":
            return "refuted", None
    return "unknown", None


def int_value(info, n):
    """Value of an integer term in a counter-model, None if open."""
    model, tr = info
    if any(a not in tr.consts for a in n.atoms()) or \
            any(e < 0 for m in n.p for _, e in m) or \
            any(not isinstance(c, int) for c in n.p.values()):
        return None
    v = model.eval(znum(n, True)[0], model_completion=True)
    return v.as_long() if z3.is_int_value(v) else None


def truth(info, b):
    """Truth value of a condition in a counter-model, None if open."""
    model, tr = info
    z, atoms, recips = zbool(b)
    if recips or any(a not in tr.consts for a in atoms):
        return None
    v = model.eval(z, model_completion=True)
    return True if z3.is_true(v) else False if z3.is_false(v) else None


def run_cvc5(smt2, timeout):
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout), "-"],
            input="(set-logic ALL)\n" + smt2, capture_output=True, text=True,
            timeout=timeout / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"


def z3_to_float(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(15).as_fraction())
    return None


def model_inputs(info):
    """Values of input atoms in a z3 model: {name: value or {idx: value}}."""
    model, tr = info
    out = {}
    for k, c in tr.consts.items():
        if not isinstance(k, int):
            continue
        a = T.atom(k)
        try:
            v = z3_to_float(model.eval(c, model_completion=True))
        except z3.Z3Exception:
            v = None
        if v is None:
            continue
        if a.kind == "var":
            out[a.name] = v
        elif a.kind == "app" and a.meta and a.meta.get("input"):
            idx = []
            for x in a.args:
                if isinstance(x, T.Num):
                    try:
                        iv = z3_to_float(model.eval(tr.num(x), model_completion=True))
                        idx.append(int(iv))
                    except Exception:
                        idx = None
                        break
                else:
                    idx = None
                    break
            if idx is not None:
                out.setdefault(a.name, {})
                if isinstance(out[a.name], dict):
                    out[a.name][",".join(map(str, idx))] = v
    return out
