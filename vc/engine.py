"""Verification condition generation by symbolic execution of the real code.

The engine explores all paths of a contract check by re-execution, discharges
branch conditions and obligations, and handles loops with a symbolic number
of iterations through loop contracts (``Ghost``) or, for loops whose
iterations write disjoint cells, by summarising the loop as a parallel
assignment.
"""
import contextlib
import time
import weakref

from . import smt
from . import terms as T
from .symarray import (Arr, Content, Poison, PoisonRead, Storage, Cells,
                       all_idx, as_arr, ci, deq, fresh_idx, from_fn,
                       full_view, idx_ctx, idxkey, prod, scalar_value)
from .terms import (FALSE, TRUE, Num, SBool, Unsupported, as_bool, as_num,
                    conj, eq0, ite, le0, lt0, neg, same)


class Infeasible(Exception):
    pass


class Failed(Exception):
    """An obligation could not be discharged inside a loop contract."""


class StopPath(Exception):
    """End of a path (bounded exploration limit)."""


class LoopLimit(Exception):
    pass


class Token:
    """Identity of a set of assumptions."""
    count = 0

    def __init__(self):
        Token.count += 1
        self.serial = Token.count
        self.children = {}

    def child(self, keys):
        """The same assumptions and further ones."""
        t = self.children.get(keys)
        if t is None:
            t = self.children[keys] = Token()
        return t


class Obligation:
    __slots__ = ("label", "kind", "status", "backend", "time", "detail",
                 "inputs", "path")

    def __init__(self, label, kind, status, backend, t, detail=None,
                 inputs=None, path=None):
        self.label = label
        self.kind = kind
        self.status = status
        self.backend = backend
        self.time = t
        self.detail = detail
        self.inputs = inputs
        self.path = path

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Frame:
    """One exploration (global or local)."""

    def __init__(self, eng):
        self.eng = eng
        self.prefix = []
        self.taken = []
        self.pos = 0


class Poisoned:
    """Value of a variable that must not be read."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise PoisonRead(object.__getattribute__(self, "_n"))

    def __getattr__(self, k):
        if k.startswith("__array"):
            raise AttributeError(k)
        raise PoisonRead(object.__getattribute__(self, "_n"))

    def __repr__(self):
        return "<undefined>"

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __eq__ = __ne__ = __bool__ = __iter__ = __len__ = __getitem__ = _bad
    __setitem__ = __neg__ = __abs__ = __call__ = __float__ = __int__ = _bad
    __index__ = __pow__ = __rpow__ = __iadd__ = __isub__ = _bad
    __hash__ = None


# functions that satisfy more equations than the back end is told about
PARTIAL = {"sin", "cos", "tan", "acos", "asin", "atan", "atan2", "log", "tanh", "sinh", "cosh"}


class Engine:
    def __init__(self, mode="U", unroll=3, timeout=1500, deadline=None):
        self.mode = mode                 # U: unbounded, B: bounded
        self.unroll = unroll
        self.timeout = timeout
        self.deadline = deadline
        self.pc = []
        self._token = Token()
        self.frames = []
        self.storages = weakref.WeakSet()
        self.objects = []
        self.obligations = []
        self.ghosts = []
        self.write_log = None
        self.bool_cache = {}
        self.paths = 0
        self.max_paths = 400
        self.assumed_nonzero = set()
        self.div_seen = set()
        self.side_unproved = []
        self.notes = set()
        self.loops = []                  # descriptions of loop treatments
        self.assumed = set()
        self.quiet = 0                   # >0: failures raise, not recorded
        self.trial = 0
        self.unroll_hit = False
        self._lazy = 0
        self.fact_cache = {}
        self.models = {}
        self.defs = {}
        self.infeasible = 0
        self.reach = {}
        self.choice_log = []
        self.vc = None
        install(self)

    # ------------------------------------------------------------- context
    def token(self):
        return self._token

    @contextlib.contextmanager
    def assuming(self, *cs):
        n = len(self.pc)
        old = self._token
        added = [c for c in cs if c is not TRUE]
        self.pc.extend(added)
        if added:
            self._token = old.child(tuple(c.key() for c in added))
        try:
            yield
        finally:
            del self.pc[n:]
            self._token = old

    @contextlib.contextmanager
    def without(self, tid):
        """Forget what is assumed about one variable."""
        old, pc = self._token, self.pc
        self.pc = [c for c in pc if tid not in c.free()]
        if len(self.pc) != len(pc):
            self._token = Token()
        try:
            yield
        finally:
            self.pc = pc
            self._token = old

    def assume(self, c):
        c = as_bool(c)
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible()
        self.pc.extend(c.args if c.op == "and" else [c])
        self._token = Token()

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    # ------------------------------------------------------------ deciding
    def simplify(self, c):
        """TRUE/FALSE if the path condition decides c, else c."""
        c = as_bool(c)
        if c is TRUE or c is FALSE:
            return c
        key = (self._token.serial, c.key())
        r = self.bool_cache.get(key)
        if r is not None and r[0] is self._token:
            return r[1]
        self.check_deadline()
        k = c.key()
        nk = neg(c).key()
        res = None
        for p in self.pc:
            pk = p.key()
            if pk == k:
                res = TRUE
                break
            if pk == nk:
                res = FALSE
                break
        if res is None:
            pc = smt.relevant(self.pc, c.free())
            full = (frozenset(p.key() for p in pc), k)
            res = self.fact_cache.get(full)
            if res is None:
                pool = self.models.setdefault(full[0], [])
                seen = [(smt.truth(m, c), m) for m in pool]
                no = next((m for v, m in seen if v is False), None)
                yes = next((m for v, m in seen if v is True), None)
                if no is None:
                    st, no = self._counter(pc, c, pool)
                    res = TRUE if st == "proved" else None
                if res is None and yes is None:
                    st, yes = self._counter(pc, neg(c), pool)
                    res = FALSE if st == "proved" else None
                if res is None:
                    res = self.reduce(c, [m for m in (no, yes) if m])
                self.fact_cache[full] = res
        self.bool_cache[key] = (self._token, res)
        return res

    def _counter(self, pc, c, pool):
        st, m = smt.check(pc, c, timeout=min(400, self.timeout), model=True)
        if st == "refuted" and m:
            pool.append(m)
            del pool[:-6]
            return st, m
        return st, None

    def reduce(self, c, models=()):
        """Integer comparisons modulo a block size: for 0 <= r < w,
        w*q + r < 0 is q < 0 and w*q + r = 0 is q = 0 and r = 0."""
        if c.op == "and":
            return self._join(conj(*[self.simplify(x) for x in c.args]))
        if c.op == "not":
            return neg(self.reduce(c.args[0], models))
        if c.op not in ("lt", "eq") or c.args[0].sort != "I":
            return c
        x = c.args[0]
        ws = {a for m in x.p if len(m) > 1 or any(e > 1 for _, e in m) for a, e in m if e > 0}
        for a in sorted(ws):
            w = T.Num({((a, 1),): 1}, "I")
            q, r = T.split_multiple(x, w)
            if not q.p or not all(e > 0 for m in q.p for _, e in m):
                continue
            at = [(smt.int_value(m, r), smt.int_value(m, w)) for m in models]
            at = [(y, z) for y, z in at if y is not None and z is not None]
            for k in (0, 1, -1):
                rk = r + w * k
                if c.op == "eq" and k == 0:
                    small = conj(lt0(rk - w), lt0(-rk - w))
                else:
                    small = conj(T.le0(-rk), lt0(rk - w))
                if any(not 0 <= y + z * k < z and not (c.op == "eq" and k == 0 and abs(y) < z)
                       for y, z in at):
                    continue
                if smt.check(self.pc, small, timeout=min(400, self.timeout))[0] == "proved":
                    if c.op == "lt":
                        return self.simplify(lt0(q - k))
                    return self.simplify(conj(eq0(q - k), eq0(rk)))
        return c

    def _join(self, c):
        """Two opposite integer bounds are an equation."""
        if c.op != "and":
            return c
        ups, out = {}, list(c.args)
        for b in c.args:
            x = b.args[0] if b.op == "lt" else b.args[0].args[0] \
                if b.op == "not" and b.args[0].op == "lt" else None
            if x is None or x.sort != "I":
                continue
            y = x + 1 if b.op == "lt" else -x        # b is y <= 0
            other = ups.pop((-y).fp, None)
            if other is None:
                ups[y.fp] = b
            else:
                out = [z for z in out if z is not b and z is not other] + [eq0(y)]
        return conj(*out)

    def decide(self, c):
        c = self.simplify(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if not self.frames:
            raise Unsupported("branch on %s" % (c,))
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            b = f.prefix[f.pos]
        else:
            b = True
        f.pos += 1
        f.taken.append(b)
        self.assume(c if b else neg(c))
        return b

    def choose(self, n):
        """Demonic choice among n alternatives."""
        for k in range(n - 1):
            if self.fork():
                return k
        return n - 1

    def fork(self):
        f = self.frames[-1]
        b = f.prefix[f.pos] if f.pos < len(f.prefix) else True
        f.pos += 1
        f.taken.append(b)
        return b

    def explore(self, fn, max_paths=None):
        """Run fn for all decision sequences; yields (outcome, pc-suffix)."""
        results = []
        base = len(self.pc)
        base_tok = self._token
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            f = Frame(self)
            f.prefix = prefix
            self.frames.append(f)
            n += 1
            if n > (max_paths or self.max_paths):
                self.frames.pop()
                raise Unsupported("too many paths")
            try:
                try:
                    out = fn()
                    results.append((out, list(self.pc[base:])))
                except Infeasible:
                    self.infeasible += 1
            finally:
                self.frames.pop()
                del self.pc[base:]
                self._token = base_tok
            for k in range(len(prefix), len(f.taken)):
                if f.taken[k]:
                    stack.append(f.taken[:k] + [False])
        return results

    # --------------------------------------------------------- obligations
    def prove(self, label, goal, kind="post", hint=None, timeout=None):
        t0 = time.time()
        goal = as_bool(goal)
        st, be, detail, inputs = self._prove(goal, timeout)
        self.record(label, kind, st, be, time.time() - t0, detail, inputs)
        return st == "proved"

    def record(self, label, kind, st, be, t, detail=None, inputs=None):
        if self.quiet and st != "proved":
            raise Failed("%s: %s" % (label, detail))
        if st != "proved":
            inputs = dict(inputs or {})
            inputs.update(self.choice_log)
            if st in ("refuted", "differs") and self.unused_contract():
                st = "undecided"
        self.obligations.append(Obligation(
            label, kind, st, be, t, detail, inputs, self.path_text()
            if st != "proved" else None))

    def unused_contract(self):
        """A loop contract was given that no loop of this path refined."""
        return self.mode == "U" and self.vc is not None and any(
            not g.used for g in self.vc.offered)

    def path_text(self):
        return [repr(c)[:300] for c in self.pc[-12:]]

    def _prove(self, goal, timeout=None):
        if goal is TRUE:
            return "proved", "normalisation", None, None
        timeout = timeout or self.timeout
        if goal.op == "and":
            worst = ("proved", "normalisation", None, None)
            for g in goal.args:
                r = self._prove(g, timeout)
                if r[0] != "proved":
                    return r
                if r[1] != "normalisation":
                    worst = r
            return worst
        if goal.op == "eq":
            return self._prove_eq(goal.args[0], timeout)
        st, info = smt.check(self.pc, goal, timeout, model=True, cvc5=True)
        if st == "proved":
            return st, info, None, None
        r = self._split_and_prove(goal, timeout)
        if r is not None:
            return r
        inputs = self._model(info) if st == "refuted" else None
        if st == "refuted" and not self.exact(goal):
            st = "unknown"     # the model may not respect the functions involved
        return st, "z3", "cannot show %s" % (repr(goal)[:400]), inputs

    def _split_and_prove(self, goal, timeout, depth=0):
        """Case distinction on ite conditions occurring in a comparison."""
        return None

    def exact(self, b, opaque=False):
        """Does SMT see the full meaning of the atoms of a formula?  With
        `opaque`, functions that satisfy no equations are admitted too."""
        seen = set()

        def atom(a):
            if a.id in seen:
                return True
            seen.add(a.id)
            if a.kind == "sum" or any(isinstance(x, T.Lam) for x in a.args):
                return False
            if not opaque and a.kind == "app" and not (a.meta or {}).get("input"):
                return False
            if not opaque and a.kind == "exp":
                return False
            if a.kind == "app" and (a.name in PARTIAL or (a.meta or {}).get("axiom")):
                return False
            return all(arg(x) for x in a.args)

        def arg(x):
            if isinstance(x, Num):
                return all(atom(T.atom(a)) for m in x.p for a, _ in m)
            if isinstance(x, SBool):
                return all(arg(y) for y in x.args)
            return True
        return arg(b)

    def _model(self, info):
        try:
            return smt.model_inputs(info) if info else None
        except Exception:
            return None

    def _find_ite(self, n, seen=None):
        """A condition of a case distinction inside a number."""
        if seen is None:
            seen = set()
        for m in n.p:
            for a, _ in m:
                r = self._ite_in_atom(T.atom(a), seen)
                if r is not None:
                    return r
        return None

    def _ite_in_atom(self, a, seen):
        if a.id in seen:
            return None
        seen.add(a.id)
        if a.kind == "ite":
            c = a.args[0]
            r = self._ite_in_bool(c, seen)
            if r is not None:
                return r
            if not any(T.atom(v).name.startswith("$b") for v in c.free()):
                return c
        for x in a.args:
            if isinstance(x, T.Lam):
                x = x.body
            if isinstance(x, Num):
                r = self._find_ite(x, seen)
                if r is not None:
                    return r
            elif isinstance(x, SBool) and a.kind != "ite":
                r = self._ite_in_bool(x, seen)
                if r is not None:
                    return r
        return None

    def _has_ite(self, n, seen=None):
        seen = set() if seen is None else seen
        for m in n.p:
            for i, _ in m:
                if i in seen:
                    continue
                seen.add(i)
                a = T.atom(i)
                if a.kind == "ite":
                    return True
                for x in a.args:
                    x = x.body if isinstance(x, T.Lam) else x
                    if isinstance(x, Num) and self._has_ite(x, seen):
                        return True
        return False

    def _ite_in_bool(self, b, seen):
        for x in b.args:
            if isinstance(x, Num):
                r = self._find_ite(x, seen)
                if r is not None:
                    return r
            elif isinstance(x, SBool):
                r = self._ite_in_bool(x, seen)
                if r is not None:
                    return r
        return None

    def _prove_eq(self, d, timeout, depth=0):
        if T.is_zero(d):
            return "proved", "normalisation", None, None
        self.check_deadline()
        c = self._find_ite(d) if depth < 14 else None
        if c is not None:
            if c.op == "and":
                c = c.args[0]
            if c.op == "not":
                c = c.args[0]
            worst = ("proved", "case split", None, None)
            for lit in (c, neg(c)):
                if self.simplify(neg(lit)) is TRUE:
                    continue
                with self.assuming(lit):
                    r = self._prove_eq(self.resolve(d), timeout, depth + 1)
                if r[0] != "proved":
                    return r
                if r[1] not in ("normalisation", "case split"):
                    worst = r
            return worst
        d2 = self.rewrite_eqs(d)
        if d2 is not d and T.is_zero(d2):
            return "proved", "normalisation", None, None
        d3 = self.merge_sums(d2, timeout, depth)
        if d3 is not d2:
            return self._prove_eq(d3, timeout, depth + 1)
        st, info = smt.check(self.pc, eq0(d2), timeout, model=True, cvc5=True)
        if st == "proved":
            return st, info, None, None
        inputs = self._model(info) if st == "refuted" else None
        if inputs is None:
            inputs = self.pc_model()
        if not self.exact(eq0(d2), opaque=True):
            st = "unknown"
        elif st == "unknown" and d2.fp != 0 and abs(d2.val) > T.Decimal("1e-20"):
            st = "differs"     # not equal as functions of the atoms
        return st, "z3", "difference %s" % T.show(d2)[:600], inputs

    def merge_sums(self, d, timeout, depth):
        """Sums over the same ranges cancel if their terms do."""
        groups = {}
        for m, co in d.p.items():
            sums = [a for a, e in m if T.atom(a).kind == "sum" and e == 1]
            if len(sums) != 1 or any(T.atom(a).kind == "sum" for a, e in m if e != 1):
                continue
            a = T.atom(sums[0])
            ns = a.args[1:]
            order = sorted(range(len(ns)), key=lambda i: repr(ns[i].fp))
            rest = tuple((b, e) for b, e in m if b != a.id)
            k = (tuple(ns[i].fp for i in order), rest)
            groups.setdefault(k, []).append((m, co, a, order))
        out = d
        for (_, rest), parts in groups.items():
            if len(parts) < 2 or depth > 12:
                continue
            a, order = parts[0][2:]
            vs = [T.fresh("l") for _ in order]
            cs = []
            for v, i in zip(vs, order):
                cs += [neg(lt0(v)), lt0(v - a.args[1:][i])]
            total = T.ZERO
            for m, co, b, o in parts:
                lam = b.args[0]
                total = total + T.subst(lam.body, {lam.vars[i]: v for i, v in zip(o, vs)}) * co
            with self.assuming(*cs):
                if self._prove_eq(self.resolve(total), timeout, depth + 1)[0] != "proved":
                    continue
            out = T.Num({m: c for m, c in out.p.items() if not any(m == q[0] for q in parts)},
                        d.sort)
        return out

    def rewrite_eqs(self, d):
        """Use equations x = e of the path condition as rewrite rules."""
        for _ in range(3):
            changed = False
            for c in self.pc:
                if c.op != "eq":
                    continue
                n = c.args[0]
                for m, co in n.p.items():
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        at = T.atom(a)
                        if at.kind != "var" and not (at.kind == "app" and (at.meta or {}).get("input")):
                            continue
                        rest = Num({k: v for k, v in n.p.items() if k != m}, n.sort)
                        if a in rest.atoms() or any(
                                a == x for mm in rest.p for x, _ in mm):
                            continue
                        if at.kind == "var" and a in rest.free:
                            continue
                        e = rest * T.Fraction(-1) / co
                        if a in d.atoms() or (at.kind == "var" and a in d.free):
                            d = T.subst(d, {a: e})
                            changed = True
                        break
            if not changed:
                break
        return d

    def lift(self, n, depth=4):
        """Case distinctions moved to the outside, in a canonical order."""
        n = self.resolve(n)
        conds = {}

        def walk(x, seen):
            for m in x.p:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = T.atom(a)
                    if at.kind == "ite" and not any(
                            T.atom(v).name.startswith("$b") for v in at.args[0].free()):
                        conds[repr(at.args[0].key())] = at.args[0]
                    for y in at.args:
                        y = y.body if isinstance(y, T.Lam) else y
                        if isinstance(y, Num):
                            walk(y, seen)
        walk(n, set())
        if not conds or not depth:
            return n
        c = conds[min(conds)]
        out = []
        for lit in (c, neg(c)):
            if self.simplify(neg(lit)) is TRUE:
                out.append(None)
                continue
            with self.assuming(*(lit.args if lit.op == "and" else (lit,))):
                out.append(self.lift(self.rewrite_eqs(n), depth - 1))
        if out[0] is None or out[1] is None:
            return out[0] if out[1] is None else out[1]
        return ite(c, out[0], out[1])

    def resolve(self, n):
        """Simplify case distinctions under the current path condition."""
        return self._resolve(n, {})

    def _resolve(self, n, memo):
        def opened(lam, ns):
            """Body with fresh indices in range, simplified."""
            vs = [T.fresh("l") for _ in lam.vars]
            body = T.subst(lam.body, {a: v for a, v in zip(lam.vars, vs)})
            cs = []
            for v, k in zip(vs, ns):
                cs += [neg(lt0(v)), lt0(v - k)]
            with self.assuming(*cs):
                new = self._resolve(body, {})
            # the substitution may have decided conditions, too
            back = {T.single_atom(v).id: Num({((a, 1),): 1}, "I") for a, v in zip(lam.vars, vs)}
            return vs, new, new is not body or T.subst(new, back).fp != lam.body.fp

        def num(x):
            out = T.ZERO
            touched = False
            for m, c in x.p.items():
                t = Num({(): c}, x.sort)
                for a, e in m:
                    v = atomv(T.atom(a))
                    if v is None:
                        t = Num(T.pmul(t.p, {((a, e),): 1}), x.sort)
                    else:
                        touched = True
                        t = Num(T.pmul(t.p, T.npow(v, e).p), x.sort)
                out = Num(T.padd(out.p, t.p), x.sort)
            return out if touched else x

        def boolean(b):
            if b.op in ("lt", "eq"):
                y = num(b.args[0])
                if y is b.args[0]:
                    return b
                return lt0(y) if b.op == "lt" else eq0(y)
            if b.op == "not":
                y = boolean(b.args[0])
                return b if y is b.args[0] else neg(y)
            if b.op == "and":
                ys = [boolean(x) for x in b.args]
                return conj(*ys)
            return b

        def atomv(a):
            if a.id in memo:
                return memo[a.id]
            r = None
            if a.kind == "ite":
                c = self.simplify(boolean(a.args[0]))
                if c is TRUE:
                    r = num(a.args[1])
                elif c is FALSE:
                    r = num(a.args[2])
                else:
                    x, y = num(a.args[1]), num(a.args[2])
                    if x is not a.args[1] or y is not a.args[2] or c is not a.args[0]:
                        r = ite(c, x, y)
            elif a.kind == "sum":
                if self._has_ite(a.args[0].body):
                    vs, new, ch = opened(a.args[0], a.args[1:])
                    if ch:
                        r = new
                        for v, k in zip(vs, a.args[1:]):
                            r = T.sum_build(num(k), v, r)
            elif a.args:
                args = []
                ch = False
                for x in a.args:
                    if isinstance(x, Num):
                        y = num(x)
                        ch = ch or y is not x
                        args.append(y)
                    elif isinstance(x, T.Lam) and isinstance(x.body, Num) \
                            and len(x.shape) == len(x.vars) and self._has_ite(x.body):
                        vs, new, c2 = opened(x, x.shape)
                        ch = ch or c2
                        args.append(T.close_lam(vs, new, x.shape) if c2 else x)
                    else:
                        args.append(x)
                if ch:
                    r = T.rebuild(a, tuple(args))
            memo[a.id] = r
            return r
        return num(n)

    def pc_model(self):
        try:
            st, info = smt.check(self.pc, FALSE, 800, model=True)
            if st == "refuted":
                return self._model(info)
        except Exception:
            pass
        return None

    def eq(self, label, a, b, kind="post"):
        """Obligation: values (scalars, arrays, tuples) are equal."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.record(label, kind, "refuted", "engine", 0.0,
                            "length %d != %d" % (len(a), len(b)), self.pc_model())
                return False
            return all([self.eq("%s[%d]" % (label, i), x, y, kind)
                        for i, (x, y) in enumerate(zip(a, b))])
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = as_arr(a), as_arr(b)
            sa = a.shape if isinstance(a, Arr) else ()
            sb = b.shape if isinstance(b, Arr) else ()
            if len(sa) != len(sb):
                self.record(label, kind, "refuted", "engine", 0.0,
                            "shape %s != %s" % (sa, sb), self.pc_model())
                return False
            for x, y in zip(sa, sb):
                if not deq(x, y):
                    if self.simplify(eq0(as_num(x) - as_num(y))) is not TRUE:
                        self.record(label, kind, "refuted", "engine", 0.0,
                                    "shape %s != %s" % (sa, sb), self.pc_model())
                        return False
            ok = True
            for idx, cs, txt in self.generic_indices(sa):
                with self.assuming(*cs):
                    ok = self._eq1(label + txt, a.get(idx), b.get(idx), kind) and ok
            return ok
        return self._eq1(label, a, b, kind)

    def generic_indices(self, shape, limit=64):
        """Index tuples covering all cells: enumerated for concrete axes,
        one generic index for symbolic ones."""
        dims = []
        n = 1
        for d in shape:
            if isinstance(d, int) and n * d <= limit:
                dims.append(list(range(d)))
                n *= d
            elif not isinstance(d, int) and self.simplify(eq0(as_num(d) - 1)) is TRUE:
                dims.append([0])
            else:
                dims.append(None)

        def rec(k):
            if k == len(shape):
                yield (), [], ""
                return
            if dims[k] is not None:
                for i in dims[k]:
                    for r, cs, t in rec(k + 1):
                        yield (i,) + r, cs, "[%d]" % i + t
            else:
                v = T.fresh("i")
                cs0 = [le0(-v), lt0(v - as_num(shape[k]))]
                for r, cs, t in rec(k + 1):
                    yield (v,) + r, cs0 + cs, "[i]" + t
        return rec(0)

    def _eq1(self, label, a, b, kind):
        if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
            ok = a is b or a == b
            self.record(label, kind, "proved" if ok else "refuted", "engine",
                        0.0, None if ok else "%r is not %r" % (a, b),
                        None if ok else self.pc_model())
            return ok
        x, y = scalar_value(a), scalar_value(b)
        if x is None or y is None:
            ok = a is b
            self.record(label, kind, "proved" if ok else "refuted", "engine",
                        0.0, None if ok else "%r is not %r" % (a, b),
                        None if ok else self.pc_model())
            return ok
        if isinstance(x, SBool) and isinstance(y, SBool):
            return self.prove(label, (x == y), kind)
        x, y = as_num(x), as_num(y)
        t0 = time.time()
        st, be, detail, inputs = self._prove_eq(x - y, self.timeout)
        self.record(label, kind, st, be, time.time() - t0, detail, inputs)
        return st == "proved"

    def cover(self, label):
        """The path condition must be satisfiable at least once per label."""
        if self.reach.get(label) == "reached":
            return
        st, _ = smt.check(self.pc, FALSE, self.timeout)
        self.reach[label] = {"refuted": "reached", "proved": "unreachable"}.get(st, "unknown")

    # --------------------------------------------------------------- hooks
    def nonsingular(self, d):
        """Determinant of a matrix that is inverted (assumed not zero)."""
        self.assumed_nonzero.update((d.fp, T.root_of(d).fp))

    def division(self, d):
        if d.const() is not None or d.fp in self.assumed_nonzero:
            return
        if T._strictly_pos(d) or T._strictly_pos(-d):
            return
        k = (self._token.serial, d.fp)
        if k in self.div_seen:
            return
        self.div_seen.add(k)
        if self.trial:
            return
        t0 = time.time()
        if self._nonzero(T.root_of(d)):
            self.obligations.append(Obligation(
                "divisor is not zero", "division", "proved", "z3",
                time.time() - t0))
        else:
            self.side_unproved.append("divisor %s not shown to be non-zero" % T.show(d)[:200])

    def _nonzero(self, d, depth=0):
        if T._strictly_pos(d) or T._strictly_pos(-d):
            return True
        if not d.free:
            v = T.enclose(d)
            if v is not None and 0 not in v:
                return True
        if self.simplify(neg(eq0(d))) is TRUE:
            return True
        c = self._find_ite(d) if depth < 4 else None
        if c is None:
            return False
        if c.op == "and":
            c = c.args[0]
        for lit in (c, neg(c)):
            if self.simplify(neg(lit)) is TRUE:
                continue
            with self.assuming(lit):
                if not self._nonzero(self.resolve(d), depth + 1):
                    return False
        return True

    def nonneg(self, x, what):
        if T.is_nonneg_syntactic(x):
            return
        k = (what, self._token.serial, x.fp)
        if k in self.div_seen or self.trial:
            return
        self.div_seen.add(k)
        t0 = time.time()
        if self._domain(x, what == "log"):
            self.obligations.append(Obligation(
                "argument of %s in domain" % what, "domain", "proved", "z3",
                time.time() - t0))
        else:
            self.side_unproved.append("argument of %s not shown to be in its domain: %s" % (
                what, T.show(x)[:200]))

    def _domain(self, x, strict, depth=0):
        if T.is_nonneg_syntactic(x) and not strict:
            return True
        c = self._find_ite(x) if depth < 5 else None
        if c is None:
            return self.simplify(lt0(-x) if strict else le0(-x)) is TRUE
        if c.op == "and":
            c = c.args[0]
        for lit in (c, neg(c)):
            if self.simplify(neg(lit)) is TRUE:
                continue
            with self.assuming(lit):
                if not self._domain(self.resolve(x), strict, depth + 1):
                    return False
        return True

    def bounds(self, c, what):
        if c is TRUE:
            return
        r = self.simplify(c)
        if r is TRUE:
            if not self.trial:
                self.obligations.append(Obligation(
                    "index in bounds", "bounds", "proved", "z3", 0.0))
            return
        if r is FALSE:
            raise IndexError("index out of bounds")
        if bool(r):
            return
        raise IndexError("index out of bounds")

    def forall(self, shape, fn):
        idx = fresh_idx(shape, "q")
        with self.assuming(*idx_ctx(idx, shape)):
            c = self.simplify(fn(idx))
        if c is TRUE:
            return TRUE
        raise Unsupported("undecided universally quantified condition")

    def extremum(self, shape, g, which):
        idx = fresh_idx(shape, "m")
        with self.assuming(*idx_ctx(idx, shape)):
            body = g(idx)
            # attained at an end of a monotonic sequence
            ax = [k for k, d in enumerate(shape) if isinstance(idx[k], Num)]
            if len(ax) == 1 and isinstance(body, Num):
                n = shape[ax[0]]
                for end in (ci(as_num(n) - 1), 0):
                    at = g(tuple(end if k == ax[0] else i for k, i in enumerate(idx)))
                    d = body - at if which == "max" else at - body
                    if self.simplify(T.le0(d)) is TRUE:
                        return at
        lam = T.close_lam([i for i in idx if isinstance(i, Num)], body, shape)
        return T.mk_app(which, (lam,), "R")

    def array1(self, n):
        return from_fn((1,), lambda i: n)

    def lazy(self):
        return self._lazy > 0

    def new_storage(self, st):
        self.storages.add(st)

    def log_write(self, st, inv, valfn, desc):
        if self.write_log is not None:
            self.write_log.append((st, inv, valfn, desc))

    def concretize(self, n):
        c = as_num(self.resolve(n)).const()
        if c is not None:
            return c
        # unique value implied by the path condition?
        st, info = smt.check(self.pc, FALSE, 500, model=True)
        if st == "refuted":
            model, tr = info
            try:
                import z3
                v = model.eval(smt.Translator.num(tr, n, True), model_completion=True)
                k = v.as_long()
                if self.simplify(eq0(n - k)) is TRUE:
                    return k
            except Exception:
                pass
        raise Unsupported("symbolic value %s used as concrete integer" % T.show(n))

    def dtype(self, s):
        return float


def install(eng):
    h = T.HOOKS
    for name in ("division", "decide", "concretize", "array1", "dtype",
                 "nonneg", "nonsingular", "lift", "simplify", "assuming", "token", "lazy",
                 "new_storage", "log_write", "forall", "extremum", "bounds"):
        setattr(h, name, getattr(eng, name))
