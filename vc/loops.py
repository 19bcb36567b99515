"""Loop rules: loop contracts (ghost state), parallel assignment, unrolling.

``Ghost`` is a loop contract.  It describes the abstract state of a loop, its
initial value, the guard and the effect of one iteration as written in the
specification.  The rule shows that the real loop refines it: the real state
is a function of the ghost state at entry, the real guard is equivalent to the
ghost guard, one execution of the real body from an arbitrary state related to
a ghost state gives the state related to the next ghost state, and the measure
decreases.  After the loop the real state is the one related to the final
ghost state.
"""
import inspect
import itertools
import time
import weakref

from . import terms as T
from .engine import (Engine, Failed, Infeasible, Obligation, Poisoned,
                     StopPath, Token)
from .loader import SymIter, is_sym_iter, to_sym_iter
from .symarray import (Arr, Cells, Content, Poison, PoisonRead, Storage,
                       SymSeq, all_idx, as_arr, ci, deq, eqc, fresh_idx,
                       from_fn, full_view, idx_ctx, inrange, num_of, prod,
                       scalar_value)
from .terms import (FALSE, TRUE, Num, SBool, Unsupported, as_bool, as_num,
                    conj, eq0, ite, le0, lt0, neg)


class SList(list):
    """List with an optional tail of symbolic length."""
    segs = ()

    def sym_len(self):
        n = list.__len__(self)
        for k, _ in self.segs:
            n = ci(as_num(n) + as_num(k))
        return n

    def _mut(self):
        VC.current.list_mutated(self)

    def append(self, x):
        self._mut()
        if self.segs:
            s, f = self.segs[-1]
            raise Unsupported("append after symbolic loop")
        list.append(self, x)

    def extend(self, xs):
        self._mut()
        for x in xs:
            list.append(self, x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        self._mut()
        list.insert(self, i, x)

    def pop(self, *a):
        self._mut()
        return list.pop(self, *a)

    def __setitem__(self, k, v):
        self._mut()
        list.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._mut()
        list.__delitem__(self, k)

    def __getitem__(self, k):
        if not self.segs:
            if isinstance(k, Num):
                k = ci(k)
            r = list.__getitem__(self, k)
            return SList(r) if isinstance(k, slice) else r
        if isinstance(k, slice):
            raise Unsupported("slice of symbolic list")
        n0 = list.__len__(self)
        k = ci(k)
        if isinstance(k, int) and 0 <= k < n0:
            return list.__getitem__(self, k)
        if isinstance(k, int) and k < 0:
            k = ci(as_num(self.sym_len()) + k)
        if len(self.segs) == 1:
            if isinstance(k, int) or T.HOOKS.simplify(le0(as_num(n0) - as_num(k))) is TRUE:
                return self.segs[0][1](ci(as_num(k) - n0))
        raise Unsupported("index into symbolic list")

    def __iter__(self):
        if self.segs:
            raise Unsupported("iteration over symbolic list")
        return list.__iter__(self)

    __hash__ = object.__hash__


def _row(e):
    return as_arr(e) if isinstance(e, (tuple, list)) else e


def slist_to_arr(x):
    """numpy.array of a list with symbolic tail."""
    n = x.sym_len()
    n0 = list.__len__(x)
    tau = T.fresh("e")
    with T.HOOKS.assuming(le0(as_num(n0) - tau), lt0(tau - as_num(n))):
        e = _row(x.segs[0][1](ci(tau - n0)))
    shape = e.shape if isinstance(e, Arr) else ()
    if len(x.segs) != 1:
        raise Unsupported("list with several symbolic parts")

    def fn(idx):
        i = idx[0]

        def pick(j):
            v = _row(list.__getitem__(x, j))
            return v.get(idx[1:]) if isinstance(v, Arr) else as_num(v)
        tail = None
        if isinstance(i, int) and i < n0:
            return pick(i)
        v = _row(x.segs[0][1](ci(as_num(i) - n0)))
        r = v.get(idx[1:]) if isinstance(v, Arr) else as_num(v)
        if not isinstance(i, int):
            for j in range(n0 - 1, -1, -1):
                c = eqc(i, j)
                if c is not FALSE:
                    r = ite(c, pick(j), r)
        return r
    return from_fn((n,) + tuple(shape), fn)


class Ghost:
    """Loop contract; see module documentation.

    init     dict name -> Num | Arr
    guard    state -> SBool
    step     state -> dict of the next state
    quats    names of components that are unit quaternions
    inv      state -> list of SBool (invariants besides the relation)
    measure  state -> Num, decreases by at least `delta` (> 0) or the guard
             becomes false
    const    names of components that never change
    """
    count = 0

    def __init__(self, name, init, guard, step, quats=(), inv=None,
                 measure=None, delta=None, n=None, const=()):
        Ghost.count += 1
        self.uid = Ghost.count
        self.name = name
        self.init = {k: (v if isinstance(v, Arr) else as_num(v)) for k, v in init.items()}
        self.init_snap = {}
        for k, v in self.init.items():
            if isinstance(v, Arr):
                g = v.snap()
                self.init[k] = from_fn(v.shape, g)
        self.guard = guard
        self.step = step
        self.quats = set(quats)
        self.const = set(const)
        self.inv = inv or (lambda s: [])
        self.measure = measure
        self.delta = delta
        self.used = 0
        self._fin = None
        self.hist = {}

    def state(self, tag):
        """Arbitrary state with fresh symbols named after tag."""
        s = {}
        for k, v in self.init.items():
            nm = "%s.%d.%s.%s" % (self.name, self.uid, k, tag)
            if k in self.const:
                s[k] = v
            elif isinstance(v, Arr):
                if k in self.quats:
                    from .ptshim import unit4
                    from .symarray import from_list
                    s[k] = from_list(unit4(nm, ()))
                else:
                    s[k] = from_fn(v.shape, lambda i, nm=nm: T.mk_app(
                        nm, tuple(as_num(x) for x in i)))
            else:
                s[k] = T.var(nm, v.sort)
        return s

    @property
    def final(self):
        if self._fin is None:
            self._fin = self.state("FIN")
        return self._fin


class SeqGhost(Ghost):
    """Contract of a loop that records what it computes.

    The k-th state is a function of k defined by `init` and `step`
    (state, k -> state of k + 1); the loop does `n` iterations.  Components in
    `closed` have the given value as a function of k (proved by induction).
    With `until` (state -> condition) the loop is left after the first
    iteration whose state meets the condition; `count` is the number of
    iterations then."""

    def __init__(self, name, init, step, n, quats=(), closed=None, until=None):
        Ghost.__init__(self, name, init, None, step)
        self.quats = dict(quats)         # component -> offsets of unit quaternions
        self.n = as_num(n)
        self.closed = closed or {}
        self.until = until
        self.count = self.n
        self.active = False

    def raw(self, k):
        """State k, as a function of k."""
        k = as_num(k)
        s = {}
        for c, v in self.init.items():
            nm = "%s.%d.%s" % (self.name, self.uid, c)
            if c in self.closed:
                x = self.closed[c](k)
                s[c] = as_arr(x) if isinstance(v, Arr) else as_num(x)
            elif isinstance(v, Arr):
                if c in self.quats:
                    from .ptshim import unit4
                    from .symarray import from_list
                    cells = [T.mk_app(nm, (k, as_num(i))) for i in range(v.shape[0])]
                    for off in self.quats[c]:
                        cells[off:off + 4] = unit4("%s.%d" % (nm, off), (k,))
                    s[c] = from_list(cells)
                else:
                    s[c] = from_fn(v.shape, lambda i, nm=nm: T.mk_app(
                        nm, (k,) + tuple(as_num(x) for x in i)))
            else:
                s[c] = T.mk_app(nm, (k,))
        return s

    def at(self, k):
        k = as_num(k)
        if bool(as_bool(eq0(k))):
            return self.init
        return self.raw(k)

    @property
    def final(self):
        return self.at(self.n)


# ---------------------------------------------------------------- snapshots
class Snap:
    """Program state that existed before a loop."""

    def __init__(self, vc, get):
        self.vc = vc
        eng = vc.eng
        self.locals = dict(get())
        self.storages = {id(s): (s, s.content, s.lazy) for s in list(eng.storages)}
        self.attrs = {}
        for o in vc.live_objects():
            self.attrs[id(o)] = (o, dict(o.__dict__))
        self.lists = {}
        for l in vc.live_lists():
            self.lists[id(l)] = (l, list.__getitem__(l, slice(None)), l.segs)

    def restore(self, set_):
        for s, c, z in self.storages.values():
            s.content = c
            s.lazy = z
        for o, d in self.attrs.values():
            o.__dict__.clear()
            o.__dict__.update(d)
        for l, c, g in self.lists.values():
            list.__setitem__(l, slice(None), c)
            l.segs = g
        set_(dict(self.locals))


class AttributesAssigned(Failed):
    def __init__(self, text, attrs):
        Failed.__init__(self, text)
        self.attrs = attrs


def with_attributes(get, set_, attrs):
    """Treat scalar attributes that a loop assigns like local variables."""
    names = {"%d.%s" % (id(o), k): (o, k) for o, k in attrs}

    def get2():
        d = dict(get())
        d.update((n, o.__dict__[k]) for n, (o, k) in names.items())
        return d

    def set2(d):
        d = dict(d)
        for n, (o, k) in names.items():
            if n in d:
                o.__dict__[k] = d.pop(n)
        set_(d)
    return get2, set2


class LogContent(Content):
    """Content that records the indices read."""
    __slots__ = ("inner", "log", "sid")

    def __init__(self, inner, log, sid):
        self.inner = inner
        self.log = log
        self.sid = sid

    def get(self, idx):
        self.log.append((self.sid, idx))
        return self.inner.get(idx)


class VC:
    """Run-time support object of the instrumented modules."""
    current = None

    def __init__(self, eng):
        self.eng = eng
        eng.vc = self
        VC.current = self
        self.objects = []
        self.lists = []
        self.offered = []
        self.attempts = []
        self.loop_log = []
        self.list_log = None
        self.entered = {}

    def enter(self, name):
        self.entered[name] = self.entered.get(name, 0) + 1

    # ------------------------------------------------------------ tracking
    def track_class(self, cls):
        vc = self
        try:
            old = cls.__init__
        except AttributeError:
            return cls
        if "__init__" in cls.__dict__:
            def __init__(self, *a, **k):
                vc.objects.append(weakref.ref(self))
                return old(self, *a, **k)
            __init__.__wrapped__ = old
            __init__.__signature__ = inspect.signature(old)
            cls.__init__ = __init__
        return cls

    def live_objects(self):
        out = {}
        keep = []
        for r in self.objects:
            o = r()
            if o is not None:
                if id(o) not in out:
                    out[id(o)] = o
                    keep.append(r)
        self.objects = keep
        return list(out.values())

    def track(self, o):
        self.objects.append(weakref.ref(o))

    def lst(self, x):
        r = SList(x)
        self.lists.append(weakref.ref(r))
        return r

    def live_lists(self):
        out = {}
        keep = []
        for r in self.lists:
            o = r()
            if o is not None and id(o) not in out:
                out[id(o)] = o
                keep.append(r)
        self.lists = keep
        return list(out.values())

    def list_mutated(self, l):
        if self.list_log is not None:
            self.list_log.append(l)

    # --------------------------------------------------------------- loops
    def listcomp(self, fn, it, where):
        """Comprehension: the loop that appends its elements."""
        r = self.lst([])

        def body(x):
            r.append(fn(x))
            return ("next",)
        self.for_loop(it, body, dict, lambda d: None, where)
        return r

    def for_loop(self, it, body, get, set_, where):
        if not is_sym_iter(it):
            for x in it:
                r = body(x)
                if r[0] == "next":
                    continue
                return r
            return ("done",)
        s = to_sym_iter(it)
        n = ci(as_num(s.n))
        if isinstance(n, int):
            for k in range(n):
                r = body(s.item(k))
                if r[0] != "next":
                    return r
            return ("done",)
        errors = []
        if self.eng.mode == "U":
            r = self.sequences(lambda g: lambda k: body(s.item(k)), None, s.n, get, set_,
                               where, errors)
            if r is not None:
                return r
            attrs = []
            for attempt in range(2):
                get2, set2 = with_attributes(get, set_, attrs) if attrs else (get, set_)
                snap = Snap(self, get)
                n_ob, n_side = len(self.eng.obligations), len(self.eng.side_unproved)
                try:
                    return self.parallel(s, body, get2, set2, where)
                except AttributesAssigned as e:
                    errors.append(str(e))
                    if attempt or e.attrs is None:
                        break
                    attrs = e.attrs
                    snap.restore(set_)
                    del self.eng.obligations[n_ob:]
                    del self.eng.side_unproved[n_side:]
                    continue
                except (PoisonRead, Failed) as e:
                    errors.append(str(e))
                except Unsupported as e:
                    if "time budget" in str(e):
                        raise
                    errors.append(str(e))
                break
        raise Unsupported("no loop contract for %s (%s)" % (where, "; ".join(errors)[:600]))

    def while_loop(self, cond, body, get, set_, where):
        eng = self.eng
        errors = []
        if eng.mode == "U" and self.offered:
            r = self.sequences(lambda g: lambda k: body(), cond, None, get, set_, where, errors)
            if r is not None:
                return r
            snap = Snap(self, get)
            # contracts all of whose components occur in the code come first
            for g, strict in [(g, True) for g in self.offered] + [(g, False) for g in self.offered]:
                if isinstance(g, SeqGhost):
                    continue
                n_ob = len(eng.obligations)
                try:
                    return self.while_ghost(g, cond, body, get, set_, where, snap, strict)
                except (PoisonRead, Failed) as e:
                    errors.append("%s: %s" % (g.name, e))
                except Unsupported as e:
                    if "time budget" in str(e):
                        raise
                    errors.append("%s: %s" % (g.name, e))
                del eng.obligations[n_ob:]
                snap.restore(set_)
        k = 0
        limit = eng.unroll if eng.mode == "B" else 40
        while True:
            c = cond()
            if isinstance(c, SBool):
                c2 = eng.simplify(c)
                if c2 is not TRUE and c2 is not FALSE and eng.mode == "U":
                    raise Unsupported("no loop contract for %s (%s)" % (
                        where, "; ".join(errors)[:900]))
            if not c:
                break
            if k >= limit:
                if eng.mode == "B":
                    eng.unroll_hit = True
                    raise StopPath()
                raise Unsupported("loop %s does not end within %d iterations" % (where, limit))
            k += 1
            r = body()
            if r[0] != "next":
                return r
        return ("done",)

    # ------------------------------------------------------- parallel rule
    def parallel(self, s, body, get, set_, where):
        eng = self.eng
        t0 = time.time()
        n = as_num(s.n)
        snap = Snap(self, get)
        tau = T.fresh("it")
        tid = T.single_atom(tau).id
        acc = {}                       # scalar accumulators: name -> var
        poisoned = {}
        mode = {}
        for k, v in snap.locals.items():
            mode[k] = "poison"
        ctx = [le0(-tau), lt0(tau - n)]
        carry = {}                     # loop-carried locals: name -> value at entry
        hyp = {}                       # storage -> content at entry of iteration tau
        stable = False
        n_ob, n_side = len(eng.obligations), len(eng.side_unproved)
        for rnd in range(6):
            # only the obligations of the last round count
            del eng.obligations[n_ob:]
            del eng.side_unproved[n_side:]
            paths = self._par_paths(s, body, get, set_, snap, tau, mode, acc, carry, hyp)
            for k, m in mode.items():
                if m == "same" and any(out["locals"].get(k) is not snap.locals[k]
                                       for out, pcs in paths):
                    raise Failed("array %s is replaced in %s" % (k, where))
            conds = [conj(*pcs) for out, pcs in paths]
            written = {}
            for out, pcs in paths:
                for sid, inv, valfn, desc in out["writes"]:
                    written.setdefault(sid, []).append(desc)
            solvers = {}
            for sid, descs in written.items():
                solvers[sid] = self._solve(snap.storages[sid][0], descs, tau, tid)
            if self._acc_to_carry(mode, acc, carry, paths, snap, where):
                continue
            conflict = set()
            for sid in written:
                if sid in hyp or self._depends(sid, written[sid], paths, ctx, tau, tid):
                    conflict.add(sid)
            if not conflict and not carry:
                stable = True
                break
            # hypothesis: what earlier iterations wrote, as computed this round
            new_hyp = {}
            for sid in conflict:
                st, old, _ = snap.storages[sid]
                new_hyp[sid] = self._closed(st, old, solvers[sid], paths, conds, ctx,
                                            tau, tid, tau)
            new_carry = {}
            for k in carry:
                v = None
                for (out, pcs), cond in zip(paths, conds):
                    x = scalar_value(out["locals"].get(k))
                    if x is None:
                        raise Failed("variable %s carried in %s" % (k, where))
                    v = as_num(x) if v is None else ite(cond, as_num(x), v)
                c0 = as_num(snap.locals[k])
                # value at the start of iteration tau: computed by the one before
                new_carry[k] = ite(eq0(tau), c0, T.subst(v, {tid: tau - 1}))
            same = set(new_hyp) == set(hyp)
            if same:
                with eng.assuming(*ctx):
                    for k in carry:
                        if carry[k] is None or not T.is_zero(eng.resolve(new_carry[k] - carry[k])):
                            same = False
                    for sid in hyp if same else ():
                        st = snap.storages[sid][0]
                        for idx, cs, _ in eng.generic_indices(st.shape):
                            with eng.assuming(*cs):
                                d = new_hyp[sid].get(idx) - hyp[sid].get(idx)
                                if not T.is_zero(d) and not T.is_zero(eng.resolve(d)):
                                    same = False
                                    break
            if same:
                stable = True
                break
            hyp, carry = new_hyp, new_carry
        if not stable:
            raise Failed("iteration of %s may depend on earlier iterations" % where)
        # attributes and lists
        assigned = {}
        for out, pcs in paths:
            for o, k in out["attrs"]:
                if "%d.%s" % (id(o), k) not in snap.locals:
                    assigned[id(o), k] = (o, k)
        if assigned:
            known = all(k in snap.attrs[i][1] and scalar_value(snap.attrs[i][1][k]) is not None
                        for i, k in assigned)
            raise AttributesAssigned("attributes assigned in %s" % where,
                                     list(assigned.values()) if known else None)
        appended = None
        for out, pcs in paths:
            a = {lid: x for lid, x in out["lists"].items()}
            if appended is None:
                appended = set(a)
            elif appended != set(a):
                raise Failed("lists changed on some paths of %s only" % where)
        # new contents
        for sid in solvers:
            st, old, _ = snap.storages[sid]
            st.content = self._closed(st, old, solvers[sid], paths, conds, ctx, tau, tid, n)
            st.materialize()
            eng.log_write(st, None, None, None) if eng.write_log is not None else None
        for lid in appended or ():
            l, c0, seg0 = snap.lists[lid]
            items = [out["lists"][lid] for out, pcs in paths]
            if any(len(i) != 1 for i in items) or seg0:
                raise Failed("list changed in %s in an unsupported way" % where)

            def item(i, items=items):
                r = None
                iv = as_num(i)
                for cond, it in zip(conds, items):
                    cc = eng.simplify(T.subst(cond, {tid: iv}))
                    if cc is FALSE:
                        continue
                    return subst_value(it[0], tid, iv)
                raise Unsupported("symbolic list element")
            if len(paths) > 1:
                raise Failed("list appended on several paths of %s" % where)
            l.segs = ((s.n, item),)
        # locals after the loop
        final = {}
        names = set(snap.locals)
        for out, pcs in paths:
            names |= set(out["locals"])
        for k in names:
            if mode.get(k) == "acc":
                total = None
                for (out, pcs), cond in zip(paths, conds):
                    v = as_num(out["locals"][k])
                    d = v - acc[k]
                    if T.single_atom(acc[k]).id in d.free:
                        raise Failed("variable %s is not a running sum in %s" % (k, where))
                    total = d if total is None else ite(cond, d, total)
                for k2, v2 in acc.items():
                    if T.single_atom(v2).id in total.free:
                        raise Failed("running sums depend on each other")
                final[k] = as_num(snap.locals[k]) + T.sum_(n, lambda i: T.subst(total, {tid: as_num(i)}))
            elif k in carry:
                final[k] = T.subst(carry[k], {tid: n})
            elif k in snap.locals and all(
                    out["locals"].get(k) is snap.locals[k] for out, _ in paths):
                final[k] = snap.locals[k]
            else:
                vals = [out["locals"].get(k) for out, _ in paths]
                if len(vals) == 1 and scalar_value(vals[0]) is not None and \
                        eng.simplify(lt0(-n)) is TRUE:
                    final[k] = T.subst(scalar_value(vals[0]), {tid: n - 1})
                else:
                    final[k] = Poisoned(k)
        for out, _ in paths:
            for k2, v2 in acc.items():
                a2 = T.single_atom(v2).id
                for sid, c in out["contents"].items():
                    pass
        set_(final)
        eng.record("loop %s: iterations write disjoint cells" % where, "loop",
                   "proved", "z3", time.time() - t0)
        return ("done",)

    def _par_paths(self, s, body, get, set_, snap, tau, mode, acc, carry, hyp):
        for attempt in range(8):
            try:
                return self._par_run(s, body, get, set_, snap, tau, mode, acc, carry, hyp)[0]
            except PoisonRead as e:
                snap.restore(set_)
                k = e.what
                if k in mode and mode[k] == "poison" and scalar_value(snap.locals[k]) is not None:
                    mode[k] = "acc"
                    acc[k] = T.fresh("acc", "R")
                    continue
                if k in mode and mode[k] == "poison" and isinstance(snap.locals[k], Arr):
                    mode[k] = "same"
                    continue
                raise
            finally:
                snap.restore(set_)
        raise Failed("parallel rule does not apply")

    def _acc_to_carry(self, mode, acc, carry, paths, snap, where):
        """Accumulators that are not running sums are carried values."""
        changed = False
        for k in list(acc):
            ids = {T.single_atom(v).id for v in acc.values()}
            for out, pcs in paths:
                v = scalar_value(out["locals"].get(k))
                if v is None:
                    raise Failed("variable %s of %s" % (k, where))
                if (as_num(v) - acc[k]).free & ids:
                    mode[k] = "carry"
                    carry[k] = as_num(snap.locals[k])
                    del acc[k]
                    changed = True
                    break
        return changed

    def _depends(self, sid, descs, paths, ctx, tau, tid):
        """May an iteration read what an earlier one wrote?"""
        eng = self.eng
        tau2 = T.fresh("it")
        for out, pcs in paths:
            for rid, idx in out["reads"]:
                if rid != sid:
                    continue
                for desc in descs:
                    cs = [le0(-tau2), lt0(tau2 - tau)]
                    inside = []
                    for d, i in zip(desc, idx):
                        v = T.subst(as_num(d[1]), {tid: tau2})
                        if d[0] == "pt":
                            inside.append(eq0(as_num(i) - v))
                        else:
                            ln = T.subst(as_num(d[2]), {tid: tau2})
                            inside.append(le0(v - as_num(i)))
                            inside.append(lt0(as_num(i) - v - ln))
                    with eng.assuming(*(ctx + pcs + cs)):
                        c = eng.simplify(neg(conj(*inside)))
                    if c is not TRUE:
                        return True
        return False

    def _closed(self, st, old, solver, paths, conds, ctx, tau, tid, bound):
        """Content after the iterations below `bound`."""
        eng = self.eng
        axis, solve, member = solver
        news = [out["contents"].get(id(st), old) for out, pcs in paths]
        bound = as_num(bound)

        def fn(idx):
            if any(tid in as_num(i).free for i in idx):
                # name the cell independently of the iteration
                sub, cell = {}, []
                for i in idx:
                    f = T.fresh("c", "I") if tid in as_num(i).free else i
                    if f is not i:
                        sub[T.single_atom(f).id] = as_num(i)
                    cell.append(f)
                return eng.resolve(T.subst(fn(tuple(cell)), sub))
            tv = solve(idx)
            c = eng.simplify(le0(-as_num(tv)))
            if c is not FALSE:
                c = conj(c, eng.simplify(lt0(as_num(tv) - bound)))
            if c is FALSE:
                return old.get(idx)
            c = conj(c, eng.simplify(T.subst(member(idx), {tid: as_num(tv)})))
            if c is FALSE:
                return old.get(idx)
            tv = as_num(tv)
            r = None
            for cond, new in reversed(list(zip(conds, news))):
                cc = eng.simplify(T.subst(cond, {tid: tv}))
                if cc is FALSE and r is not None:
                    continue
                with eng.without(tid), eng.assuming(*(ctx + [c, eq0(tau - tv)])):
                    v = new.get(idx)
                v = T.subst(v, {tid: tv})
                r = v if r is None or cc is TRUE else ite(cc, v, r)
            if isinstance(r, Num):
                with eng.assuming(c):
                    r = eng.resolve(r)
            if c is TRUE:
                return r
            return ite(c, r, old.get(idx))
        return Content(fn)

    def _par_run(self, s, body, get, set_, snap, tau, mode, acc, carry, hyp):
        eng = self.eng
        n = as_num(s.n)
        reads_all = []

        def run():
            snap.restore(set_)
            eng.assume(conj(le0(-tau), lt0(tau - n)))
            loc = {}
            for k, m in mode.items():
                loc[k] = Poisoned(k) if m == "poison" else (
                    acc[k] if m == "acc" else carry[k] if m == "carry" else snap.locals[k])
            set_(loc)
            reads = []
            for sid, (st, c, z) in snap.storages.items():
                st.content = LogContent(hyp.get(sid, c), reads, sid)
                st.lazy = True
            old_log, eng.write_log = eng.write_log, []
            old_ll, self.list_log = self.list_log, []
            try:
                item = s.item(tau)
                try:
                    r = body(item)
                except (Unsupported, PoisonRead, Failed, Infeasible, StopPath):
                    raise
                except Exception as e:
                    raise Unsupported("loop body raises %s: %s" % (type(e).__name__, e))
                if r[0] != "next":
                    raise Unsupported("loop with early exit")
                writes = []
                contents = {}
                for st, inv, valfn, desc in eng.write_log:
                    if id(st) in snap.storages:
                        if desc is None:
                            raise Unsupported("unknown region written in a loop")
                        writes.append((id(st), inv, valfn, desc))
                        contents[id(st)] = st.content
                lists = {}
                for l in self.list_log:
                    if id(l) in snap.lists:
                        c0 = snap.lists[id(l)][1]
                        cur = list.__getitem__(l, slice(None))
                        if len(cur) <= len(c0) or any(a is not b for a, b in zip(c0, cur)):
                            raise Unsupported("list changed in a loop")
                        lists[id(l)] = cur[len(c0):]
                attrs = [(o, k) for o, d in snap.attrs.values()
                         for k in o.__dict__.keys() | d.keys()
                         if k not in o.__dict__ or k not in d or o.__dict__[k] is not d[k]]
                return dict(writes=writes, contents=contents, reads=list(reads),
                            locals=get(), lists=lists, attrs=attrs)
            finally:
                eng.write_log = old_log
                self.list_log = old_ll
        ctx = [le0(-tau), lt0(tau - n)]
        res = eng.explore(run, 60)
        out = []
        for o, pcs in res:
            keys = {c.key() for c in ctx}
            out.append((o, [c for c in pcs if c.key() not in keys]))
        return out, reads_all

    def _solve(self, st, descs, tau, tid):
        """Iteration that writes a cell, from the regions written."""
        nd = len(st.shape)
        for ax in range(nd):
            ok = True
            base = None
            for d in descs:
                p = d[ax]
                start = as_num(p[1])
                if tid not in start.free:
                    ok = False
                    break
                if p[0] == "pt":
                    rest = start - tau
                    w = None
                    if tid in rest.free:
                        rest = start + tau
                        if tid in rest.free:
                            ok = False
                            break
                        w = "neg"
                    key = ("pt", rest.fp, w)
                else:
                    zero = T.subst(start, {tid: T.ZERO})
                    coef = T.subst(start, {tid: T.ONE}) - zero
                    if tid in coef.free or not T.is_zero(start - zero - coef * tau):
                        ok = False
                        break
                    ln = as_num(p[2])
                    if tid in ln.free or T.HOOKS.simplify(le0(ln - coef)) is not TRUE \
                            or T.HOOKS.simplify(lt0(-coef)) is not TRUE:
                        ok = False
                        break
                    key = ("rng", zero.fp, coef.fp)
                    rest, w = zero, coef
                if base is None:
                    base = (key, p[0], rest, w)
                elif base[0] != key:
                    ok = False
                    break
            if not ok or base is None:
                continue
            _, kind, rest, w = base
            if kind == "pt":
                if w == "neg":
                    solve = lambda idx, ax=ax, rest=rest: ci(rest - as_num(idx[ax]))
                else:
                    solve = lambda idx, ax=ax, rest=rest: ci(as_num(idx[ax]) - rest)
            else:
                solve = lambda idx, ax=ax, rest=rest, w=w: ci(
                    T.floordiv(as_num(idx[ax]) - rest, w))

            def member(idx, descs=descs):
                alts = []
                for d in descs:
                    cs = []
                    for p, i in zip(d, idx):
                        if p[0] == "pt":
                            cs.append(eq0(as_num(i) - as_num(p[1])))
                        else:
                            cs.append(le0(as_num(p[1]) - as_num(i)))
                            cs.append(lt0(as_num(i) - as_num(p[1]) - as_num(p[2])))
                    alts.append(conj(*cs))
                return T.disj(*alts) if len(alts) > 1 else alts[0]
            return ax, solve, member
        raise Failed("cannot tell which iteration writes a cell")

    # ------------------------------------------------------- sequence rule
    def sequences(self, mk, cond, n, get, set_, where, errors):
        """Try the offered contracts of recording loops; None if none fits."""
        eng = self.eng
        for g in self.offered:
            if not isinstance(g, SeqGhost) or g.active or g.until and cond is not None:
                continue
            if n is not None and eng.simplify(eq0(as_num(n) - g.n)) is not TRUE:
                errors.append("%s: number of iterations" % g.name)
                continue
            n_ob, n_side = len(eng.obligations), len(eng.side_unproved)
            offered = list(self.offered)
            snap = Snap(self, get)
            g.active = True
            try:
                return self.seq_rule(g, mk(g), cond, get, set_, where, snap)
            except (PoisonRead, Failed) as e:
                errors.append("%s: %s" % (g.name, e))
            except Unsupported as e:
                if "time budget" in str(e):
                    raise
                errors.append("%s: %s" % (g.name, e))
            finally:
                g.active = False
                self.offered[:] = offered
            self.attempts.append((where, g.name, errors[-1]))
            del eng.obligations[n_ob:]
            del eng.side_unproved[n_side:]
            snap.restore(set_)
        return None

    def seq_rule(self, g, body, cond, get, set_, where, snap):
        eng = self.eng
        if bool(as_bool(eq0(as_num(g.n)))):
            if cond is not None:
                eng.quiet += 1
                try:
                    eng.prove("loop %s: no iteration" % where, neg(as_bool(cond())), "loop")
                finally:
                    eng.quiet -= 1
            g.used += 1
            self.loop_log.append((where, g.name))
            return ("done",)
        comps, lists, late, rows = self.seq_discover(g, body, cond, get, set_, snap)
        last = None
        for _ in range(4):
            cands = []
            for c, cs in zip(comps, self.candidates(g, comps, snap)):
                key = self._ckey(c)
                if key in late:
                    cs = [("late", late[key])]
                elif c[0] == "loc" and hasattr(snap.locals.get(c[1]), "__seq_at__"):
                    cs = [("object",)]
                elif key in rows:
                    st = c[1]
                    fits = eng.simplify(le0(g.n + rows[key] - as_num(st.shape[0]))) is TRUE
                    hs = [("rows", rows[key], k) for k, v in g.init.items()
                          if fits and self._row_shape(v, st.shape[1:])]
                    cs = hs + cs
                elif late and c[0] == "attr" and isinstance(
                        snap.attrs[id(c[1])][1].get(c[2]), Arr):
                    shape = snap.attrs[id(c[1])][1][c[2]].shape
                    cs = [("after", k) for k, v in g.init.items()
                          if isinstance(v, Arr) and self._row_shape(v, shape)] + cs
                cands.append(cs)
            for l in lists:
                e = lists[l]
                cands.append([("append", k) for k, v in g.init.items()
                              if self._row_shape(v, e.shape if isinstance(e, Arr) else ())])
            more = None
            tried = 0
            read = set()               # components read before they are written
            blamed = set()             # relations that an earlier trial refuted
            for combo in self._trials(self._ranked(cands), blamed):
                if any(c == ("poison",) and comps[i][0] == "loc" and comps[i][1] in read
                       for i, c in enumerate(combo[:len(comps)])):
                    continue
                tried += 1
                if tried > 32:
                    break
                offered = list(self.offered)
                try:
                    more = self.try_seq(g, comps, list(lists), combo, body, cond, get, set_,
                                        where, snap)
                    if more:
                        break
                    snap.restore(set_)
                    left = self.leave_seq(g) if g.until else False
                    self.install_seq(g, comps, list(lists), combo, g.count, snap, set_)
                    if left:
                        # variables may differ from those of a complete iteration
                        set_({c[1]: Poisoned(c[1]) for c in comps if c[0] == "loc"})
                    self.log_comps(comps)
                    g.used += 1
                    self.loop_log.append((where, g.name))
                    return ("break",) if left else ("done",)
                except Failed as e:
                    last = e
                except PoisonRead as e:
                    last = Failed("read of undefined %s" % (e.what,))
                    read.add(e.what)
                finally:
                    self.offered[:] = offered
                self.attempts.append((where, g.name, str(last)))
                for i, c in enumerate(comps):
                    if str(last).startswith("loop %s: %s after one iteration" % (
                            where, c[-1] if c[0] != "st" else "array")):
                        blamed.add((i, combo[i]))
                snap.restore(set_)
            if not more:
                raise last or Failed("no relation to the loop contract")
            comps = comps + more
        raise Failed("loop modifies too many locations")

    def leave_seq(self, g):
        """End of a loop that may be left early."""
        eng = self.eng
        left = eng.fork()
        if left:
            g.count = T.fresh("m")
            eng.assume(conj(le0(1 - g.count), le0(g.count - g.n)))
        else:
            g.count = g.n
        c = as_bool(g.until(g.raw(g.count)))
        eng.assume(c if left else neg(c))
        return left

    def _trials(self, combos, blamed):
        """Combinations in order, those with refuted relations last."""
        combos = list(combos)
        while combos:
            best = min(range(len(combos)), key=lambda j: sum(
                (i, c) in blamed for i, c in enumerate(combos[j]))) if blamed else 0
            yield combos.pop(best)

    def _ranked(self, cands):
        """Combinations of candidates, first those that relate different
        locations to different components."""
        combos = list(itertools.islice(itertools.product(*cands), 20000))

        def shared(combo):
            n = 0
            for kind in ("ghost", "rows", "append"):
                ks = [c[-1] for c in combo if c[0] == kind]
                n += len(ks) - len(set(ks))
            return n
        return sorted(combos, key=shared)

    def _row_shape(self, v, shape):
        if isinstance(v, Arr):
            return len(v.shape) == len(shape) and all(deq(a, b) for a, b in zip(v.shape, shape))
        return len(shape) == 0

    def seq_discover(self, g, body, cond, get, set_, snap):
        """Locations modified by the first iteration."""
        eng = self.eng
        found, lists, late, rows = {}, {}, {}, {}

        def run():
            snap.restore(set_)
            offered = list(self.offered)
            eng.assume(lt0(-g.n))
            g.step(g.init, T.ZERO)
            if cond is not None:
                c = cond()
                if isinstance(c, SBool):
                    eng.assume(c)
            old_log, eng.write_log = eng.write_log, []
            try:
                r = body(T.ZERO)
                if r[0] != "next" and not (g.until and r[0] == "break"):
                    raise Unsupported("loop with early exit")
                self.collect(found, eng.write_log, get, snap, lists)
                for st, inv, valfn, desc in eng.write_log:
                    key = ("st", id(st))
                    if id(st) not in snap.storages:
                        continue
                    off = None
                    if desc and desc[0][0] == "pt":
                        off = as_num(desc[0][1]).const()
                    if off is None or rows.get(key, off) != off:
                        rows[key] = None
                    else:
                        rows[key] = off
                for key, c in found.items():
                    if c[0] == "attr":
                        a, b = snap.attrs[id(c[1])][1].get(c[2]), c[1].__dict__[c[2]]
                        if isinstance(a, bool) and isinstance(b, bool):
                            late[self._ckey(c)] = (a, b)
            finally:
                eng.write_log = old_log
                self.offered[:] = offered
        eng.trial += 1
        try:
            eng.explore(run, 40)
        finally:
            eng.trial -= 1
            snap.restore(set_)
        rows = {k: int(v) for k, v in rows.items() if v is not None}
        return list(found.values()), lists, late, rows

    def install_seq(self, g, comps, lists, combo, k, snap, set_):
        """Program state after k iterations (all for k = n)."""
        eng = self.eng
        s = g.at(k) if k is g.n or k is g.count else g.raw(k) if not T.is_zero(as_num(k)) else g.init
        k = as_num(k)
        plain = []
        loc = {}
        for c, cand in zip(comps, combo):
            if cand[0] == "late":
                c[1].__dict__[c[2]] = cand[1][0] if bool(as_bool(eq0(k))) else cand[1][1]
            elif cand[0] == "object":
                loc[c[1]] = snap.locals[c[1]].__seq_at__(ci(k))
            elif cand[0] == "after":
                if not bool(as_bool(eq0(k))):
                    plain.append((c, ("ghost", cand[1])))
            elif cand[0] == "rows":
                st = c[1]
                st.content = Content(self._rows(g, cand, k, snap.storages[id(st)][1]))
                st.materialize()
            else:
                plain.append((c, cand))
        self.install_state([c for c, _ in plain], [x for _, x in plain], s, g, snap, set_)
        set_(loc)
        for l, cand in zip(lists, combo[len(comps):]):
            o, c0, seg0 = snap.lists[l]
            if seg0:
                raise Unsupported("list with several symbolic parts")
            list.__setitem__(o, slice(None), c0)
            o.segs = ((ci(k), lambda i, cand=cand: g.raw(as_num(i) + 1)[cand[1]]),)

    def _rows(self, g, cand, k, old):
        _, off, comp = cand

        def fn(idx):
            i = as_num(idx[0]) - off
            c = conj(T.HOOKS.simplify(le0(-i)), T.HOOKS.simplify(lt0(i - k)))
            if c is FALSE:
                return old.get(idx)
            v = g.raw(i + 1)[comp]
            v = v.get(tuple(idx[1:])) if isinstance(v, Arr) else v
            if c is TRUE:
                return v
            with T.HOOKS.assuming(neg(c)):
                kept = old.get(idx)
            return ite(c, v, kept)
        return fn

    def try_seq(self, g, comps, lists, combo, body, cond, get, set_, where, snap):
        eng = self.eng
        n = g.n
        extra = {}
        keys = {self._ckey(c) for c in comps}
        k = T.fresh("k")
        first = any(c[0] in ("late", "after") for c in combo) or any(
            c[0] == "rows" and not any(d[0] in ("ghost", "shift") and d[1] == c[2]
                                       for d in combo) for c in combo)

        def index():
            """The iteration: the first one, or a later one."""
            eng.assume(conj(le0(-k), lt0(k - n)))
            if first and bool(as_bool(eq0(k))):
                return T.ZERO
            return k

        eng.quiet += 1
        try:
            for c, f in g.closed.items():
                eng.eq("loop %s: %s initially" % (where, c), f(T.ZERO), g.init[c], "loop")
        finally:
            eng.quiet -= 1

        def guard_run():
            snap.restore(set_)
            j = T.fresh("k")
            eng.assume(conj(le0(-j), le0(j - n)))
            kk = T.ZERO if first and bool(as_bool(eq0(j))) else j
            self.install_seq(g, comps, lists, combo, kk, snap, set_)
            pg = as_bool(cond())
            eng.quiet += 1
            try:
                eng.prove("loop %s: goes on before the last iteration" % where,
                          T.disj(pg, le0(n - j)), "loop")
                eng.prove("loop %s: ends after the last iteration" % where,
                          T.disj(neg(pg), lt0(j - n)), "loop")
            finally:
                eng.quiet -= 1
        if cond is not None:
            eng.explore(guard_run, 20)

        def body_run():
            snap.restore(set_)
            kk = index()
            offered = list(self.offered)
            self.install_seq(g, comps, lists, combo, kk, snap, set_)
            old_log, eng.write_log = eng.write_log, []
            for l in lists:
                snap.lists[l][0].segs = ()
            eng.quiet += 1
            try:
                gen = g.init if T.is_zero(kk) else g.raw(kk)
                nxt = g.step(gen, kk)
                nxt = {c: (as_arr(v) if isinstance(g.init[c], Arr) else as_num(v))
                       for c, v in nxt.items()}
                stop = None
                if g.until:
                    stop = as_bool(g.until(nxt))
                    if not T.is_zero(kk):
                        eng.assume(neg(as_bool(g.until(gen))))
                before = {id(c[1]): c[1].content for c, cand in zip(comps, combo)
                          if cand[0] == "rows"}
                eng.write_log = []
                try:
                    r = body(kk)
                except (Unsupported, PoisonRead, Failed, Infeasible, StopPath):
                    raise
                except Exception as e:
                    raise Failed("body raises %s: %s" % (type(e).__name__, e))
                if r[0] != "next" and (stop is None or r[0] != "break"):
                    raise Failed("loop with early exit")
                if stop is not None:
                    eng.prove("loop %s: left at the right time" % where,
                              stop if r[0] == "break" else neg(stop), "loop")
                found, ls = {}, {}
                self.collect(found, eng.write_log, get, snap, ls)
                for c in found.values():
                    if self._ckey(c) not in keys:
                        extra[self._ckey(c)] = c
                if extra:
                    return
                if set(ls) != set(lists):
                    raise Failed("lists changed in some iterations only")
                cur = get()
                for c, cand in zip(comps, combo):
                    lab = "loop %s: %s after one iteration" % (
                        where, c[-1] if c[0] != "st" else "array")
                    if cand[0] == "poison" or r[0] == "break" and c[0] == "loc":
                        continue
                    if cand[0] == "object":
                        if type(cur[c[1]]) is not type(snap.locals[c[1]]):
                            raise Failed("%s is another kind of object" % c[1])
                        eng.eq(lab, cur[c[1]].k, kk + 1, "loop")
                    elif cand[0] == "late":
                        if c[1].__dict__[c[2]] is not cand[1][1]:
                            raise Failed("%s changes in later iterations" % c[2])
                    elif cand[0] == "rows":
                        st = c[1]
                        off = cand[1]
                        for idx, ctx, txt in eng.generic_indices((1,) + tuple(st.shape[1:])):
                            with eng.assuming(*ctx):
                                v = nxt[cand[2]]
                                v = v.get(tuple(idx[1:])) if isinstance(v, Arr) else v
                                eng._eq1(lab + " (new row)" + txt,
                                         st.content.get((ci(kk + off),) + tuple(idx[1:])), v, "loop")
                        for idx, ctx, txt in eng.generic_indices(st.shape):
                            if isinstance(idx[0], int):
                                ctx = list(ctx) + [neg(eq0(kk + off - idx[0]))]
                            else:
                                ctx = list(ctx) + [neg(eq0(as_num(idx[0]) - kk - off))]
                            with eng.assuming(*ctx):
                                a, b = st.content.get(idx), before[id(st)].get(idx)
                                eng._eq1(lab + " (other rows)" + txt, a, b, "loop")
                    elif c[0] == "st":
                        self.same_content(lab, c[1].content, c[1].shape, cand, nxt)
                    else:
                        v = cur[c[1]] if c[0] == "loc" else c[1].__dict__[c[2]]
                        if cand[0] == "after":
                            cand = ("ghost", cand[1])
                        if isinstance(v, Arr):
                            old = snap.locals.get(c[1]) if c[0] == "loc" else snap.attrs[id(c[1])][1][c[2]]
                            if len(v.shape) != len(old.shape) or not all(
                                    deq(a, b) for a, b in zip(v.shape, old.shape)):
                                raise Failed("shape of %s changes" % c[-1])
                            self.same_content(lab, full(v), v.shape, cand, nxt)
                        elif cand[0] == "shift":
                            _, x, v0, x0, sg = cand
                            w = v0 + (nxt[x] - x0) if sg == 1 else v0 - (nxt[x] - x0)
                            eng.eq(lab, v, w, "loop")
                        else:
                            eng.eq(lab, v, nxt[cand[1]], "loop")
                for l, cand in zip(lists, combo[len(comps):]):
                    o, c0, _ = snap.lists[l]
                    new = list.__getitem__(o, slice(None))[len(c0):]
                    if len(new) != 1:
                        raise Failed("not one element appended")
                    eng.eq("loop %s: appended element" % where, new[0], nxt[cand[1]], "loop")
                for c, f in g.closed.items():
                    eng.eq("loop %s: %s as a function of the iteration" % (where, c), nxt[c],
                           f(kk + 1), "loop")
                for c, offs in g.quats.items():
                    for off in offs:
                        nn = T.ZERO
                        for i in range(off, off + 4):
                            nn = nn + nxt[c].get((i,)) * nxt[c].get((i,))
                        eng.eq("loop %s: %s stays a unit quaternion" % (where, c), nn, T.ONE,
                               "loop")
            finally:
                eng.quiet -= 1
                eng.write_log = old_log
                self.offered[:] = offered
        n0 = len(eng.obligations)
        eng.explore(body_run, 60)
        if extra:
            del eng.obligations[n0:]
            return list(extra.values())
        return None

    # ---------------------------------------------------------- while rule
    def while_ghost(self, g, cond, body, get, set_, where, snap, strict=False):
        eng = self.eng
        t0 = time.time()
        comps = self.discover(cond, body, get, set_, snap)
        for _ in range(4):
            cands = self.candidates(g, comps, snap)
            more = None
            n = 0
            last = None
            for combo in itertools.product(*[c for c in cands]):
                if strict and not self.complete(g, combo):
                    continue
                n += 1
                if n > 24:
                    break
                try:
                    more = self.try_while(g, comps, combo, cond, body, get, set_, where, snap)
                    if more:
                        break
                    # success
                    snap.restore(set_)
                    self.install_state(comps, combo, g.final, g, snap, set_)
                    self.log_comps(comps)
                    for c in g.inv(g.final):
                        eng.assume(c)
                    eng.assume(neg(as_bool(g.guard(g.final))))
                    g.used += 1
                    self.loop_log.append((where, g.name))
                    last = None
                    return ("done",)
                except Failed as e:
                    last = e
                    self.attempts.append((where, g.name, str(e)))
                except PoisonRead as e:
                    last = Failed("read of undefined %s" % (e.what,))
                finally:
                    if last is not None or more:
                        snap.restore(set_)
            if more:
                comps = comps + [m for m in more]
                continue
            raise last or Failed("no relation to the loop contract")
        raise Failed("loop modifies too many locations")

    def log_comps(self, comps):
        """Tell an enclosing loop which arrays this loop wrote."""
        for c in comps:
            if c[0] == "st":
                self.eng.log_write(c[1], None, None, None)

    def complete(self, g, combo):
        """Is every component of the contract related to a location?"""
        seen = set()
        for c in combo:
            if c[0] in ("ghost", "shift"):
                seen.add(c[1])
            elif c[0] == "cells":
                seen.update(k[0] for k in c[1].values() if k[0] not in ("keep", "poison"))
        return seen >= set(g.init)

    def discover(self, cond, body, get, set_, snap):
        """Locations modified by one iteration from the entry state."""
        found = {}
        eng = self.eng

        def run():
            snap.restore(set_)
            c = cond()
            if isinstance(c, SBool):
                eng.assume(c)
            old_log, eng.write_log = eng.write_log, []
            try:
                r = body()
                if r[0] != "next":
                    raise Unsupported("loop with early exit")
                self.collect(found, eng.write_log, get, snap)
            finally:
                eng.write_log = old_log
        eng.trial += 1
        try:
            eng.explore(run, 40)
        finally:
            eng.trial -= 1
            snap.restore(set_)
        return list(found.values())

    def collect(self, found, log, get, snap, lists=None):
        for st, inv, valfn, desc in log:
            if id(st) in snap.storages and ("st", id(st)) not in found:
                found[("st", id(st))] = ("st", st)
        cur = get()
        for k in cur:
            if k in snap.locals:
                if cur[k] is not snap.locals[k]:
                    found.setdefault(("loc", k), ("loc", k))
            else:
                found.setdefault(("loc", k), ("loc", k))
        for o, d in snap.attrs.values():
            for k, v in o.__dict__.items():
                if k not in d or d[k] is not v:
                    found.setdefault(("attr", id(o), k), ("attr", o, k))
        for l, c, seg in snap.lists.values():
            cur = list.__getitem__(l, slice(None))
            if len(cur) != len(c) or any(a is not b for a, b in zip(cur, c)):
                if lists is None or len(cur) != len(c) + 1 or any(
                        a is not b for a, b in zip(cur, c)):
                    raise Unsupported("list changed in a loop")
                lists[id(l)] = cur[-1]

    def candidates(self, g, comps, snap):
        """For every component a list of relations to the ghost state."""
        out = []
        for c in comps:
            if c[0] == "st":
                st = c[1]
                for k, v in snap.locals.items():
                    if isinstance(v, Arr) and v.st is st and any(
                            x[0] == "loc" and x[1] == k for x in comps):
                        raise Unsupported("array both rebound and written in a loop")
                out.append(self.array_candidates(g, st.shape, snap.storages[id(st)][1], snap))
            else:
                if c[0] == "loc":
                    if c[1] not in snap.locals:
                        out.append([("poison",)])
                        continue
                    v = snap.locals[c[1]]
                else:
                    d = snap.attrs[id(c[1])][1]
                    if c[2] not in d:
                        out.append([("poison",)])
                        continue
                    v = d[c[2]]
                if isinstance(v, Arr):
                    cs = self.array_candidates(g, v.shape, full(v), snap)
                elif scalar_value(v) is not None and not isinstance(v, (bool, SBool)):
                    cs = self.scalar_candidates(g, as_num(v))
                else:
                    cs = []
                cs.append(("poison",))
                out.append(cs)
        return out

    def scalar_candidates(self, g, v):
        cs = []
        for k, x in g.init.items():
            if isinstance(x, Num):
                if T.is_zero(self.eng.rewrite_eqs(x - v)):
                    cs.append(("ghost", k))
        for k, x in g.init.items():
            if isinstance(x, Num) and ("ghost", k) not in cs:
                cs.append(("shift", k, v, x, 1))
                cs.append(("shift", k, v, x, -1))
        return cs

    def array_candidates(self, g, shape, content, snap):
        eng = self.eng
        cs = []
        for k, x in g.init.items():
            if not isinstance(x, Arr) or len(x.shape) != len(shape):
                continue
            if not all(deq(a, b) for a, b in zip(x.shape, shape)):
                continue
            ok = True
            for idx, ctx, _ in eng.generic_indices(shape):
                with eng.assuming(*ctx):
                    a, b = content.get(idx), x.get(idx)
                    if isinstance(a, SBool) or isinstance(b, SBool) or \
                            not T.is_zero(eng.rewrite_eqs(a - b)):
                        ok = False
                        break
            if ok:
                cs.append(("ghost", k))
        if all(isinstance(d, int) for d in shape) and prod(shape) <= 64:
            # cell by cell
            cells = {}
            table = []
            for k, x in g.init.items():
                if isinstance(x, Arr):
                    if all(isinstance(d, int) for d in x.shape):
                        for idx in all_idx(x.shape):
                            table.append((x.get(idx), (k, idx)))
                else:
                    table.append((x, (k, None)))
            ok = True
            prev = None
            for idx in all_idx(shape):
                a = content.get(idx)
                hit = None
                opts = [r for v, r in table if isinstance(a, Num) and T.is_zero(v - a)]
                if opts:
                    # prefer continuing the ghost component of the previous cell
                    hit = opts[0]
                    for o in opts:
                        if prev and o[0] == prev[0] and o[1] and prev[1] and \
                                o[1][-1] == prev[1][-1] + 1:
                            hit = o
                if hit is None:
                    hit = ("keep", a)
                cells[idx] = hit
                prev = hit
            if any(h[0] != "keep" for h in cells.values()) and not any(
                    c[0] == "ghost" for c in cs):
                if any(h[0] == "keep" for h in cells.values()):
                    # cells outside the contract: unchanged, or else unknown
                    cs.append(("cells", cells))
                    cells = {i: h if h[0] != "keep" else ("poison", None)
                             for i, h in cells.items()}
                cs.append(("cells", cells))
        cs.append(("poison",))
        return cs

    def related(self, cand, shape, s, what):
        """Content of an array component for ghost state s."""
        if cand[0] == "ghost":
            g = s[cand[1]].snap()
            return Content(lambda idx: g(idx))
        if cand[0] == "cells":
            return CellsView(cand[1], shape, s, what)
        return Poison(what)

    def install_state(self, comps, combo, s, g, snap, set_):
        loc = {}
        for c, cand in zip(comps, combo):
            if c[0] == "st":
                c[1].content = self.related(cand, c[1].shape, s, c[1].tag or "array")
                if cand[0] == "ghost":
                    c[1].materialize()
                continue
            if c[0] == "loc":
                old = snap.locals.get(c[1])
            else:
                old = snap.attrs[id(c[1])][1].get(c[2])
            if cand[0] == "poison":
                v = Poisoned(c[-1])
            elif cand[0] == "shift":
                _, k, v0, x0, sg = cand
                v = v0 + (s[k] - x0) if sg == 1 else v0 - (s[k] - x0)
            elif isinstance(old, Arr):
                st = Storage(old.shape, self.related(cand, old.shape, s, c[-1]))
                v = full_view(st)
            else:
                v = s[cand[1]]
            if c[0] == "loc":
                loc[c[1]] = v
            else:
                c[1].__dict__[c[2]] = v
        set_(loc)

    def try_while(self, g, comps, combo, cond, body, get, set_, where, snap):
        """None if the loop refines the ghost under this relation; a list of
        further components; raises Failed."""
        eng = self.eng
        t0 = time.time()
        gen = g.state("GEN")
        extra = {}
        obs = []
        keys = {self._ckey(c) for c in comps}

        def setup():
            snap.restore(set_)
            self.install_state(comps, combo, gen, g, snap, set_)
            for c in g.inv(gen):
                eng.assume(c)

        # guard
        def guard_run():
            setup()
            pg = cond()
            pg = as_bool(pg)
            gg = as_bool(g.guard(gen))
            eng.quiet += 1
            try:
                eng.prove("loop %s: guard implies contract guard" % where,
                          T.disj(neg(pg), gg), "loop")
                eng.prove("loop %s: contract guard implies guard" % where,
                          T.disj(neg(gg), pg), "loop")
            finally:
                eng.quiet -= 1
        for c in g.inv(g.init):
            eng.quiet += 1
            try:
                eng.prove("loop %s: invariant holds initially" % where, c, "loop")
            finally:
                eng.quiet -= 1
        eng.explore(guard_run, 20)

        def body_run():
            setup()
            gg = as_bool(g.guard(gen))
            eng.assume(gg)
            if eng.simplify(FALSE) is TRUE:
                raise Infeasible()
            old_log, eng.write_log = eng.write_log, []
            eng.quiet += 1
            try:
                nxt = g.step(gen)
                nxt = {k: (as_arr(v) if isinstance(g.init[k], Arr) else as_num(v))
                       for k, v in nxt.items()}
                for k in g.const:
                    nxt[k] = g.init[k]
                eng.write_log = []
                try:
                    r = body()
                except (Unsupported, PoisonRead, Failed, Infeasible, StopPath):
                    raise
                except Exception as e:
                    raise Failed("body raises %s: %s" % (type(e).__name__, e))
                if r[0] != "next":
                    raise Failed("loop with early exit")
                found = {}
                self.collect(found, eng.write_log, get, snap)
                for k, c in found.items():
                    if self._ckey(c) not in keys:
                        extra[self._ckey(c)] = c
                if extra:
                    return
                cur = get()
                for c, cand in zip(comps, combo):
                    if cand[0] == "poison":
                        continue
                    lab = "loop %s: %s after one iteration" % (where, c[-1] if c[0] != "st" else "array")
                    if c[0] == "st":
                        self.same_content(lab, c[1].content, c[1].shape, cand, nxt)
                    else:
                        v = cur[c[1]] if c[0] == "loc" else c[1].__dict__[c[2]]
                        if isinstance(v, Arr):
                            old = snap.locals.get(c[1]) if c[0] == "loc" else snap.attrs[id(c[1])][1][c[2]]
                            if len(v.shape) != len(old.shape) or not all(
                                    deq(a, b) for a, b in zip(v.shape, old.shape)):
                                raise Failed("shape of %s changes" % c[-1])
                            self.same_content(lab, full(v), v.shape, cand, nxt)
                        elif cand[0] == "shift":
                            _, k, v0, x0, sg = cand
                            w = v0 + (nxt[k] - x0) if sg == 1 else v0 - (nxt[k] - x0)
                            eng.eq(lab, v, w, "loop")
                        else:
                            eng.eq(lab, v, nxt[cand[1]], "loop")
                for k in g.quats:
                    q = nxt[k]
                    nn = T.ZERO
                    for i in range(4):
                        nn = nn + q.get((i,)) * q.get((i,))
                    eng.eq("loop %s: %s stays a unit quaternion" % (where, k), nn, T.ONE, "loop")
                for c in g.inv(nxt):
                    eng.prove("loop %s: invariant preserved" % where, c, "loop")
                if g.measure is not None:
                    dec = le0(g.measure(nxt) - g.measure(gen) + as_num(g.delta))
                    eng.prove("loop %s: measure decreases" % where,
                              T.disj(neg(as_bool(g.guard(nxt))), dec), "loop")
            finally:
                eng.quiet -= 1
                eng.write_log = old_log
        n0 = len(eng.obligations)
        eng.explore(body_run, 60)
        if extra:
            del eng.obligations[n0:]
            return list(extra.values())
        return None

    def _ckey(self, c):
        if c[0] == "st":
            return ("st", id(c[1]))
        if c[0] == "loc":
            return c
        return ("attr", id(c[1]), c[2])

    def same_content(self, lab, content, shape, cand, nxt):
        eng = self.eng
        for idx, ctx, txt in eng.generic_indices(shape):
            with eng.assuming(*ctx):
                if cand[0] == "ghost":
                    want = nxt[cand[1]].get(idx)
                else:
                    k = cand[1][tuple(idx)]
                    if k[0] == "poison":
                        continue
                    want = k[1] if k[0] == "keep" else nxt[k[0]].get(k[1]) if k[1] is not None else nxt[k[0]]
                eng._eq1(lab + txt, content.get(idx), want, "loop")


class CellsView(Content):
    """Concrete array whose cells are tied to ghost components."""
    __slots__ = ("cells", "shape", "s", "what")

    def __init__(self, cells, shape, s, what):
        self.cells = cells
        self.shape = shape
        self.s = s
        self.what = what

    def get(self, idx):
        if all(isinstance(i, int) for i in idx):
            k = self.cells[tuple(idx)]
            if k[0] == "poison":
                raise PoisonRead(self.what)
            if k[0] == "keep":
                return k[1]
            v = self.s[k[0]]
            return v.get(k[1]) if k[1] is not None else v
        return self._sym(idx, ())

    def _sym(self, idx, done):
        if len(done) == len(self.shape):
            return self.get(done)
        i = idx[len(done)]
        n = self.shape[len(done)]
        if isinstance(i, int):
            return self._sym(idx, done + (i,))
        r = self._sym(idx, done + (n - 1,))
        for k in range(n - 2, -1, -1):
            r = ite(eqc(i, k), self._sym(idx, done + (k,)), r)
        return r


def full(v):
    """Content of a view as a whole."""
    g = v.snap()
    return Content(lambda idx: g(idx))


def subst_value(v, tid, tv):
    if isinstance(v, (Num, SBool)):
        return T.subst(v, {tid: tv})
    if isinstance(v, Arr):
        g = v.snap()
        return from_fn([ci(T.subst(as_num(d), {tid: tv})) for d in v.shape],
                       lambda i: T.subst(g(i), {tid: tv}))
    if isinstance(v, (int, float, str)) or v is None:
        return v
    if type(v) is tuple:
        return tuple(subst_value(x, tid, tv) for x in v)
    raise Unsupported("list element of type %s" % type(v).__name__)
