"""Loads the current source of the package for symbolic execution.

Every module is parsed from /repo on every run.  The only rewriting of Python
sources is mechanical: every loop inside a function becomes a call of the loop
rule of the engine with the original loop body as a closure, and classes
report their instances.  All expressions and statements are executed as
written.  Imports of numpy, math, scipy, numba and pytransform3d are redirected
to objects that carry the assumed contracts of these libraries.
"""
import ast
import builtins
import os
import subprocess
import sys
import types

from . import terms as T
from .symarray import Arr, ArrList, SymSeq, ci
from .terms import Num, SBool, Unsupported, as_num

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "movement_primitives"


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        # comprehension targets are local to it, but walrus is not used
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


class Exits(ast.NodeTransformer):
    """break/continue/return of the loop being rewritten."""

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, node):
        raise AssertionError("inner loop not rewritten")

    visit_While = visit_For

    def _ret(self, node, kind, value=None):
        elts = [ast.Constant(kind)]
        if value is not None:
            elts.append(value)
        return ast.copy_location(ast.Return(ast.Tuple(elts, ast.Load())), node)

    def visit_Break(self, node):
        return self._ret(node, "break")

    def visit_Continue(self, node):
        return self._ret(node, "next")

    def visit_Return(self, node):
        return self._ret(node, "ret", node.value or ast.Constant(None))


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.fn = []
        self.cls = []
        self.globals = [set()]
        self.loops = []

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        node.decorator_list.append(_expr("__vc__.track_class"))
        return node

    def visit_FunctionDef(self, node):
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(node))
        gl = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl |= set(x.names)
        self.fn.append((node.name, has_yield))
        self.globals.append(gl)
        node.body = self._block(node.body)
        doc = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                    isinstance(node.body[0].value, ast.Constant)) else 0
        if not has_yield:
            enter = _stmt("__vc__.enter(%r)" % "%s.%s" % (
                self.modname, ".".join(self.cls + [n for n, _ in self.fn])))
            node.body[doc:doc] = enter
        self.globals.pop()
        self.fn.pop()
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, node):
        return self._loop(node)

    def visit_While(self, node):
        return self._loop(node)

    def _loop(self, node):
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        if not self.fn or self.fn[-1][1]:
            return node
        self.n += 1
        k = self.n
        av = Assigned()
        if isinstance(node, ast.For):
            av.visit(node.target)
        for s in node.body:
            av.visit(s)
        if isinstance(node, ast.While):
            pass
        names = [n for n in av.names if not n.startswith("__l") and
                 n not in self.globals[-1]]
        inner = [n for n in av.names if n.startswith("__l")]
        body = [Exits().visit(s) for s in node.body]
        nl = [ast.Nonlocal(list(names))] if names else []
        where = "%s.%s:%d" % (self.modname, self.fn[-1][0], node.lineno)
        self.loops.append(where)
        pre = []
        if names:
            pre.append(ast.If(ast.Constant(False), [ast.Assign(
                [ast.Name(n, ast.Store()) for n in names], ast.Constant(None))], []))
        if isinstance(node, ast.For):
            head = [ast.Assign([node.target], ast.Name("__lx", ast.Load()))]
            args = ["__lx"]
        else:
            head = []
            args = []
        bodyfn = _fndef("__lb%d" % k, args, nl + head + body + [_stmt("return ('next',)")[0]])
        get = "def __lg%d():\n    __d = {}\n" % k
        for n in names:
            get += "    try:\n        __d[%r] = %s\n    except NameError:\n        pass\n" % (n, n)
        get += "    return __d\n"
        st = "def __ls%d(__d):\n" % k
        if names:
            st += "    nonlocal %s\n" % ", ".join(names)
        for n in names:
            st += "    if %r in __d:\n        %s = __d[%r]\n" % (n, n, n)
        st += "    return None\n"
        defs = [bodyfn] + _stmt(get) + _stmt(st)
        if isinstance(node, ast.For):
            call = ast.Call(_expr("__vc__.for_loop"), [
                node.iter, _expr("__lb%d" % k), _expr("__lg%d" % k),
                _expr("__ls%d" % k), ast.Constant(where)], [])
        else:
            condfn = _fndef("__lc%d" % k, [], [ast.Return(node.test)])
            defs.append(condfn)
            call = ast.Call(_expr("__vc__.while_loop"), [
                _expr("__lc%d" % k), _expr("__lb%d" % k), _expr("__lg%d" % k),
                _expr("__ls%d" % k), ast.Constant(where)], [])
        res = "__lr%d" % k
        out = pre + defs + [ast.Assign([ast.Name(res, ast.Store())], call)]
        out += [ast.If(_expr("%s[0] == 'ret'" % res),
                       [ast.Return(_expr("%s[1]" % res))], [])]
        if node.orelse:
            out.append(ast.If(_expr("%s[0] != 'break'" % res), node.orelse, []))
        for s in out:
            for x in ast.walk(s):
                if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
                    x.lineno = node.lineno
                    x.col_offset = 0
                    x.end_lineno = node.lineno
                    x.end_col_offset = 0
        return out

    def visit_List(self, node):
        self.generic_visit(node)
        if not self.fn or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(ast.Call(_expr("__vc__.lst"), [node], []), node)

    # simple list comprehensions over one generator
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if not self.fn or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        if isinstance(g.target, ast.Name):
            names = [g.target.id]
        elif isinstance(g.target, ast.Tuple) and all(
                isinstance(x, ast.Name) for x in g.target.elts):
            names = [x.id for x in g.target.elts]
            # the last one of equal names counts
            names = [n if n not in names[i + 1:] else "__c%d" % i for i, n in enumerate(names)]
        else:
            return node

        def fun(names, body):
            return ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [],
                                            None, []), body)
        fn = fun(names, node.elt)
        if isinstance(g.target, ast.Tuple):
            fn = fun(["__cx"], ast.Call(fn, [ast.Starred(ast.Name("__cx", ast.Load()),
                                                         ast.Load())], []))
        where = "%s.%s:%d" % (self.modname, self.fn[-1][0], node.lineno)
        return ast.copy_location(ast.Call(_expr("__vc__.listcomp"), [
            fn, g.iter, ast.Constant(where)], []), node)


def _expr(s):
    return ast.parse(s, mode="eval").body


def _stmt(s):
    return ast.parse(s).body


def _fndef(name, args, body):
    f = _stmt("def %s(%s):\n    pass" % (name, ", ".join(args)))[0]
    f.body = body
    return f


# ------------------------------------------------------------------ runtime
class SymIter:
    """An iterable with a symbolic number of elements."""

    def __init__(self, n, item, lo=0):
        self.n = n
        self.item = item

    def __iter__(self):
        raise Unsupported("iteration with a symbolic number of elements")

    def sym_len(self):
        return self.n


def sym_range(*args):
    a = [ci(x) for x in args]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not isinstance(st, int) or st == 0:
        raise Unsupported("symbolic range step")
    if st < 0:
        n = T.floordiv(as_num(lo) - as_num(hi) + (-st - 1), as_num(-st))
    else:
        n = as_num(hi) - as_num(lo)
        if st != 1:
            n = T.floordiv(n + (st - 1), as_num(st))
    c = T.HOOKS.simplify(T.lt0(n))
    if c is not T.FALSE and (c is T.TRUE or bool(c)):
        return range(0)
    return SymIter(ci(n), lambda i: as_num(lo) + as_num(i) * st)


def sym_len(x):
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return builtins.len(x)


def is_sym_iter(x):
    if isinstance(x, SymIter):
        return True
    if isinstance(x, Arr):
        return not isinstance(x.shape[0], int)
    if isinstance(x, SymSeq):
        return True
    if getattr(x, "segs", None):
        return True
    if isinstance(x, ArrList):
        return not isinstance(x.array.shape[0], int)
    return False


def to_sym_iter(x):
    if isinstance(x, SymIter):
        return x
    if isinstance(x, Arr):
        return SymIter(x.shape[0], lambda i: x[i])
    if isinstance(x, (SymSeq, ArrList)):
        return SymIter(x.sym_len(), lambda i: x[i])
    n = sym_len(x)
    return SymIter(n, lambda i: x[i])


def sym_enumerate(x, start=0):
    if is_sym_iter(x):
        s = to_sym_iter(x)
        return SymIter(s.n, lambda i: (ci(as_num(i) + start), s.item(i)))
    return builtins.enumerate(x, start)


def sym_zip(*xs):
    if any(is_sym_iter(x) for x in xs):
        ss = [to_sym_iter(x) for x in xs]
        n = ss[0].n
        for s in ss[1:]:
            from .symarray import dim_equal
            if not dim_equal(n, s.n):
                n = ci(T.minimum(as_num(n), as_num(s.n)))
        return SymIter(n, lambda i: tuple(s.item(i) for s in ss))
    return builtins.zip(*xs)


def sym_min(*a, **k):
    return _minmax(builtins.min, T.minimum, a, k)


def sym_max(*a, **k):
    return _minmax(builtins.max, T.maximum, a, k)


def _minmax(b, f, a, k):
    if k:
        return b(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, Num) for x in xs):
        r = as_num(xs[0])
        for x in xs[1:]:
            r = f(r, as_num(x))
        return r
    return b(*a)


def sym_abs(x):
    return abs(x)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, Num):
            return T.real(x)
        if isinstance(x, Arr):
            return T.real(as_num(x.__sym_scalar__()))
        if isinstance(x, SBool):
            return as_num(x)
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (
            builtins.isinstance(x, Num) and x.sort == "R")


class SymFloat(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, Arr):
            x = x.__sym_scalar__()
        if isinstance(x, Num):
            return ci(T.trunc_(x))
        if isinstance(x, SBool):
            return as_num(x)
        return builtins.int(x, *a)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (
            builtins.isinstance(x, Num) and x.sort == "I")


class SymInt(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __call__(cls, x=False):
        return builtins.bool(x)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.bool, SBool))


class SymBoolT(metaclass=_BoolMeta):
    pass


def sym_round(x, nd=None):
    if isinstance(x, Num):
        if nd:
            raise Unsupported("round to digits")
        if x.sort == "I" or x.const() is not None:
            return as_num(builtins.round(x.const())) if x.const() is not None else x
        def ax(a):
            v = Num({((a.id, 1),): 1}, "I")
            d = 2 * (v - a.args[0])
            return [T.le0(d - 1), T.le0(-1 - d)]
        return T.mk_app("round", (x,), "I", meta={"axiom": ax})
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def sym_sum(x, start=0):
    if is_sym_iter(x):
        s = to_sym_iter(x)
        return T.sum_(as_num(s.n), lambda i: s.item(i)) + start
    r = start
    for e in x:
        r = r + e
    return r


def sym_isinstance(x, t):
    return builtins.isinstance(x, t)


def sym_divmod(a, b):
    if isinstance(a, Num) or isinstance(b, Num):
        return as_num(a) // as_num(b), as_num(a) % as_num(b)
    return builtins.divmod(a, b)


def sym_pow(a, b, *m):
    return a ** b


class _ListMeta(type):
    vc = None

    def __call__(cls, x=()):
        if is_sym_iter(x):
            s = to_sym_iter(x)
            r = cls.vc().lst([])
            r.segs = ((s.n, s.item),)
            return r
        return builtins.list(x)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.list)


class Loader:
    """One instrumented copy of the package bound to an engine."""

    def __init__(self, vc, shims, repo=None):
        self.vc = vc
        self.repo = repo or REPO
        self.shims = shims
        self.mods = {}
        self.builtins = dict(vars(builtins))
        symlist = _ListMeta("list", (), {"vc": staticmethod(lambda: vc)})
        self.builtins.update(
            len=sym_len, range=sym_range, min=sym_min, max=sym_max, abs=sym_abs,
            float=SymFloat, int=SymInt, round=sym_round, sum=sym_sum,
            enumerate=sym_enumerate, zip=sym_zip, list=symlist, divmod=sym_divmod,
            pow=sym_pow, print=lambda *a, **k: None,
            __import__=self.import_)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        if os.path.exists(p + ".pyx"):
            return p + ".pyx"
        raise ImportError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        path = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__vc__"] = self.vc
        if path.endswith("__init__.py"):
            m.__package__ = name
            m.__path__ = [os.path.dirname(path)]
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            code = compiled(name, path)
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.load(top)
        if top in self.shims:
            m = self.shims[top]
            if m is None:
                raise ImportError(name)
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)


_CODE = {}
SOURCES = {}


def compiled(name, path):
    if path in _CODE:
        return _CODE[path]
    if path.endswith(".pyx"):
        src = translate_pyx(path)
    else:
        with open(path) as f:
            src = f.read()
    SOURCES[name] = path
    try:
        tree = ast.parse(src, path)
        ins = Instrument(name)
        tree.body = ins._block(tree.body)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
    except SyntaxError as e:
        raise Unsupported("instrumentation of %s: %s" % (path, e))
    _CODE[path] = code
    return code


def translate_pyx(path):
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run([os.environ.get("VERIF_CYTHON_PYTHON", "/opt/venv/bin/python"),
                        os.path.join(here, "pyx2py.py"), path],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported("cython translation: " + r.stderr[-500:])
    return r.stdout
