"""Prints a Python rendering of a Cython module (run with Cython's Python).

Uses Cython's own parser.  Kept: every statement and expression.  Dropped:
cimports, C type declarations of variables and arguments, and the compiler
directive decorators (boundscheck, wraparound, nonecheck, cdivision).  Typed
scalar variables and arguments are converted through ``__cy__.double`` /
``__cy__.int`` on assignment, typed buffers are type-checked with
``__cy__.buffer``, and ``/`` and ``%`` become ``__cy__.div`` / ``__cy__.mod``
(C semantics, since the module is compiled with cdivision).
"""
import sys

from Cython.Compiler import Errors
from Cython.Compiler.TreeFragment import parse_from_strings


class Unsup(Exception):
    pass


PREC = 100


class Writer:
    def __init__(self):
        self.lines = []
        self.ind = 0
        self.types = [{}]
        self.c_names = set()
        self.tmp = 0

    def put(self, s):
        self.lines.append("    " * self.ind + s)

    # ------------------------------------------------------------- types
    def base_type(self, b):
        n = type(b).__name__
        if n == "CSimpleBaseTypeNode":
            return b.name
        if n == "TemplatedTypeNode":
            return "buffer"
        if n == "CComplexBaseTypeNode":
            return self.base_type(b.base_type)
        if n == "MemoryViewSliceTypeNode":
            return "buffer"
        return None

    def conv(self, typ, expr):
        if typ in ("double", "float"):
            return "__cy__.double(%s)" % expr
        if typ in ("int", "long", "Py_ssize_t", "size_t", "unsigned", "short"):
            return "__cy__.int(%s)" % expr
        if typ in ("bint", "bool"):
            return "__cy__.bint(%s)" % expr
        if typ == "buffer":
            return "__cy__.buffer(%s)" % expr
        return expr

    def decl_name(self, d):
        n = type(d).__name__
        if n == "CNameDeclaratorNode":
            return d.name, d.default
        if n == "CPtrDeclaratorNode":
            raise Unsup("pointer")
        if n == "CFuncDeclaratorNode":
            return self.decl_name(d.base)
        if n == "CArrayDeclaratorNode":
            raise Unsup("C array")
        raise Unsup(n)

    # -------------------------------------------------------- statements
    def block(self, node):
        self.ind += 1
        n = len(self.lines)
        if node is not None:
            self.stat(node)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1

    def stat(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsup("statement " + type(n).__name__)
        m(n)

    def s_ModuleNode(self, n):
        self.stat(n.body)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CImportStatNode(self, n):
        pass

    def s_FromCImportStatNode(self, n):
        mod = n.module_name
        for item in n.imported_names:
            name, asname = item[1], item[2]
            if mod == "libc.math":
                self.put("%s = __cy__.math_%s" % (asname or name, name))

    def s_PassStatNode(self, n):
        self.put("pass")

    def s_BreakStatNode(self, n):
        self.put("break")

    def s_ContinueStatNode(self, n):
        self.put("continue")

    def s_CompilerDirectivesNode(self, n):
        self.stat(n.body)

    def s_GlobalNode(self, n):
        self.put("global " + ", ".join(n.names))

    def s_ExprStatNode(self, n):
        self.put(self.e(n.expr))

    def s_CVarDefNode(self, n):
        typ = self.base_type(n.base_type)
        for d in n.declarators:
            name, default = self.decl_name(d)
            self.types[-1][name] = typ
            if default is not None:
                self.put("%s = %s" % (name, self.conv(typ, self.e(default))))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = n.rhs.module_name
            name = mod.value if hasattr(mod, "value") else str(mod)
            lhs = self.e(n.lhs)
            self.put("import %s as %s" % (name, lhs))
            return
        self.assign([n.lhs], n.rhs)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name
        name = mod.value if hasattr(mod, "value") else str(mod)
        lvl = n.module.level or 0
        self.put("from %s%s import %s" % ("." * max(lvl, 0), name, ", ".join(
            "%s as %s" % (a, self.e(b)) for a, b in n.items)))

    def s_CascadedAssignmentNode(self, n):
        self.assign(n.lhs_list, n.rhs)

    def typed(self, lhs):
        if type(lhs).__name__ == "NameNode":
            return self.types[-1].get(lhs.name)
        return None

    def assign(self, targets, rhs):
        r = self.e(rhs)
        if len(targets) == 1:
            t = targets[0]
            ty = self.typed(t)
            if ty:
                self.put("%s = %s" % (self.e(t), self.conv(ty, r)))
            else:
                self.put("%s = %s" % (self.e(t), r))
                self.fix_tuple(t)
        else:
            self.put("%s = %s" % (" = ".join(self.e(t) for t in targets), r))
            for t in targets:
                ty = self.typed(t)
                if ty:
                    self.put("%s = %s" % (self.e(t), self.conv(ty, self.e(t))))

    def fix_tuple(self, t):
        if type(t).__name__ in ("TupleNode", "ListNode"):
            for a in t.args:
                ty = self.typed(a)
                if ty:
                    self.put("%s = %s" % (self.e(a), self.conv(ty, self.e(a))))

    def s_InPlaceAssignmentNode(self, n):
        ty = self.typed(n.lhs)
        l, r = self.e(n.lhs), self.e(n.rhs)
        op = n.operator
        if op in ("/", "%"):
            fn = "div" if op == "/" else "mod"
            if ty:
                self.put("%s = %s" % (l, self.conv(ty, "__cy__.%s(%s, %s)" % (fn, l, r))))
            else:
                self.put("%s %s= %s" % (l, op, r))
        elif ty and ty != "buffer":
            self.put("%s = %s" % (l, self.conv(ty, "%s %s (%s)" % (l, op, r))))
        else:
            self.put("%s %s= %s" % (l, op, r))

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.put("%s %s:" % (kw, self.e(c.condition)))
            self.block(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.put("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.put("while %s:" % self.e(n.condition))
        self.block(n.body)
        if n.else_clause is not None:
            self.put("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, "sequence") else it
        self.put("for %s in %s:" % (self.e(n.target), self.e(seq)))
        self.ind += 1
        self.fix_tuple(n.target)
        ty = self.typed(n.target)
        if ty:
            self.put("%s = %s" % (self.e(n.target), self.conv(ty, self.e(n.target))))
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.put("else:")
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        raise Unsup("for-from")

    def s_ReturnStatNode(self, n):
        self.put("return" + (" " + self.e(n.value) if n.value is not None else ""))

    def s_RaiseStatNode(self, n):
        s = "raise"
        if n.exc_type is not None:
            s += " " + self.e(n.exc_type)
            if n.exc_value is not None:
                s += "(" + self.e(n.exc_value) + ")"
        self.put(s)

    def s_AssertStatNode(self, n):
        self.put("assert %s" % self.e(n.condition))

    def s_DelStatNode(self, n):
        self.put("del " + ", ".join(self.e(a) for a in n.args))

    def args(self, args, types):
        out = []
        for a in args:
            typ = self.base_type(a.base_type)
            name, _ = self.decl_name(a.declarator)
            if not name:
                # untyped argument: the "type" is the name
                name, typ = a.base_type.name, None
            if typ:
                types[name] = typ
            s = name
            if a.default is not None:
                s += "=" + self.e(a.default)
            out.append((s, name, typ, a))
        return out

    def s_CFuncDefNode(self, n):
        d = n.declarator
        name, _ = self.decl_name(d)
        types = {}
        args = self.args(d.args, types)
        self._func(name, args, types, n.body, self.base_type(n.base_type))

    def s_DefNode(self, n):
        types = {}
        args = self.args(n.args, types)
        self._func(n.name, args, types, n.body, None)

    def _func(self, name, args, types, body, rtype):
        self.put("def %s(%s):" % (name, ", ".join(a[0] for a in args)))
        self.types.append(types)
        self.ind += 1
        for _, a, typ, node in args:
            if typ in ("double", "int", "bint", "float", "long"):
                self.put("%s = %s" % (a, self.conv(typ, a)))
            elif typ == "buffer":
                self.put("%s = %s" % (a, self.conv(typ, a)))
        n = len(self.lines)
        self.stat(body)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1
        self.types.pop()
        self.put("")

    # ------------------------------------------------------- expressions
    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsup("expression " + type(n).__name__)
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return str(n.value)

    def e_FloatNode(self, n):
        return str(n.value)

    def e_BoolNode(self, n):
        return "True" if n.value else "False"

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_BytesNode = e_IdentifierStringNode = e_UnicodeNode

    def e_EllipsisNode(self, n):
        return "..."

    def e_AttributeNode(self, n):
        return "%s.%s" % (self.e(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.e(n.base), self.index(n.index))

    def index(self, i):
        if type(i).__name__ == "TupleNode" and i.args:
            return ", ".join(self.sl(a) for a in i.args) + ("," if len(i.args) == 1 else "")
        return self.sl(i)

    def sl(self, i):
        if type(i).__name__ == "SliceNode":
            f = lambda x: "" if x is None or type(x).__name__ == "NoneNode" else self.e(x)
            s = f(i.start) + ":" + f(i.stop)
            st = f(i.step)
            return s + (":" + st if st else "")
        return self.e(i)

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.e(n.base), self.e(n.start) if n.start is not None else "",
                              self.e(n.stop) if n.stop is not None else "")

    def e_SliceNode(self, n):
        return "slice(%s, %s, %s)" % (self.e(n.start), self.e(n.stop), self.e(n.step))

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        a = []
        if n.positional_args is not None:
            if type(n.positional_args).__name__ != "TupleNode":
                a.append("*" + self.e(n.positional_args))
            else:
                a += [self.e(x) for x in n.positional_args.args]
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                a.append("%s=%s" % (it.key.value, self.e(it.value)))
        return "%s(%s)" % (self.e(n.function), ", ".join(a))

    def e_TupleNode(self, n):
        return "(%s%s)" % (", ".join(self.e(a) for a in n.args), "," if len(n.args) == 1 else "")

    def e_ListNode(self, n):
        return "[%s]" % ", ".join(self.e(a) for a in n.args)

    def bin(self, n, op):
        return "(%s %s %s)" % (self.e(n.operand1), op, self.e(n.operand2))

    def e_AddNode(self, n):
        return self.bin(n, "+")

    def e_SubNode(self, n):
        return self.bin(n, "-")

    def e_MulNode(self, n):
        return self.bin(n, "*")

    def e_PowNode(self, n):
        return self.bin(n, "**")

    def e_IntBinopNode(self, n):
        return self.bin(n, n.operator)

    def e_MatMultNode(self, n):
        return self.bin(n, "@")

    def e_DivNode(self, n):
        if n.operator == "//":
            return "__cy__.floordiv(%s, %s)" % (self.e(n.operand1), self.e(n.operand2))
        return "__cy__.div(%s, %s)" % (self.e(n.operand1), self.e(n.operand2))

    def e_ModNode(self, n):
        return "__cy__.mod(%s, %s)" % (self.e(n.operand1), self.e(n.operand2))

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return "(+%s)" % self.e(n.operand)

    def e_NotNode(self, n):
        return "(not %s)" % self.e(n.operand)

    def e_BoolBinopNode(self, n):
        return self.bin(n, n.operator)

    def e_PrimaryCmpNode(self, n):
        op = n.operator.replace("_", " ")
        s = "%s %s %s" % (self.e(n.operand1), op, self.e(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % (c.operator.replace("_", " "), self.e(c.operand2))
            c = c.cascade
        return "(%s)" % s

    def e_CondExprNode(self, n):
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(n.test), self.e(n.false_val))

    def e_TypecastNode(self, n):
        return self.conv(self.base_type(n.base_type), self.e(n.operand))


def main(path):
    Errors.init_thread()
    with open(path) as f:
        src = f.read()
    tree = parse_from_strings("pyx_module", src)
    w = Writer()
    w.put("import __cy__")
    w.stat(tree)
    print("\n".join(w.lines))


if __name__ == "__main__":
    main(sys.argv[1])
