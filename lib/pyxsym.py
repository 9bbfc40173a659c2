"""Executable (symbolic) form of a .pyx module of the current tree.

The source is parsed with Cython's own parser and turned into Python that keeps
C semantics where they matter: integer variables hold integers, typed buffers
and pointers are accessed without wrap-around and an access outside the buffer
is reported (it would read or write foreign memory)."""
import types

import numpy as np

import symx as S
from symx import E, Unsupported
import npshim


class MemoryViolation(Exception):
    """Access outside a buffer (undefined behaviour in the compiled code)."""


# --------------------------------------------------------------------------
# runtime

class Buf(object):
    def __init__(self, arr, name, check, wrap):
        self.arr = arr
        self.name = name
        self.check = check
        self.wrap = wrap

    @property
    def shape(self):
        return self.arr.shape

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def size(self):
        return self.arr.size

    def _idx(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) != self.arr.ndim or any(
                isinstance(i, slice) or i is None or i is Ellipsis
                for i in k):
            return None
        out = []
        for n, i in enumerate(k):
            i = c_int(i)
            s = self.arr.shape[n]
            if i < 0 and self.wrap:
                i += s
            if not 0 <= i < s:
                if self.check:
                    raise IndexError("index %d out of bounds of %s"
                                     % (i, self.name))
                raise MemoryViolation("%s[%s] with shape %s" % (
                    self.name, ", ".join(map(str, k)), self.arr.shape))
            out.append(i)
        return tuple(out)

    def __getitem__(self, k):
        j = self._idx(k)
        if j is None:
            return self.arr[k]
        v = self.arr[j]
        if self.arr.dtype.kind in "iu":
            return int(v)
        return v

    def __setitem__(self, k, v):
        j = self._idx(k)
        if j is None:
            self.arr[k] = unbuf(v)
        else:
            self.arr[j] = v

    def __len__(self):
        return len(self.arr)

    def __array__(self, *a, **k):
        return np.asarray(self.arr)

    def __getattr__(self, n):
        return getattr(self.arr, n)


def _binop(name):
    def f(self, o):
        return getattr(self.arr, name)(unbuf(o))
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv neg pow").split():
    if _n == "neg":
        Buf.__neg__ = lambda self: -self.arr
    else:
        setattr(Buf, "__%s__" % _n, _binop("__%s__" % _n))


class Ptr(object):
    def __init__(self, store, off, name):
        self.store, self.off, self.name = store, off, name

    def _at(self, k):
        i = self.off + c_int(k)
        if not 0 <= i < len(self.store):
            raise MemoryViolation("%s: element %d of %d" % (
                self.name, i, len(self.store)))
        return i

    def __getitem__(self, k):
        return self.store[self._at(k)]

    def __setitem__(self, k, v):
        self.store[self._at(k)] = v

    def __add__(self, k):
        return Ptr(self.store, self.off + c_int(k), self.name)


class _Flat(object):
    """C-order element access to an array (shares memory)."""
    def __init__(self, arr):
        self.arr = arr

    def __len__(self):
        return self.arr.size

    def __getitem__(self, i):
        return self.arr[np.unravel_index(i, self.arr.shape)]

    def __setitem__(self, i, v):
        self.arr[np.unravel_index(i, self.arr.shape)] = v


def addr(base, k):
    """&base[k]"""
    if isinstance(base, Ptr):
        return base + k
    if isinstance(base, list):
        return Ptr(base, c_int(k), "array")
    if isinstance(base, Buf):
        j = k if isinstance(k, tuple) else (k,)
        shape = base.arr.shape
        off = 0
        for s, i in zip(shape, j):
            off = off*s + c_int(i)
        return Ptr(_Flat(base.arr), off, base.name)
    raise Unsupported("address of %r" % type(base))


def c_int(v):
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, E) and v.op == "c":
        if v.val.denominator == 1:
            return int(v.val)
    raise TypeError("an integer is required, got %r" % (type(v),))


def c_trunc(v):
    if isinstance(v, float):
        return int(v)
    return c_int(v)


def c_double(v):
    if isinstance(v, E):
        return v
    if isinstance(v, (bool, int, np.integer)):
        return float(v) if abs(v) < 2**53 else v
    return v if isinstance(v, float) else npshim.SymFloat(v)


def c_pow(a, b):
    if isinstance(a, float) and isinstance(b, float) and b == int(b):
        b = int(b)
    return a**b


def c_div(a, b):
    return a/b


def unbuf(v):
    return v.arr if isinstance(v, Buf) else v


def mkbuf(v, name, ndim, kind, notnone, check, wrap):
    if isinstance(v, Buf):
        v = v.arr
    if v is None:
        if notnone:
            raise TypeError("Argument '%s' must not be None" % name)
        return None
    if not isinstance(v, np.ndarray):
        raise TypeError("Argument '%s' has incorrect type" % name)
    if v.ndim != ndim:
        raise ValueError("Buffer has wrong number of dimensions (expected "
                         "%d, got %d)" % (ndim, v.ndim))
    if kind == "f" and v.dtype not in (np.dtype(object),
                                       np.dtype(np.double)):
        raise ValueError("Buffer dtype mismatch, expected 'double'")
    if kind == "i" and v.dtype != np.dtype(np.intc):
        raise ValueError("Buffer dtype mismatch, expected 'int'")
    return Buf(v, name, check, wrap)


RT = dict(__addr=addr, __int=c_int, __trunc=c_trunc, __dbl=c_double,
          __pow=c_pow, __div=c_div, __unbuf=unbuf, __mkbuf=mkbuf)

_libc = npshim.MathShim()


def _libc_get(name):
    if name == "M_PI":
        return S.PI
    consts = {"M_PI_2": S.PI/2, "M_PI_4": S.PI/4, "M_1_PI": 1/S.PI,
              "M_2_PI": 2/S.PI}
    if name in consts:
        return consts[name]
    return getattr(_libc, name)


# --------------------------------------------------------------------------
# translation

INTS = {"int", "long", "Py_ssize_t", "size_t", "intc_t", "unsigned", "short",
        "char", "bint", "npy_intp", "intp_t", "int32_t", "int64_t"}
FLOATS = {"double", "dtype_t", "float", "double_t", "float64_t"}


class Tr(object):
    def __init__(self, tree, path):
        self.path = path
        self.out = []
        self.ind = 0
        d = tree.directive_comments
        self.check = bool(d.get("boundscheck", True))
        self.wrap = bool(d.get("wraparound", True))
        self.alias = {}
        self.globals = {}
        self.types = None
        self.stat(tree.body)

    def emit(self, s):
        self.out.append("    "*self.ind + s)

    def err(self, n):
        raise Unsupported("cython construct %s in %s line %s" % (
            type(n).__name__, self.path, n.pos[1] if n.pos else "?"))

    # -- types
    def ctype(self, base, decl=None):
        """-> 'int' | 'double' | ('buf', ndim, kind) | ('ptr', t) |
        ('arr', t, n) | None"""
        bn = type(base).__name__
        if bn == "CSimpleBaseTypeNode":
            nm = base.name
            while nm in self.alias:
                nm = self.alias[nm]
            if nm in INTS or (nm is None and base.is_basic_c_type):
                t = "int"
            elif nm in FLOATS:
                t = "double"
            else:
                t = None
        elif bn == "TemplatedTypeNode":
            kw = {}
            if base.keyword_args is not None:
                for it in base.keyword_args.key_value_pairs:
                    kw[it.key.value] = it.value
            pos = list(base.positional_args)
            dn = getattr(pos[0], "name", None) or \
                getattr(pos[0], "attribute", None) if pos else None
            while dn in self.alias:
                dn = self.alias[dn]
            nd = kw.get("ndim")
            nd = int(nd.value) if nd is not None else (
                int(pos[1].value) if len(pos) > 1 else 1)
            t = ("buf", nd, "i" if dn in INTS else "f")
        elif bn == "MemoryViewSliceTypeNode":
            k = self.ctype(base.base_type_node)
            t = ("buf", len(base.axes), "i" if k == "int" else "f")
        elif bn == "CConstOrVolatileTypeNode" or bn == "CConstTypeNode":
            t = self.ctype(base.base_type)
        else:
            t = None
        d = decl
        while d is not None:
            dn = type(d).__name__
            if dn == "CPtrDeclaratorNode":
                t = ("ptr", t)
                d = d.base
            elif dn == "CArrayDeclaratorNode":
                t = ("arr", t, d.dimension)
                d = d.base
            else:
                break
        return t

    @staticmethod
    def declname(d):
        while type(d).__name__ != "CNameDeclaratorNode":
            d = d.base
        return d.name, d.default

    def coerce(self, t, s, name="", notnone=False):
        if t == "int":
            return "__int(%s)" % s
        if t == "double":
            return "__dbl(%s)" % s
        if isinstance(t, tuple) and t[0] == "buf":
            return "__mkbuf(%s, %r, %d, %r, %r, %r, %r)" % (
                s, name, t[1], t[2], notnone, self.check, self.wrap)
        return s

    # -- statements
    def stats(self, n):
        self.ind += 1
        k = len(self.out)
        if n is not None:
            self.stat(n)
        if len(self.out) == k:
            self.emit("pass")
        self.ind -= 1

    def stat(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.err(n)
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_PassStatNode(self, n):
        self.emit("pass")

    def s_GlobalNode(self, n):
        self.emit("global " + ", ".join(n.names))

    def s_CImportStatNode(self, n):
        nm = n.as_name or n.module_name.split(".")[0]
        if n.module_name == "libc.math":
            self.emit("import math as %s" % nm)

    def s_FromCImportStatNode(self, n):
        if n.module_name == "libc.math":
            for it in n.imported_names:
                nm, as_ = it[1], it[2]
                self.emit("%s = __libc(%r)" % (as_ or nm, nm))
        elif n.module_name in ("libc.stdlib", "libc.string"):
            raise Unsupported("cimport " + n.module_name)

    def s_CTypeDefNode(self, n):
        nm, _ = self.declname(n.declarator)
        b = n.base_type
        base = getattr(b, "name", None)
        if base is None:
            base = "double"
        if nm not in INTS and nm not in FLOATS:
            self.alias[nm] = base

    def s_CDefExternNode(self, n):
        pass

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            nm, default = self.declname(d)
            t = self.ctype(n.base_type, d)
            if self.types is not None:
                self.types[nm] = t
            else:
                self.globals[nm] = t
            if isinstance(t, tuple) and t[0] == "arr":
                k = self.expr(t[2]) if not isinstance(t[2], str) else t[2]
                self.emit("%s = [0.0]*(%s)" % (nm, k))
                if default is not None:
                    self.emit("%s[:] = %s" % (nm, self.expr(default)))
            elif default is not None:
                self.emit("%s = %s" % (nm, self.coerce(
                    t, self.expr(default), nm)))

    def func(self, name, args, body):
        params = []
        old = self.types
        self.types = {}
        pre = []
        for nm, t, default, notnone in args:
            self.types[nm] = t
            params.append(nm + ("=" + self.expr(default)
                                if default is not None else ""))
            c = self.coerce(t, nm, nm, notnone)
            if c != nm:
                pre.append("%s = %s" % (nm, c))
        self.emit("def %s(%s):" % (name, ", ".join(params)))
        self.ind += 1
        for p in pre:
            self.emit(p)
        self.ind -= 1
        if not pre and body is None:
            self.stats(None)
        else:
            self.stats(body)
        self.types = old

    def s_DefNode(self, n):
        args = []
        for a in n.args:
            nm, default = self.declname(a.declarator)
            if not nm:
                nm = a.base_type.name
                t = None
            else:
                t = self.ctype(a.base_type, a.declarator)
            args.append((nm, t, a.default, bool(a.not_none)))
        if n.star_arg or n.starstar_arg:
            self.err(n)
        self.func(n.name, args, n.body)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        name = d.base.name
        args = []
        for a in d.args:
            nm, default = self.declname(a.declarator)
            if not nm:
                nm, t = a.base_type.name, None
            else:
                t = self.ctype(a.base_type, a.declarator)
            args.append((nm, t, a.default, False))
        rt = self.ctype(n.base_type)
        self.func(name, args, n.body)
        if rt in ("int",):
            self.emit("%s = __ret(%s)" % (name, name))

    def s_SingleAssignmentNode(self, n):
        tn = type(n.rhs).__name__
        if tn == "ImportNode":
            nm = n.lhs.name
            mod = n.rhs.module_name.value
            if mod == "cython":
                return
            self.emit("import %s as %s" % (mod, nm))
            return
        self.assign(n.lhs, self.expr(n.rhs))

    def assign(self, lhs, rhs):
        tn = type(lhs).__name__
        if tn in ("TupleNode", "ListNode"):
            tmp = "__t%d" % len(self.out)
            self.emit("%s = tuple(%s)" % (tmp, rhs))
            for i, a in enumerate(lhs.args):
                self.assign(a, "%s[%d]" % (tmp, i))
        elif tn == "NameNode":
            t = (self.types or {}).get(lhs.name)
            if t is None and self.types is None:
                t = self.globals.get(lhs.name)
            self.emit("%s = %s" % (lhs.name, self.coerce(t, rhs, lhs.name)))
        else:
            self.emit("%s = %s" % (self.expr(lhs), rhs))

    def s_CascadedAssignmentNode(self, n):
        tmp = "__t%d" % len(self.out)
        self.emit("%s = %s" % (tmp, self.expr(n.rhs)))
        for l in n.lhs_list:
            self.assign(l, tmp)

    def s_ParallelAssignmentNode(self, n):
        # simultaneous: evaluate all right hand sides first
        tmps = []
        for s in n.stats:
            tmp = "__p%d" % len(self.out)
            self.emit("%s = %s" % (tmp, self.expr(s.rhs)))
            tmps.append((s.lhs, tmp))
        for l, t in tmps:
            self.assign(l, t)

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        lhs = n.lhs
        l, r = self.expr(lhs), self.expr(n.rhs)
        if op == "/":
            e = "__div(%s, %s)" % (l, r)
        elif op == "**":
            e = "__pow(%s, %s)" % (l, r)
        else:
            e = "(%s) %s (%s)" % (l, op, r)
        self.assign(lhs, e)

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ == "ImportNode":
            return
        e = self.expr(n.expr)
        if "import_array" not in e:
            self.emit(e)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        if mod == "__future__":
            return
        for nm, target in n.items:
            self.emit("from %s import %s as %s" % (mod, nm, target.name))

    def s_AssertStatNode(self, n):
        cond = getattr(n, "condition", None)
        if cond is None:
            cond = n.cond
        self.emit("if not (%s):" % self.expr(cond))
        self.ind += 1
        self.emit("raise AssertionError(%s)" % (
            self.expr(n.value) if getattr(n, "value", None) is not None
            else ""))
        self.ind -= 1

    def s_IfStatNode(self, n):
        kw = "if"
        for c in n.if_clauses:
            self.emit("%s %s:" % (kw, self.expr(c.condition)))
            self.stats(c.body)
            kw = "elif"
        if n.else_clause is not None:
            self.emit("else:")
            self.stats(n.else_clause)

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_WithStatNode(self, n):
        self.stat(n.body)

    def s_ForInStatNode(self, n):
        tmp = "__i%d" % len(self.out)
        seq = n.iterator.sequence
        self.emit("for %s in %s:" % (tmp, self.expr(seq)))
        self.ind += 1
        self.assign(n.target, tmp)
        self.ind -= 1
        self.stats(n.body)
        if n.else_clause is not None:
            self.emit("else:")
            self.stats(n.else_clause)

    def s_ForFromStatNode(self, n):
        lo, hi = self.expr(n.bound1), self.expr(n.bound2)
        step = self.expr(n.step) if n.step is not None else "1"
        up = n.relation2 in ("<", "<=")
        lo = "__int(%s)%s" % (lo, {"<": "+1", ">": "-1"}.get(
            n.relation1, ""))
        hi = "__int(%s)%s" % (hi, {"<=": "+1", ">=": "-1"}.get(
            n.relation2, ""))
        self.emit("for %s in range(%s, %s, %s(%s)):" % (
            n.target.name, lo, hi, "" if up else "-", step))
        self.stats(n.body)

    def s_WhileStatNode(self, n):
        self.emit("while %s:" % self.expr(n.condition))
        self.stats(n.body)

    def s_BreakStatNode(self, n):
        self.emit("break")

    def s_ContinueStatNode(self, n):
        self.emit("continue")

    def s_ReturnStatNode(self, n):
        self.emit("return __unbuf(%s)" % (
            self.expr(n.value) if n.value is not None else "None"))

    def s_RaiseStatNode(self, n):
        self.emit("raise %s" % (self.expr(n.exc_type)
                                if n.exc_type is not None else ""))

    # -- expressions
    def expr(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.err(n)
        return m(n)

    def e_NameNode(self, n):
        return str(n.name)

    def e_IntNode(self, n):
        return str(int(str(n.value), 0))

    def e_FloatNode(self, n):
        return repr(float(str(n.value)))

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_NoneNode(self, n):
        return "None"

    def e_NullNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value))

    def e_EllipsisNode(self, n):
        return "Ellipsis"

    def e_TupleNode(self, n):
        return "(" + "".join(self.expr(a) + ", " for a in n.args) + ")"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.expr(a) for a in n.args) + "]"

    def e_DictNode(self, n):
        return "{" + ", ".join("%s: %s" % (
            self.expr(i.key), self.expr(i.value))
            for i in n.key_value_pairs) + "}"

    def e_AttributeNode(self, n):
        return "%s.%s" % (self.expr(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.expr(n.base), self.expr(n.index))

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (
            self.expr(n.base), self.expr(n.start) if n.start else "",
            self.expr(n.stop) if n.stop else "")

    def e_SliceNode(self, n):
        f = lambda x: "None" if x is None else self.expr(x)
        return "slice(%s, %s, %s)" % (f(n.start), f(n.stop), f(n.step))

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == "IndexNode":
            return "__addr(%s, %s)" % (self.expr(o.base), self.expr(o.index))
        self.err(n)

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.expr(n.function), ", ".join(
            self.expr(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        a = [self.expr(i) for i in getattr(pos, "args", [])]
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                a.append("%s=%s" % (it.key.value, self.expr(it.value)))
        return "%s(%s)" % (self.expr(n.function), ", ".join(a))

    def _bin(self, n):
        return "(%s %s %s)" % (self.expr(n.operand1), n.operator,
                               self.expr(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_ModNode = e_IntBinopNode = _bin
    e_BitwiseOrNode = _bin

    def e_DivNode(self, n):
        if n.operator == "//":
            return self._bin(n)
        return "__div(%s, %s)" % (self.expr(n.operand1),
                                  self.expr(n.operand2))

    def e_PowNode(self, n):
        return "__pow(%s, %s)" % (self.expr(n.operand1),
                                  self.expr(n.operand2))

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.expr(n.operand)

    def e_UnaryPlusNode(self, n):
        return "(+%s)" % self.expr(n.operand)

    def e_NotNode(self, n):
        return "(not %s)" % self.expr(n.operand)

    def e_BoolBinopNode(self, n):
        return self._bin(n)

    def e_CondExprNode(self, n):
        t = getattr(n, "condition", None)
        if t is None:
            t = n.test
        return "(%s if %s else %s)" % (
            self.expr(n.true_val), self.expr(t), self.expr(n.false_val))

    def e_PrimaryCmpNode(self, n):
        s = "%s %s %s" % (self.expr(n.operand1), _cmp(n.operator),
                          self.expr(n.operand2))
        c = n.cascade
        while c is not None:
            s += " %s %s" % (_cmp(c.operator), self.expr(c.operand2))
            c = c.cascade
        return "(%s)" % s

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type, n.declarator)
        s = self.expr(n.operand)
        if t == "int":
            return "__trunc(%s)" % s
        if t == "double":
            return "__dbl(%s)" % s
        return s


def _cmp(op):
    return {"is_not": "is not", "not_in": "not in"}.get(op, op)


def parse(path):
    from Cython.Compiler import Parsing, Errors
    from Cython.Compiler.Main import (CompilationOptions, Context,
                                      default_options)
    from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
    Errors.init_thread()
    ctx = Context.from_options(CompilationOptions(default_options))
    sd = FileSourceDescriptor(path, path)
    scope = ctx.find_module("m", pos=(sd, 1, 0), need_pxd=0)
    with open(path, encoding="utf8") as f:
        sc = PyrexScanner(f, sd, source_encoding="utf8", scope=scope,
                          context=ctx)
        return Parsing.p_module(sc, None, "m")


def load_module(path, name="electrode.cexpressions"):
    tr = Tr(parse(path), path)
    src = "\n".join(tr.out) + "\n"
    m = types.ModuleType(name)
    np_ = npshim.NumpyShim()
    import builtins

    def imp(n, g=None, l=None, fl=(), level=0):
        if n == "numpy":
            return np_
        if n == "math":
            return _libc
        return builtins.__import__(n, g, l, fl, level)
    b = types.ModuleType("builtins")
    b.__dict__.update(builtins.__dict__)
    b.__import__ = imp
    b.float = npshim.SymFloat
    # buffers crossing into python calls are handled by Buf itself
    np_.__dict__["import_array"] = lambda: None
    m.__dict__.update(RT)
    m.__dict__["__libc"] = _libc_get
    m.__dict__["__builtins__"] = b
    m.__dict__["__ret"] = lambda f: (lambda *a: c_trunc(f(*a)))
    m.__source__ = src
    exec(compile(src, path + "(py)", "exec"), m.__dict__)
    return m
