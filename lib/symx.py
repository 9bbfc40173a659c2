"""Symbolic real terms, symbolic booleans and a path explorer.

A term is a hash-consed DAG over exact rationals.  The real Python functions of
the code under check are executed on these terms (through numpy object arrays);
what comes back is the exact real-valued function the code computes, on every
path.  z3 decides about it (module `prove`).
"""
import math
import sys
from fractions import Fraction
import functools

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """The encoding cannot represent what the code did (no verdict)."""


class PathAbort(BaseException):
    """Current path is infeasible/abandoned."""


# --------------------------------------------------------------------------
# terms

_table = {}
_counter = [0]


def clear_terms():
    """Forget the interning table (terms alive keep working)."""
    _table.clear()


class E(object):
    __slots__ = ("op", "args", "val", "id", "__weakref__")

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, o, mod=None):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __abs__(self):
        return absf(self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return fn("floor", div(self, o))

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return add(self, neg(mul(o, fn("floor", div(self, o)))))

    def __rmod__(self, o):
        return lift(o) % self

    def __rfloordiv__(self, o):
        return lift(o) // self

    # -- comparison ---------------------------------------------------------
    def __lt__(self, o):
        o = o if _inf(o) else lift(o)
        return NotImplemented if o is None else cmp_("<", self, o)

    def __le__(self, o):
        o = o if _inf(o) else lift(o)
        return NotImplemented if o is None else cmp_("<=", self, o)

    def __gt__(self, o):
        o = o if _inf(o) else lift(o)
        return NotImplemented if o is None else cmp_("<", o, self)

    def __ge__(self, o):
        o = o if _inf(o) else lift(o)
        return NotImplemented if o is None else cmp_("<=", o, self)

    def __eq__(self, o):
        o = o if _inf(o) else lift(o)
        return False if o is None else cmp_("==", self, o)

    def __ne__(self, o):
        o = o if _inf(o) else lift(o)
        return True if o is None else bnot(cmp_("==", self, o))

    __hash__ = object.__hash__

    # -- conversions --------------------------------------------------------
    def __bool__(self):
        return bool(bnot(cmp_("==", self, ZERO)))

    def __float__(self):
        if self.op == "c":
            return float(self.val)
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        if self.op == "c":
            return int(self.val)
        raise Unsupported("int() of a symbolic real")

    def __index__(self):
        if self.op == "c" and self.val.denominator == 1:
            return int(self.val)
        raise TypeError("symbolic real used as an index")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic real")

    def __repr__(self):
        return show(self)

    # -- numpy object-ufunc hooks -------------------------------------------
    def sqrt(self):
        return sqrt(self)

    def fabs(self):
        return absf(self)

    def square(self):
        return mul(self, self)

    def conjugate(self):
        return self

    def conj(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def arctan2(self, o):
        return fn("atan2", self, lift(o))

    def rint(self):
        raise Unsupported("rint of a symbolic real")

    def floor(self):
        return fn("floor", self)

    def hypot(self, o):
        o = lift(o)
        return sqrt(self*self + o*o)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        if self.op == "c":
            return self.val.denominator == 1
        raise Unsupported("is_integer of a symbolic real")

    def deg2rad(self):
        return self*PI/180

    def rad2deg(self):
        return self*180/PI

    radians = deg2rad
    degrees = rad2deg


def _mkfn(name):
    def f(self):
        return fn(name, self)
    f.__name__ = name
    return f


E.__format__ = lambda self, spec: str(self)


class Cx(object):
    """A complex number with symbolic parts."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=None):
        if isinstance(re, Cx):
            re, im = re.re, re.im
        elif im is None:
            r = lift(re)
            if r is None:
                c = complex(re)
                re, im = c.real, c.imag
            else:
                re, im = r, ZERO
        self.re, self.im = need(re), need(im)

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)

    def conj(self):
        return Cx(self.re, neg(self.im))
    conjugate = conj

    def __neg__(self):
        return Cx(neg(self.re), neg(self.im))

    def __pos__(self):
        return self

    def __abs__(self):
        return sqrt(self.re*self.re + self.im*self.im)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __bool__(self):
        return bool(bnot(band(cmp_("==", self.re, ZERO),
                              cmp_("==", self.im, ZERO))))

    def __repr__(self):
        return "(%r + %r j)" % (self.re, self.im)

    def _op(name):
        def f(self, o):
            o = _cx(o)
            return NotImplemented if o is None else _cops[name](self, o)

        def g(self, o):
            o = _cx(o)
            return NotImplemented if o is None else _cops[name](o, self)
        return f, g
    __add__, __radd__ = _op("add")
    __sub__, __rsub__ = _op("sub")
    __mul__, __rmul__ = _op("mul")
    __truediv__, __rtruediv__ = _op("div")

    def __eq__(self, o):
        o = _cx(o)
        return False if o is None else band(
            cmp_("==", self.re, o.re), cmp_("==", self.im, o.im))

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else bnot(r)
    __hash__ = object.__hash__


def _cx(o):
    if isinstance(o, Cx):
        return o
    if lift(o) is not None or isinstance(o, complex):
        return Cx(o)
    try:
        import numpy as np
        return Cx(complex(o)) if isinstance(o, np.complexfloating) else None
    except TypeError:
        return None


def _cdiv(a, b):
    n = b.re*b.re + b.im*b.im
    return Cx((a.re*b.re + a.im*b.im)/n, (a.im*b.re - a.re*b.im)/n)


_cops = dict(
    add=lambda a, b: Cx(a.re + b.re, a.im + b.im),
    sub=lambda a, b: Cx(a.re - b.re, a.im - b.im),
    mul=lambda a, b: Cx(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re),
    div=_cdiv)


def _cxop(name):
    old = getattr(E, name)
    new = getattr(Cx, name)

    def f(self, o):
        r = old(self, o)
        if r is NotImplemented and (isinstance(o, complex) or
                                    isinstance(o, Cx)):
            return new(Cx(self), o)
        return r
    setattr(E, name, f)


for _n in ("add", "sub", "mul", "truediv"):
    _cxop("__%s__" % _n)
    _cxop("__r%s__" % _n)

for _n, _m in [("cos", "cos"), ("sin", "sin"), ("tan", "tan"),
               ("exp", "exp"), ("log", "log"), ("arctan", "atan"),
               ("arccos", "acos"), ("arcsin", "asin"),
               ("cosh", "cosh"), ("sinh", "sinh"), ("tanh", "tanh")]:
    setattr(E, _n, _mkfn(_m))


def _mk(op, args, val):
    key = (op, tuple(a.id for a in args), val)
    r = _table.get(key)
    if r is None:
        r = E.__new__(E)
        r.op = op
        r.args = args
        r.val = val
        _counter[0] += 1
        r.id = _counter[0]
        _table[key] = r
    return r


def const(v):
    return _mk("c", (), Fraction(v))


def var(name):
    return _mk("v", (), name)


ZERO = const(0)
ONE = const(1)
PI = _mk("v", (), "pi")


@functools.lru_cache(maxsize=100000)
def _from_float(f):
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant %r in a symbolic expression" % f)
    if f == int(f) and abs(f) < 2**53:
        return const(int(f))
    # simplest rational that rounds to this double
    fr = Fraction(f)
    for d in (100, 10000, 1000000):
        q = fr.limit_denominator(d)
        if q and abs(float(q) - f) <= 2e-16*abs(f):
            return const(q)
    for k in (1, 2, -1):
        # rational multiples of powers of pi written as a double
        q = Fraction(f/math.pi**k).limit_denominator(720)
        if q and abs(q.numerator) < 10000 and \
                abs(float(q)*math.pi**k - f) <= 4e-16*abs(f):
            return mul(const(q), power(PI, const(k)))
    q = Fraction(f*f).limit_denominator(200)
    if q and 0 < q < 1000 and abs(math.sqrt(q) - abs(f)) <= 3e-16*abs(f):
        s = sqrt(const(q))
        return s if f > 0 else neg(s)
    return const(Fraction(repr(f)))


def lift(o):
    if isinstance(o, E):
        return o
    if isinstance(o, bool):
        return const(int(o))
    if isinstance(o, int):
        return const(o)
    if isinstance(o, float):
        return _from_float(float(o))
    if isinstance(o, Fraction):
        return const(o)
    if isinstance(o, B):
        return const(int(bool(o)))
    t = type(o).__module__
    if t == "numpy":
        import numpy as np
        if isinstance(o, np.bool_):
            return const(int(o))
        if isinstance(o, np.integer):
            return const(int(o))
        if isinstance(o, np.floating):
            return _from_float(float(o))
        if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
            return lift(o.item())
    return None


def need(o):
    r = lift(o)
    if r is None:
        raise Unsupported("not a real: %r" % (type(o),))
    return r


def add(a, b):
    if a.op == "c":
        if a.val == 0:
            return b
        if b.op == "c":
            return const(a.val + b.val)
    if b.op == "c" and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("+", (a, b), None)


def neg(a):
    if a.op == "c":
        return const(-a.val)
    return mul(const(-1), a)


def mul(a, b):
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.val == 0:
            return ZERO
        if a.val == 1:
            return b
        if b.op == "c":
            return const(a.val*b.val)
        if b.op == "*" and b.args[0].op == "c":
            return mul(const(a.val*b.args[0].val), b.args[1])
        return _mk("*", (a, b), None)
    if a.id > b.id:
        a, b = b, a
    # keep constants in front
    if a.op == "*" and a.args[0].op == "c":
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == "*" and b.args[0].op == "c":
        return mul(b.args[0], mul(a, b.args[1]))
    return _mk("*", (a, b), None)


def div(a, b):
    if b.op == "c":
        if b.val == 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        return mul(const(1/b.val), a)
    if a.op == "c" and a.val == 0:
        return ZERO
    if a is b:
        # defined only where b != 0; definedness is part of the encoding
        return _mk("/", (a, b), None)
    return _mk("/", (a, b), None)


def power(a, b):
    if b.op != "c":
        raise Unsupported("symbolic exponent")
    n = b.val
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if n == 1:
            return a
        if a.op == "c":
            if a.val == 0 and n < 0:
                raise ZeroDivisionError
            return const(a.val**n)
        if n < 0:
            return div(ONE, power(a, const(-n)))
        if a.op == "*" and a.args[0].op == "c":
            return mul(const(a.args[0].val**n), power(a.args[1], b))
        if a.op == "abs" and n % 2 == 0:
            return power(a.args[0], b)
        if a.op == "sqrt":
            if n % 2 == 0:
                return power(a.args[0], const(n//2))
            if n > 2:
                return mul(power(a.args[0], const(n//2)), a)
        return _mk("^", (a,), n)
    if n.denominator == 2:
        k = int(n - Fraction(1, 2))
        s = sqrt(a)
        if k == 0:
            return s
        if k > 0:
            return mul(power(a, const(k)), s)
        return div(ONE, power(a, const(-n)))
    raise Unsupported("exponent %s" % n)


def sqrt(a):
    a = need(a)
    if a.op == "c":
        v = a.val
        if v < 0:
            raise Unsupported("sqrt of negative constant")
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n*n == v.numerator and d*d == v.denominator:
            return const(Fraction(n, d))
    if a.op == "^" and a.val == 2:
        return absf(a.args[0])
    return _mk("sqrt", (a,), None)


def absf(a):
    if a.op == "c":
        return const(abs(a.val))
    if a.op in ("abs", "sqrt"):
        return a
    if a.op == "*" and a.args[0].op == "c":
        return mul(const(abs(a.args[0].val)), absf(a.args[1]))
    return _mk("abs", (a,), None)


_FOLD0 = {"cos": 1, "sin": 0, "tan": 0, "exp": 1, "atan": 0, "cosh": 1,
          "sinh": 0, "tanh": 0, "asin": 0}


def fn(name, *args):
    args = tuple(need(a) for a in args)
    if len(args) == 1 and args[0].op == "c":
        v = args[0].val
        if name == "floor":
            return const(math.floor(v))
        if v == 0 and name in _FOLD0:
            return const(_FOLD0[name])
        if name == "acos" and v == 1:
            return ZERO
        if name == "log" and v == 1:
            return ZERO
    if name == "atan2" and args[0].op == "c" and args[1].op == "c":
        if args[0].val == 0:
            return ZERO if args[1].val >= 0 else PI
        if args[1].val == 0:
            return div(PI, const(2)) if args[0].val > 0 else \
                neg(div(PI, const(2)))
    if len(args) == 1:
        a = args[0]
        c, rest = (a.args[0].val, a.args[1]) if (
            a.op == "*" and a.args[0].op == "c") else (Fraction(1), a)
        if rest is PI and name in ("cos", "sin"):
            k = c*2
            if k.denominator == 1:
                k = int(k) % 4
                t = {"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[name][k]
                return const(t)
        if c < 0 and name == "cos":
            return fn("cos", mul(const(-c), rest))
        if c < 0 and name in ("sin", "tan", "atan", "sinh", "tanh", "asin"):
            return neg(fn(name, mul(const(-c), rest)))
    return _mk("f", args, name)


def ite(c, a, b):
    a, b = need(a), need(b)
    if isinstance(c, bool):
        return a if c else b
    if c.val is True:
        return a
    if c.val is False:
        return b
    if a is b:
        return a
    return _mk("ite", (c, a, b), None)


def show(e, depth=6):
    if isinstance(e, B):
        return "B(%s)" % e.op
    if e.op == "c":
        return str(e.val)
    if e.op == "v":
        return e.val
    if depth == 0:
        return "..."
    a = [show(x, depth-1) for x in e.args]
    if e.op in "+*/":
        return "(" + (" %s " % e.op).join(a) + ")"
    if e.op == "^":
        return "%s**%d" % (a[0], e.val)
    return "%s(%s)" % (e.val if e.op == "f" else e.op, ", ".join(a))


# --------------------------------------------------------------------------
# symbolic booleans

class B(object):
    __slots__ = ("op", "args", "val", "id")

    def __bool__(self):
        if self.val is not None:
            return self.val
        ex = _explorer[-1] if _explorer else None
        if ex is None:
            raise Unsupported("branch on a symbolic condition outside an "
                              "exploration")
        return ex.decide(self)

    def __and__(self, o):
        return band(self, tob(o))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, tob(o))
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        o = tob(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return lift(self)*o
    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        return bnot(self ^ tob(o))

    def __ne__(self, o):
        return self ^ tob(o)

    __hash__ = object.__hash__

    def __repr__(self):
        return "B(%s)" % self.op

    def any(self):
        return self

    def all(self):
        return self

    def logical_not(self):
        return bnot(self)

    def logical_and(self, o):
        return band(self, tob(o))

    def logical_or(self, o):
        return bor(self, tob(o))


def _mkb(op, args, val=None):
    key = ("B", op, tuple(a.id for a in args), val)
    r = _table.get(key)
    if r is None:
        r = B.__new__(B)
        r.op, r.args, r.val = op, args, val
        _counter[0] += 1
        r.id = _counter[0]
        _table[key] = r
    return r


TRUE = _mkb("true", (), True)
FALSE = _mkb("false", (), False)


def tob(x):
    if isinstance(x, B):
        return x
    if isinstance(x, E):
        return bnot(cmp_("==", x, ZERO))
    return TRUE if bool(x) else FALSE


def bvar(name):
    key = ("Bv", name)
    r = _table.get(key)
    if r is None:
        r = B.__new__(B)
        r.op, r.args, r.val = "bv", (), None
        _counter[0] += 1
        r.id = _counter[0]
        _table[key] = r
        _bnames[r.id] = name
    return r


_bnames = {}


def _inf(a):
    import numpy as np
    return isinstance(a, (float, np.floating)) and not isinstance(a, E) and \
        float(a) in (float("inf"), float("-inf"))


def cmp_(op, a, b):
    if _inf(a) or _inf(b):
        # terms are finite
        x, y = (float(q) if _inf(q) else 0. for q in (a, b))
        return TRUE if {"<": x < y, "<=": x <= y, "==": x == y}[op] \
            else FALSE
    a, b = need(a), need(b)
    if a.op == "c" and b.op == "c":
        r = {"<": a.val < b.val, "<=": a.val <= b.val,
             "==": a.val == b.val}[op]
        return TRUE if r else FALSE
    if a is b:
        return FALSE if op == "<" else TRUE
    if op == "<" and b.op == "c" and b.val <= 0 and a.op == "abs":
        return FALSE
    return _mkb(op, (a, b))


def bnot(a):
    a = tob(a)
    if a.val is not None:
        return FALSE if a.val else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<":
        return _mkb("<=", (a.args[1], a.args[0]))
    if a.op == "<=":
        return _mkb("<", (a.args[1], a.args[0]))
    return _mkb("not", (a,))


def band(*xs):
    out = []
    for x in xs:
        x = tob(x)
        if x is FALSE:
            return FALSE
        if x is not TRUE:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mkb("and", tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        x = tob(x)
        if x is TRUE:
            return TRUE
        if x is not FALSE:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mkb("or", tuple(out))


# --------------------------------------------------------------------------
# exploration

_explorer = []


class Explorer(object):
    """Depth-first exploration by re-execution.

    `run(fun)` calls fun once per feasible path, and yields
    (path_condition, result or exception).
    """

    def __init__(self, assume=(), feasible=None, max_paths=2000):
        self.assume = [tob(a) for a in assume]
        self.feasible = feasible
        self.max_paths = max_paths
        self.paths = 0
        self.queries = 0
        self.truncated = False

    def decide(self, cond):
        # already implied syntactically on this path?
        for c, v in self.trace:
            if c is cond:
                return v
        nc = bnot(cond)
        for c, v in self.trace:
            if c is nc:
                return not v
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((cond, v))
            return v
        pc = self.assume + [c if v else bnot(c) for c, v in self.trace]
        can_t = self._feas(pc + [cond])
        can_f = self._feas(pc + [nc]) if can_t else True
        if can_t and can_f:
            self.todo.append([v for _, v in self.trace] + [False])
            v = True
        else:
            v = bool(can_t)
            # forced: still record so re-execution is aligned
        self.trace.append((cond, v))
        return v

    def _feas(self, conds):
        if self.feasible is None:
            return True
        self.queries += 1
        return self.feasible(conds)

    def run(self, fun):
        self.todo = [[]]
        while self.todo:
            if self.paths >= self.max_paths:
                self.truncated = True
                raise Unsupported("more than %d paths" % self.max_paths)
            self.prefix = self.todo.pop()
            self.trace = []
            _explorer.append(self)
            try:
                try:
                    res, exc = fun(), None
                except PathAbort:
                    continue
                except Unsupported:
                    raise
                except Exception as e:
                    res, exc = None, e
            finally:
                _explorer.pop()
            self.paths += 1
            pc = self.assume + [c if v else bnot(c) for c, v in self.trace]
            yield pc, res, exc


def exploring():
    return bool(_explorer)


# --------------------------------------------------------------------------
# traversal helpers

def topo(*roots):
    """All nodes below roots, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def rebuild(n, args):
    """Same operator on new arguments."""
    op = n.op
    if isinstance(n, B):
        if op in ("<", "<=", "=="):
            return cmp_(op, *args)
        if op == "not":
            return bnot(args[0])
        if op == "and":
            return band(*args)
        if op == "or":
            return bor(*args)
        return n
    if op in ("c", "v"):
        return n
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "/":
        return div(*args)
    if op == "^":
        return power(args[0], const(n.val))
    if op == "sqrt":
        return sqrt(args[0])
    if op == "abs":
        return absf(args[0])
    if op == "f":
        return fn(n.val, *args)
    if op == "ite":
        return ite(*args)
    raise Unsupported(op)


def subst(e, m):
    """Replace nodes (map node -> node), bottom up.  e: term or list."""
    many = isinstance(e, (list, tuple))
    roots = list(e) if many else [e]
    mm = {k.id: v for k, v in m.items()}
    val = {}
    for n in topo(*roots):
        if n.id in mm:
            val[n.id] = mm[n.id]
        elif not n.args:
            val[n.id] = n
        else:
            val[n.id] = rebuild(n, tuple(val[a.id] for a in n.args))
    r = [val[x.id] for x in roots]
    return r if many else r[0]


def variables(*es):
    return sorted({n.val for n in topo(*es) if isinstance(n, E) and n.op == "v"})


_F = {"cos": math.cos, "sin": math.sin, "tan": math.tan,
      "exp": math.exp, "log": math.log, "atan": math.atan,
      "acos": math.acos, "asin": math.asin, "atan2": math.atan2,
      "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh,
      "floor": math.floor}


def eval1(n, a, env, F=_F):
    """Value of one node from those of its arguments."""
    op = n.op
    if isinstance(n, B):
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "bv":
            return env[_bnames[n.id]]
        if op == "<":
            return a[0] < a[1]
        if op == "<=":
            return a[0] <= a[1]
        if op == "==":
            return a[0] == a[1]
        if op == "not":
            return not a[0]
        if op == "and":
            return all(a)
        if op == "or":
            return any(a)
    if op == "c":
        return float(n.val)
    if op == "v":
        return math.pi if n.val == "pi" and "pi" not in env else env[n.val]
    if op == "+":
        return a[0] + a[1]
    if op == "*":
        return a[0]*a[1]
    if op == "/":
        return a[0]/a[1]
    if op == "^":
        return a[0]**n.val
    if op == "sqrt":
        return math.sqrt(a[0])
    if op == "abs":
        return abs(a[0])
    if op == "f":
        return F[n.val](*a)
    if op == "ite":
        return a[1] if a[0] else a[2]
    raise Unsupported(op)


def evalf(e, env, fns=None):
    """Float evaluation. env: name -> float.  e: term, B, or list."""
    many = isinstance(e, (list, tuple))
    roots = list(e) if many else [e]
    v = {}
    F = _F
    if fns:
        F = dict(_F)
        F.update(fns)
    for n in topo(*roots):
        v[n.id] = eval1(n, [v[x.id] for x in n.args], env, F)
    r = [v[x.id] for x in roots]
    return r if many else r[0]


def diff(e, dv):
    """Symbolic derivative.  dv: map node -> derivative node (for leaves or
    any inner node, e.g. a radius with its chain rule)."""
    many = isinstance(e, (list, tuple))
    roots = list(e) if many else [e]
    dd = {k.id: v for k, v in dv.items()}
    d = {}
    for n in topo(*roots):
        if n.id in dd:
            d[n.id] = dd[n.id]
            continue
        op = n.op
        if op in ("c", "v"):
            d[n.id] = ZERO
            continue
        if isinstance(n, B):
            continue
        if op == "ite":
            d[n.id] = ite(n.args[0], d[n.args[1].id], d[n.args[2].id])
            continue
        da = [d[a.id] for a in n.args]
        if all(x is ZERO for x in da):
            d[n.id] = ZERO
            continue
        a = n.args
        if op == "+":
            r = da[0] + da[1]
        elif op == "*":
            r = da[0]*a[1] + a[0]*da[1]
        elif op == "/":
            # (u/w)' = (u' w - u w')/w^2
            r = (da[0]*a[1] - a[0]*da[1])/(a[1]*a[1]) \
                if da[1] is not ZERO else da[0]/a[1]
        elif op == "^":
            r = const(n.val)*power(a[0], const(n.val-1))*da[0]
        elif op == "sqrt":
            r = da[0]/(2*n)
        elif op == "abs":
            r = da[0]*a[0]/n
        elif op == "f" and n.val == "sin":
            r = fn("cos", a[0])*da[0]
        elif op == "f" and n.val == "cos":
            r = -fn("sin", a[0])*da[0]
        elif op == "f" and n.val == "exp":
            r = n*da[0]
        elif op == "f" and n.val == "atan":
            r = da[0]/(1+a[0]*a[0])
        elif op == "f" and n.val == "atan2":
            y, x = a
            r = (x*da[0] - y*da[1])/(x*x + y*y)
        else:
            raise Unsupported("derivative of %s %s" % (op, n.val))
        d[n.id] = r
    r = [d[x.id] for x in roots]
    return r if many else r[0]


def size(*es):
    return len(topo(*es))


# --------------------------------------------------------------------------
# cheap normal form: collect linear combinations, bottom up

def _lin(e):
    """e as {term id: (term, coefficient)} over the top-level sum."""
    out = {}
    stack = [(e, Fraction(1))]
    c0 = Fraction(0)
    while stack:
        n, k = stack.pop()
        if n.op == "+":
            stack.append((n.args[0], k))
            stack.append((n.args[1], k))
        elif n.op == "c":
            c0 += k*n.val
        elif n.op == "*" and n.args[0].op == "c":
            stack.append((n.args[1], k*n.args[0].val))
        else:
            t, v = out.get(n.id, (n, Fraction(0)))
            out[n.id] = (t, v + k)
    return c0, out


def lincollect(e):
    """Collect equal terms of a sum (exact)."""
    if e.op != "+":
        return e
    c0, out = _lin(e)
    r = const(c0)
    for t, v in sorted(out.values(), key=lambda p: p[0].id):
        if v:
            r = add(r, mul(const(v), t))
    return r


def normalize(e):
    """lincollect at every sum, bottom up; a sum with one common sign is
    left alone.  Value preserving."""
    many = isinstance(e, (list, tuple))
    roots = list(e) if many else [e]
    val = {}
    for n in topo(*roots):
        if not n.args:
            val[n.id] = n
            continue
        m = rebuild(n, tuple(val[a.id] for a in n.args))
        if isinstance(m, E) and m.op == "+":
            m = lincollect(m)
            # canonical sign for even contexts: leading coefficient > 0
        val[n.id] = m
    r = [val[x.id] for x in roots]
    return r if many else r[0]


def pull_linear(e, k):
    """If e is homogeneous of degree one in the variable k by its structure,
    return (k*e(1)) as k, e(1); else None."""
    deg = {}
    for n in topo(e):
        if n is k:
            deg[n.id] = 1
            continue
        a = [deg[x.id] for x in n.args]
        if not any(a):
            deg[n.id] = 0
            continue
        op = n.op
        d = None
        if None in a:
            d = None
        elif op == "+":
            z = [x for x, y in zip(n.args, a) if x is not ZERO]
            d = a[0] if a[0] == a[1] else None
        elif op == "*":
            d = a[0] + a[1]
        elif op == "/":
            d = a[0] - a[1]
        deg[n.id] = d
        if d is None:
            return None
    if deg[e.id] != 1:
        return None
    return subst(e, {k: ONE})
