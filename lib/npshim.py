"""Stand-ins for numpy and math used while the real modules are executed on
symbolic reals.  Everything not listed falls through to the real module."""
import math as _math
import types
import builtins

import numpy as real_np

import symx as S
from symx import E, B, PI, lift, need, Unsupported


def is_sym(a):
    """Does this object contain symbolic values?"""
    if isinstance(a, (E, B, S.Cx)):
        return True
    if isinstance(a, real_np.ndarray):
        if a.dtype == object:
            return any(isinstance(i, (E, B, S.Cx)) for i in a.flat)
        return False
    if isinstance(a, (list, tuple)):
        return any(is_sym(i) for i in a)
    return False


def is_nonconst(a):
    if isinstance(a, S.Cx):
        return is_nonconst(a.re) or is_nonconst(a.im)
    if isinstance(a, E):
        return a.op != "c"
    if isinstance(a, B):
        return a.val is None
    if isinstance(a, real_np.ndarray):
        if a.dtype == object:
            return any(is_nonconst(i) for i in a.flat)
        return False
    if isinstance(a, (list, tuple)):
        return any(is_nonconst(i) for i in a)
    return False


def tofloat(a):
    """Object array of constants -> float array."""
    a = real_np.asarray(a)
    if a.dtype != object:
        return a
    return real_np.array([float(i) for i in a.flat], float).reshape(a.shape)


def integral(e):
    """Is the value of this term an integer, by construction?"""
    e = lift(e)
    if e.op == "c":
        return e.val.denominator == 1
    if e.op == "f":
        return e.val == "floor"
    if e.op == "ite":
        return integral(e.args[1]) and integral(e.args[2])
    return e.op in ("+", "*", "neg", "abs") and all(map(integral, e.args))


def trunc(e):
    """int() of a term."""
    e = S.need(lift(e))
    if integral(e):
        return e
    if e.op == "c":
        return S.const(int(e.val))
    return S.ite(S.cmp_("<=", S.ZERO, e), S.fn("floor", e),
                 -S.fn("floor", -e))


def _isint(dtype):
    if dtype is builtins.int:
        return True
    try:
        return real_np.dtype(dtype).kind in "iu"
    except TypeError:
        return False


def _round(a, decimals=0):
    k = S.const(10**decimals) if decimals >= 0 else 1/S.const(10**-decimals)
    return S.fn("floor", S.need(lift(a))*k + S.const(1)/2)/k


class SArr(real_np.ndarray):
    """Object array that ignores conversions to float dtypes."""

    def astype(self, dtype, *a, **k):
        if _isfloat(dtype) or _iscomplex(dtype) and is_sym(self):
            return self.copy()
        if self.dtype == object and not is_nonconst(self):
            return tofloat(self).astype(dtype, *a, **k)
        if self.dtype == object and _isint(dtype):
            out = real_np.empty(self.shape, object)
            for i in real_np.ndindex(*self.shape):
                out[i] = trunc(self[i])
            return out.view(SArr)
        return super().astype(dtype, *a, **k)

    def __array_finalize__(self, o):
        pass

    def __array_wrap__(self, arr, context=None):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SArr) if arr.dtype == object else real_np.asarray(arr)

    def _part(self, name):
        out = real_np.empty(self.shape, object)
        for i in real_np.ndindex(*self.shape):
            out[i] = getattr(self[i], name)
        return out.view(SArr)

    @property
    def real(self):
        return self._part("real") if self.dtype == object else \
            super().real

    @property
    def imag(self):
        return self._part("imag") if self.dtype == object else \
            super().imag

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else (
            self.shape[axis] if not isinstance(axis, tuple) else
            int(real_np.prod([self.shape[i] for i in axis])))
        return self.sum(axis=axis)*lift(1)/n if n else super().mean(axis)

    def tolist(self):
        return real_np.asarray(self).tolist()

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        return super().__bool__()

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce_bool(self, axis, S.bor)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce_bool(self, axis, S.band)

    def round(self, *a, **k):
        if is_nonconst(self):
            out = real_np.empty(self.shape, object)
            for i in real_np.ndindex(*self.shape):
                out[i] = _round(self[i], *a)
            return out.view(SArr)
        return tofloat(self).round(*a, **k)


def _reduce_bool(a, axis, op):
    a = real_np.asarray(a)
    if axis is None:
        # object comparison results are python bools (forked) or B
        r = op(*[S.tob(i) for i in a.flat]) if a.size else (
            S.TRUE if op is S.band else S.FALSE)
        return bool(r)
    m = real_np.moveaxis(a, axis, 0)
    out = real_np.empty(m.shape[1:], bool)
    for i in real_np.ndindex(*m.shape[1:]):
        out[i] = bool(op(*[S.tob(x) for x in m[(slice(None),) + i]]))
    return out


def _isfloat(dtype):
    if dtype is None:
        return False
    if dtype is SymFloat or dtype is builtins.float:
        return True
    try:
        return real_np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _iscomplex(dtype):
    if dtype is None:
        return False
    try:
        return real_np.dtype(dtype).kind == "c"
    except TypeError:
        return False


def oarr(a):
    """View as SArr of objects, elements lifted."""
    a = real_np.asarray(a)
    out = real_np.empty(a.shape, object)
    for i in real_np.ndindex(*a.shape):
        v = a[i]
        l = None if S._inf(v) else lift(v)
        out[i] = v if l is None else l
    return out.view(SArr)


def _fixdtype(dtype):
    if dtype is SymFloat:
        return real_np.double
    return dtype


class _MetaFloat(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, E))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, E))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_MetaFloat):
    """float() that keeps symbolic values."""
    def __new__(cls, x=0.):
        if isinstance(x, E):
            return x
        if isinstance(x, real_np.ndarray) and x.dtype == object \
                and x.size == 1:
            return lift(x.flat[0])
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _LinAlg(object):
    LinAlgError = real_np.linalg.LinAlgError

    def __init__(self):
        self.stubs = {}

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not is_sym(x):
            return real_np.linalg.norm(x, ord, axis, keepdims)
        if ord not in (None, 2, "fro"):
            raise Unsupported("norm ord")
        x = oarr(x)
        s = (x*x).sum(axis=axis)
        return S.sqrt(s) if isinstance(s, E) else real_np.sqrt(s)

    def det(self, a):
        if not is_sym(a):
            return real_np.linalg.det(a)
        a = oarr(a)
        n = a.shape[0]
        return _det([[a[i, j] for j in range(n)] for i in range(n)])

    def inv(self, a):
        if "inv" in self.stubs:
            return self.stubs["inv"](a)
        if not is_sym(a):
            return real_np.linalg.inv(a)
        a = oarr(a)
        if a.ndim != 2:
            raise Unsupported("batched inv")
        n = a.shape[0]
        if n > 4:
            raise Unsupported("inv of %dx%d" % a.shape)
        m = [[a[i, j] for j in range(n)] for i in range(n)]
        d = _det(m)
        if n == 1:
            return oarr([[1/d]])
        out = real_np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                mm = [[m[r][c] for c in range(n) if c != j]
                      for r in range(n) if r != i]
                out[j, i] = _det(mm)*(-1)**(i+j)/d
        return out.view(SArr)

    def solve(self, a, b):
        if "solve" in self.stubs:
            return self.stubs["solve"](a, b)
        if not is_sym(a) and not is_sym(b):
            return real_np.linalg.solve(a, b)
        return real_np.dot(self.inv(a), b)

    def __getattr__(self, name):
        if name in self.stubs:
            return self.stubs[name]
        f = getattr(real_np.linalg, name)
        if not callable(f):
            return f

        def g(*a, **k):
            if any(is_nonconst(i) for i in a):
                raise Unsupported("linalg.%s of symbolic values" % name)
            return f(*[tofloat(i) if is_sym(i) else i for i in a], **k)
        return g


def _det(m):
    n = len(m)
    if n == 0:
        return S.ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0]*m[1][1] - m[0][1]*m[1][0]
    r = S.ZERO
    for j in range(n):
        if isinstance(m[0][j], E) and m[0][j] is S.ZERO:
            continue
        mm = [row[:j] + row[j+1:] for row in m[1:]]
        r = r + m[0][j]*_det(mm)*(-1)**j
    return r


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__.update(dict(
            pi=PI, linalg=_LinAlg(),
            zeros=self._filled(0), ones=self._filled(1),
            empty=self._filled(0),
            zeros_like=self._like(0), ones_like=self._like(1),
            empty_like=self._like(0),
        ))
        self.overrides = {}

    def __getattr__(self, name):
        if name in ("bool", "int", "float", "complex", "object"):
            # removed aliases: fail the way the real numpy does
            return getattr(real_np, name)
        return getattr(real_np, name)

    # -- constructors
    @staticmethod
    def _filled(v):
        def f(shape, dtype=float, order="C", **k):
            if dtype is None:
                dtype = float
            if _isfloat(dtype) or _iscomplex(dtype) and S.exploring():
                a = real_np.empty(shape, object)
                a.fill(S.const(v))
                return a.view(SArr)
            return {0: real_np.zeros, 1: real_np.ones}[v](shape, dtype)
        return f

    @staticmethod
    def _like(v):
        def f(a, dtype=None, **k):
            b = real_np.asarray(a)
            if dtype is None:
                dtype = float if b.dtype == object else b.dtype
            return NumpyShim._filled(v)(b.shape, dtype)
        return f

    def full(self, shape, v, dtype=None, **k):
        if is_sym(v) or isinstance(v, builtins.float) or _isfloat(dtype):
            a = real_np.empty(shape, object)
            a[...] = lift(v) if lift(v) is not None else v
            return a.view(SArr)
        return real_np.full(shape, v, dtype)

    def eye(self, N, M=None, k=0, dtype=float, **kw):
        a = real_np.eye(N, M, k, int)
        return oarr(a) if _isfloat(dtype) else a.astype(dtype)

    def identity(self, n, dtype=float):
        return self.eye(n, dtype=dtype)

    def array(self, a, dtype=None, copy=True, **k):
        if is_sym(a):
            if dtype is not None and not _isfloat(dtype) and \
                    not _iscomplex(dtype) and \
                    dtype is not object:
                if not is_nonconst(a):
                    return tofloat(real_np.array(a, object)).astype(dtype)
                if real_np.dtype(dtype).kind == "b":
                    return real_np.array(
                        [bool(i) for i in real_np.array(a, object).flat]
                    ).reshape(real_np.shape(real_np.array(a, object)))
                raise Unsupported("array dtype %r" % (dtype,))
            b = real_np.array(a, object, copy=True, **{
                x: y for x, y in k.items() if x in ("ndmin",)})
            return oarr(b)
        r = real_np.array(a, _fixdtype(dtype), copy=copy, **k)
        if copy and (_isfloat(dtype) or (dtype is None and
                     r.dtype.kind == "f")) and S.exploring():
            # freshly made float arrays may be assigned symbolic values
            return oarr(r)
        return r

    def asanyarray(self, a, dtype=None, **k):
        if isinstance(a, real_np.ndarray) and a.dtype == object and \
                (dtype is None or _isfloat(dtype)):
            return a if isinstance(a, SArr) else a.view(SArr)
        if is_sym(a):
            return self.array(a, dtype)
        return real_np.asanyarray(a, _fixdtype(dtype))

    asarray = asanyarray
    ascontiguousarray = asanyarray
    asfarray = asanyarray

    def matrix(self, a, dtype=None, copy=True):
        if not is_sym(a) and not S.exploring():
            return real_np.matrix(a, dtype, copy)
        b = real_np.array(a, object)
        if not is_sym(a):
            b = real_np.array(oarr(real_np.array(a, float)
                                   if b.dtype == object else b))
        if dtype is not None and not _isfloat(dtype):
            raise Unsupported("matrix dtype %r" % (dtype,))
        return real_np.matrix(b)

    def asmatrix(self, a, dtype=None):
        return a if isinstance(a, real_np.matrix) \
            else self.matrix(a, dtype)

    mat = asmatrix

    def copy(self, a, **k):
        return real_np.array(a, copy=True, subok=True)

    @property
    def float64(self):
        return SymFloat

    def finfo(self, dtype=float):
        return real_np.finfo(_fixdtype(dtype))

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False,
                 dtype=None, axis=0):
        if not is_sym(start) and not is_sym(stop):
            return real_np.linspace(start, stop, num, endpoint, retstep,
                                    dtype, axis)
        div = (num - 1) if endpoint else num
        step = (stop - start)/div if div > 0 else None
        r = [start + i*(stop - start)/div if div > 0 else start
             for i in range(num)]
        r = oarr(real_np.array(r, object)) if num else \
            real_np.empty(0, object)
        return (r, step) if retstep else r

    @property
    def mgrid(self):
        return _MGrid()

    # -- predicates
    def isfinite(self, a):
        if is_sym(a):
            return True if isinstance(a, E) else real_np.ones(
                real_np.shape(a), bool)
        return real_np.isfinite(a)

    def isnan(self, a):
        if is_sym(a):
            return False if isinstance(a, E) else real_np.zeros(
                real_np.shape(a), bool)
        return real_np.isnan(a)

    isinf = isnan

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not is_sym(a) and not is_sym(b):
            return real_np.isclose(a, b, rtol, atol)
        a, b = real_np.broadcast_arrays(oarr(a), oarr(b))
        out = real_np.empty(a.shape, object)
        for i in real_np.ndindex(*a.shape):
            out[i] = abs(a[i] - b[i]) <= lift(atol) + lift(rtol)*abs(b[i])
        return out[()] if out.ndim == 0 else out.view(SArr)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not is_sym(a) and not is_sym(b):
            return real_np.allclose(a, b, rtol, atol)
        r = self.isclose(a, b, rtol, atol)
        return bool(S.band(*[S.tob(i) for i in real_np.ravel(r)]))

    def any(self, a, axis=None, **k):
        a_ = real_np.asarray(a)
        if a_.dtype != object:
            return real_np.any(a_, axis=axis)
        return _reduce_bool(a_, axis, S.bor)

    def all(self, a, axis=None, **k):
        a_ = real_np.asarray(a)
        if a_.dtype != object:
            return real_np.all(a_, axis=axis)
        return _reduce_bool(a_, axis, S.band)

    def mean(self, a, axis=None, **k):
        if is_sym(a):
            return oarr(a).mean(axis)
        return real_np.mean(a, axis, **k)

    average = mean

    def einsum(self, *args, **k):
        k.pop("dtype", None)
        k.pop("optimize", None)
        if any(is_sym(a) for a in args):
            args = [real_np.asarray(oarr(a)) if isinstance(
                a, (real_np.ndarray, E)) or is_sym(a) else a for a in args]
            r = real_np.einsum(*args, **k)
            return r.view(SArr) if isinstance(r, real_np.ndarray) and \
                r.ndim else (r[()] if isinstance(r, real_np.ndarray) else r)
        return real_np.einsum(*args, **k)

    def tensordot(self, a, b, axes=2):
        if is_sym(a) or is_sym(b):
            return real_np.tensordot(real_np.asarray(oarr(a)),
                                     real_np.asarray(oarr(b)),
                                     axes).view(SArr)
        return real_np.tensordot(a, b, axes)

    def cbrt(self, a):
        raise Unsupported("cbrt")

    def sign(self, a):
        if not is_sym(a):
            return real_np.sign(a)
        def sg(v):
            if v > 0:
                return S.ONE
            if v < 0:
                return S.const(-1)
            return S.ZERO
        if isinstance(a, E):
            return sg(a)
        a = oarr(a)
        out = real_np.empty(a.shape, object)
        for i in real_np.ndindex(*a.shape):
            out[i] = sg(a[i])
        return out.view(SArr)

    def gradient(self, f, *varargs, axis=None, edge_order=1):
        f_ = real_np.asarray(f)
        if f_.dtype != object and not any(is_sym(x) for x in varargs):
            return real_np.gradient(f, *varargs, axis=axis,
                                    edge_order=edge_order)
        f = oarr(f_)
        axes = list(range(f.ndim)) if axis is None else [
            a % f.ndim for a in (axis if isinstance(axis, tuple)
                                 else (axis,))]
        if len(varargs) == 0:
            h = [S.ONE]*len(axes)
        elif len(varargs) == 1 and real_np.ndim(varargs[0]) == 0:
            h = [varargs[0]]*len(axes)
        elif len(varargs) == len(axes):
            h = list(varargs)
        else:
            raise TypeError("invalid number of arguments")
        if any(isinstance(x, real_np.ndarray) and x.ndim for x in h):
            raise Unsupported("gradient with coordinate arrays")
        out = []
        for a, x in zip(axes, h):
            x = lift(x[()] if isinstance(x, real_np.ndarray) else x)
            g = real_np.moveaxis(f, a, 0)
            n = len(g)
            if n < edge_order + 1:
                raise ValueError("Shape of array too small to calculate a "
                                 "numerical gradient")
            d = real_np.empty(g.shape, object)
            for k in range(1, n-1):
                d[k] = (g[k+1] - g[k-1])/(2*x)
            if edge_order == 1:
                d[0], d[-1] = (g[1] - g[0])/x, (g[-1] - g[-2])/x
            else:
                d[0] = (-3*g[0] + 4*g[1] - g[2])/(2*x)
                d[-1] = (3*g[-1] - 4*g[-2] + g[-3])/(2*x)
            out.append(real_np.moveaxis(d, 0, a).view(SArr))
        return out[0] if len(out) == 1 else out

    def interp(self, *a, **k):
        if any(is_sym(i) for i in a):
            raise Unsupported("interp")
        return real_np.interp(*a, **k)

    def nan_to_num(self, a, *r, **k):
        if is_sym(a):
            return a
        return real_np.nan_to_num(a, *r, **k)

    def negative(self, a, out=None, **k):
        if is_sym(a):
            r = -oarr(a) if not isinstance(a, E) else -a
            if out is not None:
                out[...] = r
                return out
            return r
        return real_np.negative(a, out, **k)


class _MGrid(object):
    """numpy.mgrid for slices with symbolic ends and numbers of points."""

    def __getitem__(self, key):
        one = isinstance(key, slice)
        sl = [key] if one else list(key)
        if not any(is_sym(q) for k in sl for q in (k.start, k.stop, k.step)):
            return real_np.mgrid[key]
        axes = []
        for k in sl:
            start = 0 if k.start is None else k.start
            step = 1 if k.step is None else k.step
            if not isinstance(step, builtins.complex):
                raise Unsupported("mgrid with symbolic steps")
            n = int(abs(step))
            d = (k.stop - start)/lift(n-1) if n > 1 else 0
            axes.append([lift(start + i*d) for i in range(n)])
        out = real_np.empty((len(axes),) + tuple(map(len, axes)), object)
        for i in real_np.ndindex(*out.shape[1:]):
            for a, k in enumerate(i):
                out[(a,) + i] = axes[a][k]
        return (out[0] if one else out).view(SArr)


# ufuncs numpy cannot run on objects by method call, elementwise
def _elementwise(name, f):
    def g(self, a, *rest, **k):
        if is_sym(a):
            if isinstance(a, E):
                return f(a)
            a = oarr(a)
            out = k.get("out")
            if out is None and rest:
                out = rest[0]
            r = real_np.empty(a.shape, object)
            for i in real_np.ndindex(*a.shape):
                r[i] = f(a[i])
            if out is not None:
                out[...] = r
                return out
            return r[()] if r.ndim == 0 else r.view(SArr)
        return getattr(real_np, name)(a, *rest, **k)
    g.__name__ = name
    return g


for _n, _f in [("fabs", S.absf), ("absolute", S.absf), ("abs", S.absf),
               ("floor", lambda a: S.fn("floor", a)),
               ("ceil", lambda a: -S.fn("floor", -a)),
               ("rint", lambda a: _round(a)),
               ("trunc", lambda a: trunc(a)), ("fix", lambda a: trunc(a)),
               ("sqrt", S.sqrt), ("square", lambda a: a*a),
               ("cos", lambda a: S.fn("cos", a)),
               ("sin", lambda a: S.fn("sin", a)),
               ("tan", lambda a: S.fn("tan", a)),
               ("exp", lambda a: S.fn("exp", a)),
               ("log", lambda a: S.fn("log", a)),
               ("arccos", lambda a: S.fn("acos", a)),
               ("arcsin", lambda a: S.fn("asin", a)),
               ("arctan", lambda a: S.fn("atan", a)),
               ("deg2rad", lambda a: a*PI/180),
               ("radians", lambda a: a*PI/180),
               ("rad2deg", lambda a: a*180/PI),
               ("degrees", lambda a: a*180/PI),
               ("real", lambda a: a), ("imag", lambda a: S.ZERO),
               ("conj", lambda a: a), ("conjugate", lambda a: a),
               ]:
    setattr(NumpyShim, _n, _elementwise(_n, _f))


def _around(self, a, decimals=0, out=None):
    if is_sym(a) and is_nonconst(a):
        if isinstance(a, E):
            return _round(a, decimals)
        return oarr(a).round(decimals)
    return real_np.around(tofloat(a) if is_sym(a) else a, decimals)


NumpyShim.around = NumpyShim.round = NumpyShim.round_ = _around


class MathShim(types.ModuleType):
    pi = PI

    def __init__(self):
        super().__init__("math")
        self.__dict__["pi"] = PI
        self.__dict__["tau"] = 2*PI

    def __getattr__(self, name):
        return getattr(_math, name)


def _m1(name, f):
    def g(*a):
        if any(isinstance(i, real_np.ndarray) and i.dtype == object
               and i.size == 1 for i in a):
            a = [i.flat[0] if isinstance(i, real_np.ndarray) else i
                 for i in a]
        if any(isinstance(i, E) for i in a):
            return f(*[need(i) for i in a])
        return getattr(_math, name)(*a)
    return staticmethod(g)


for _n, _f in [("sqrt", S.sqrt), ("fabs", S.absf),
               ("cos", lambda a: S.fn("cos", a)),
               ("sin", lambda a: S.fn("sin", a)),
               ("tan", lambda a: S.fn("tan", a)),
               ("atan", lambda a: S.fn("atan", a)),
               ("acos", lambda a: S.fn("acos", a)),
               ("asin", lambda a: S.fn("asin", a)),
               ("atan2", lambda a, b: S.fn("atan2", a, b)),
               ("exp", lambda a: S.fn("exp", a)),
               ("log", lambda a: S.fn("log", a)),
               ("pow", lambda a, b: a**b),
               ("hypot", lambda a, b: S.sqrt(a*a+b*b)),
               ("radians", lambda a: a*PI/180),
               ("degrees", lambda a: a*180/PI),
               ("floor", lambda a: S.fn("floor", a)),
               ("isnan", lambda a: False), ("isinf", lambda a: False),
               ("isfinite", lambda a: True),
               ("copysign", lambda a, b: S.ite(S.cmp_("<=", S.ZERO, b),
                                               S.absf(a), -S.absf(a)))]:
    setattr(MathShim, _n, _m1(_n, _f))
