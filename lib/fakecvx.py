"""Stand-in for cvxopt: expressions are evaluated at the point the "solver"
is going to return, so that everything given to the solver can be read off as
terms (or numbers) in that point.  solve() marks the problem as solved or
not; the point itself comes from the caller."""
import types
import numpy as np


class F(object):
    """Vector of values of functions of the variables."""

    def __init__(self, e):
        self.e = list(e)

    def __len__(self):
        return len(self.e)

    def _bin(self, o, f):
        a = self.e
        if isinstance(o, M):
            b = o.column()
        elif isinstance(o, F):
            b = o.e
        elif isinstance(o, np.ndarray) and o.ndim:
            raise TypeError("arrays are no operands of functions")
        else:
            b = [o]
        if len(a) != len(b):
            if len(a) == 1:
                a = a*len(b)
            elif len(b) == 1:
                b = b*len(a)
            else:
                raise TypeError("incompatible dimensions")
        return F([f(p, q) for p, q in zip(a, b)])

    # numpy scalars and arrays leave the operation to this class
    __array_ufunc__ = None

    def __add__(self, o):
        return self._bin(o, lambda p, q: p + q)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda p, q: p - q)

    def __rsub__(self, o):
        return self._bin(o, lambda p, q: q - p)

    def _scalar(self, o):
        if isinstance(o, (F, M)) or isinstance(o, np.ndarray) and o.ndim:
            raise TypeError("functions are multiplied with numbers")
        return o

    def __mul__(self, o):
        if isinstance(o, F):
            raise TypeError("product of functions")
        return self._bin(self._scalar(o), lambda p, q: p*q)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(self._scalar(o), lambda p, q: p/q)

    def __neg__(self):
        return F([-p for p in self.e])

    def __pos__(self):
        return F(self.e)

    def __abs__(self):
        return F([abs(p) for p in self.e])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return F(self.e[i])
        if isinstance(i, (list, tuple)):
            return F([self.e[j] for j in i])
        return F([self.e[i]])

    def __eq__(self, o):
        return C("==", self - o)

    def __le__(self, o):
        return C("<=", self - o)

    def __ge__(self, o):
        return C("<=", -(self - o))
    __hash__ = object.__hash__

    def value(self):
        return self.e[0] if len(self.e) == 1 else self.e


class C(object):
    """res == 0 or res <= 0."""

    def __init__(self, op, res):
        self.op, self.res = op, res
        self._size = len(res)
        self.multiplier = types.SimpleNamespace(_size=len(res))

    def __bool__(self):
        raise TypeError("a constraint has no truth value")


class M(object):
    def __init__(self, a, size=None, tc="d"):
        a = np.asarray(a.a if isinstance(a, M) else a)
        if a.ndim > 2:
            raise TypeError("buffer format not supported")
        self.a = a.reshape(-1, 1) if a.ndim < 2 else a.copy()
        self.size = self.a.shape

    @property
    def T(self):
        return M(self.a.T)

    def column(self):
        if self.a.shape[1] != 1:
            raise TypeError("not a column")
        return list(self.a[:, 0])

    def __mul__(self, o):
        if isinstance(o, F):
            if self.a.shape[1] != len(o):
                raise TypeError("incompatible dimensions")
            return F([sum((p*q for p, q in zip(r[1:], o.e[1:])),
                          r[0]*o.e[0]) for r in self.a])
        return M(self.a*o)


def dot(a, b):
    if isinstance(b, M) and isinstance(a, F):
        a, b = b, a
    if not (isinstance(a, M) and isinstance(b, F)):
        raise TypeError("dot needs a matrix and a function")
    if not a.a.size:  # as the real one
        raise TypeError("dot needs a nonempty matrix")
    if a.a.shape[0] != len(b):
        raise TypeError("incompatible dimensions")
    return a.T*b


def fsum(a):
    if isinstance(a, F):
        return F([sum(a.e[1:], a.e[0])])
    return sum(a)


class Problem(object):
    def __init__(self, fake, obj, ctrs):
        self.fake = fake
        if not isinstance(obj, F):
            obj = F([obj])
        if len(obj) != 1:
            raise TypeError("objective must have length 1")
        self.objective = obj
        if isinstance(ctrs, C):
            ctrs = [ctrs]
        for k in ctrs:
            if not isinstance(k, C):
                raise TypeError("no constraint: %r" % (k,))
        self.ctrs = list(ctrs)
        self.status = None

    def addconstraint(self, k):
        self.ctrs.append(k)

    def variables(self):
        return list(self.fake.variables)

    def inequalities(self):
        return [k for k in self.ctrs if k.op == "<="]

    def equalities(self):
        return [k for k in self.ctrs if k.op == "=="]

    def constraints(self):
        return list(self.ctrs)

    def solve(self, *a, **k):
        self.fake.problems.append(self)
        self.status = "optimal" if self.fake.succeed() \
            else "primal infeasible"
        for v in self.fake.variables:
            v.solved = self.status == "optimal"


class Fake(object):
    """values(k, n): the n values of the kth variable created."""

    def __init__(self, values, arr, succeed=lambda: True, maxf=None,
                 absf=abs):
        self.problems, self.variables = [], []
        self.values, self.arr, self.succeed = values, arr, succeed
        fake = self

        class variable(F):
            def __init__(s, size=1, name=""):
                F.__init__(s, values(len(fake.variables), size))
                s._size = size
                s.solved = False
                s.name = name
                fake.variables.append(s)

            @property
            def value(s):
                if not s.solved:
                    return None
                return fake.arr([[q] for q in s.e])

        def fmax(*a):
            e = [q for f in a for q in (f.e if isinstance(f, F) else
                                        list(f) if isinstance(f, list)
                                        else [f])]
            if maxf is None:
                return F([max(e)])
            r = e[0]
            for q in e[1:]:
                r = maxf(r, q)
            return F([r])
        m = types.ModuleType("cvxopt.modeling")
        m.variable = variable
        m.dot = dot
        m.sum = fsum
        m.max = fmax
        m.op = lambda obj=0., ctrs=None, name="": Problem(fake, obj,
                                                          ctrs or [])
        c = types.ModuleType("cvxopt")
        c.modeling = m
        c.matrix = M
        c.solvers = types.SimpleNamespace(options={})
        self.modeling, self.cvxopt = m, c

    def reset(self):
        self.problems, self.variables[:] = [], []
