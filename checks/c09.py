"""C09: the compiled kernels never access memory outside the arrays they are
given: inconsistent input raises, consistent input stays inside.

The .pyx source is executed with arrays whose dimensions and integer contents
are symbolic; every element access is an obligation 0 <= index < dimension
that z3 must prove from the path condition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

BOUND = 3


class Access(Exception):
    pass


class World(object):
    def __init__(self, c):
        self.c = c
        self.obl = {}
        self.bad = None


W = None


def _oblige(idx, dim, what):
    """0 <= idx < dim on the current path"""
    i, d = S.lift(idx), S.lift(dim)
    ok = S.band(S.cmp_("<=", S.ZERO, i), S.cmp_("<", i, d))
    W.obl.add((what, S.tob(ok).id))
    if not bool(ok):          # forks; the false side is a violation
        raise Access(what)


class Arr(object):
    """Array with symbolic dimensions; contents from a function."""

    def __init__(self, name, dims, content=None):
        self.name, self.dims, self.content = name, dims, content

    @property
    def shape(self):
        return tuple(self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def __len__(self):
        raise S.Unsupported("len of symbolic array")

    def _idx(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) != len(self.dims):
            raise S.Unsupported("partial index")
        for n, (i, d) in enumerate(zip(k, self.dims)):
            _oblige(i, d, "%s index %d of axis %d" % (self.name, 0, n))
        return k

    def __getitem__(self, k):
        k = self._idx(k)
        if self.content:
            return self.content(*k)
        return 1.

    def __setitem__(self, k, v):
        self._idx(k)


class Row(object):
    """&out[j, 0]"""

    def __init__(self, arr, j, k):
        self.arr, self.j, self.k = arr, j, k
        self.off = k

    def _at(self, i):
        i = S.lift(i) + S.lift(self.k)
        _oblige(self.j, self.arr.dims[0], self.arr.name + " row")
        _oblige(i, self.arr.dims[1], self.arr.name + " column")

    def __getitem__(self, i):
        self._at(i)
        return 1.

    def __setitem__(self, i, v):
        self._at(i)

    def __add__(self, i):
        return Row(self.arr, self.j, S.lift(self.k) + i)


def addr(base, k):
    if isinstance(base, Row):
        return base + k
    j, m = k
    return Row(base, j, m)


def sym_range(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2:
        raise S.Unsupported("range step")
    lo, hi = S.lift(lo), S.lift(hi)
    i = lo
    n = 0
    while bool(S.cmp_("<", i, hi)):
        if n >= BOUND:
            raise S.PathAbort()
        yield i
        i = i + 1
        n += 1


class NP(object):
    double = float64 = float
    intc = int

    @staticmethod
    def zeros(shape, dtype=None):
        for s in shape:
            if bool(S.cmp_("<", S.lift(s), S.ZERO)):
                raise ValueError("negative dimensions are not allowed")
        return Arr("new output", list(shape))

    def __getattr__(self, n):
        raise S.Unsupported("np." + n)


def flt(v):
    return 1.


def cint(v):
    v = S.lift(v)
    if v is None:
        raise TypeError("an integer is required")
    return v


def passbuf(v, name, ndim, kind, notnone, check, wrap):
    if v is None:
        if notnone:
            raise TypeError("None")
        return None
    if v.ndim != ndim:
        raise ValueError("wrong number of dimensions")
    return v


def setup():
    import pyxsym
    path = os.path.join(load.REPO, "electrode", "cexpressions.pyx")
    m = pyxsym.load_module(path)
    g = m.__dict__
    one = lambda *a: 1.
    for k, v in list(g.items()):
        if k in ("__addr", "__int", "__trunc", "__dbl", "__pow", "__div",
                 "__mkbuf", "__unbuf"):
            pass
    g.update({"__addr": addr, "__int": cint, "__trunc": cint, "__dbl": flt,
              "__pow": one, "__div": one, "__mkbuf": passbuf,
              "__unbuf": lambda v: v, "np": NP(), "range": sym_range,
              "xrange": sym_range})
    for k in ("atan2", "sqrt", "fabs", "atan", "fmax", "fmin", "sin", "cos"):
        if k in g:
            g[k] = one
    if "M_PI" in g:
        g["M_PI"] = 1.
    return m


I = lambda n: S.var("#" + n)


def dims(pref, n):
    return [I("%s%d" % (pref, i)) for i in range(n)]


def build(c, kind, giveout):
    """(callable, assumptions): arbitrary shapes with every size up to the
    bound, arbitrary index contents."""
    fn = {"point": "point_potential", "polygon": "polygon_potential",
          "mesh": "mesh_potential"}[kind]
    x = Arr("x", dims("x", 2))
    out = Arr("out", dims("o", 2)) if giveout else None
    n, nm = I("n"), I("nmax")
    if kind == "point":
        a = [x, Arr("points", dims("p", 2)), Arr("areas", dims("a", 1)),
             1., n, nm, 1., out]
        vs = ["x0", "x1", "p0", "p1", "a0"]
    elif kind == "polygon":
        a = [x, [Arr("path", dims("p", 2)), Arr("path2", dims("q", 2))],
             1., n, nm, 1., out]
        vs = ["x0", "x1", "p0", "p1", "q0", "q1"]
    else:
        e = Arr("edges", dims("e", 2), lambda i, j: I("E_%s_%s" % (i, j)))
        pg = Arr("polygons", dims("g", 1), lambda i: I("G_%s" % (i,)))
        a = [x, Arr("points", dims("p", 2)), e, pg,
             Arr("potentials", dims("v", 1)), n, nm, 1., out]
        vs = ["x0", "x1", "p0", "p1", "e0", "e1", "g0", "v0"]
    if giveout:
        vs += ["o0", "o1"]
    asm = [S.cmp_("<=", S.ZERO, I(v)) for v in vs]
    return fn, a, asm, vs


def case(kind, giveout, vs):
    def f(en):
        def r(k, d=0):
            v = en.get(k, d)
            return int(__import__("math").floor(v))
        en = {k.lstrip("#"): v for k, v in en.items()}
        d = dict(kind=kind, giveout=giveout, n=r("n"), nmax=r("nmax"))
        d["dims"] = {v: min(max(0, r(v)), 50) for v in vs}
        d["idx"] = {k: r(k) for k in en if k[:2] in ("E_", "G_")}
        return d
    return f


def body(c):
    global W
    W = c
    c.obl = set()
    m = setup()
    c.encoded("cexpressions.point_potential", "cexpressions.polygon_potential",
              "cexpressions.mesh_potential",
              "cexpressions.edge_potential_expr",
              "cexpressions.point_potential_expr")
    global BOUND
    BOUND = 3 if harness.THOROUGH else 2
    total = good = 0
    for kind in ("point", "polygon", "mesh"):
        for giveout in (False, True):
            fn, a, asm, vs = build(c, kind, giveout)
            nm = I("nmax")
            # images do not index anything: one image is enough
            asm = asm + [S.cmp_("<=", S.ZERO, nm), S.cmp_("<", nm, S.ONE)]
            if kind == "mesh" or not harness.THOROUGH:
                asm.append(S.cmp_("<=", I("x0"), S.ONE))
            done = 0
            for pc, r, exc in c.explore(lambda: getattr(m, fn)(*a), asm,
                                        20000):
                total += 1
                nm_ = "%s%s" % (fn, " with output" if giveout else "")
                if isinstance(exc, Access):
                    rr, env = c.P.check(pc, 10000)
                    if rr == "unsat":
                        continue
                    c.claims += 1
                    if not c._refuted(
                            "%s: %s" % (nm_, exc), "sat", env or {}, None,
                            [], lambda en, e=env: case(kind, giveout, vs)(
                                e or {}), None):
                        break
                elif exc is not None and not isinstance(exc, (
                        AssertionError, ValueError, TypeError, IndexError)):
                    raise exc
                elif exc is None:
                    done += 1
            good += done
            c.fact("%s%s: all element accesses are inside (%d paths)" % (
                fn, " with output" if giveout else "", done), done > 0)
    c.claims += len(c.obl)
    c.proved += ["element access inside"]*len(c.obl)
    c.notes.append("%d access obligations on %d paths (%d completing)" % (
        len(c.obl), total, good))


def replay(case):
    """The real build under AddressSanitizer-free conditions cannot show a
    small overrun, so accesses are made visible by guard pages."""
    import numpy as np
    import mmap, ctypes
    from electrode import cexpressions as cm
    libc = ctypes.CDLL(None, use_errno=True)
    keep = []

    def guarded(shape, dtype, at_end=True, fill=0):
        n = int(np.prod(shape))*np.dtype(dtype).itemsize
        pg = mmap.PAGESIZE
        size = ((n + pg - 1)//pg)*pg
        m = mmap.mmap(-1, size + 2*pg)
        keep.append(m)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        libc.mprotect(ctypes.c_void_p(base), pg, 0)
        libc.mprotect(ctypes.c_void_p(base + pg + size), pg, 0)
        off = pg + (size - n if at_end else 0)
        if n == 0:
            off = pg + size if at_end else pg
        a = np.frombuffer(m, dtype=dtype, count=n//np.dtype(dtype).itemsize,
                          offset=off).reshape(shape) if n else \
            np.ndarray(shape, dtype, buffer=m, offset=off)
        a[...] = fill
        return a
    d, k = case["dims"], case["kind"]
    for end, far in ((True, False), (False, False), (True, True),
                     (False, True)):
        def A(pref, n, dt=np.double, fill=.5):
            return guarded([d["%s%d" % (pref, i)] for i in range(n)], dt,
                           end, fill)
        x = A("x", 2)
        out = A("o", 2, fill=0) if case["giveout"] else None
        try:
            if k == "point":
                cm.point_potential(x, A("p", 2), A("a", 1), 1., case["n"],
                                   case["nmax"], 1., out)
            elif k == "polygon":
                cm.polygon_potential(x, [A("p", 2), A("q", 2)], 1.,
                                     case["n"], case["nmax"], 1., out)
            else:
                e, g = A("e", 2, np.intc, 0), A("g", 1, np.intc, 0)
                for q, v in case["idx"].items():
                    v = max(-2**30, min(2**30, v))
                    # far enough to leave the guarded page
                    if far and v < 0:
                        v = min(v, -2**20)
                    b = q.split("_")
                    try:
                        if b[0] == "E":
                            top = d["p0"]
                            e[int(b[1]), int(b[2])] = v if v < top or not far else \
                                max(v, 2**22)
                        else:
                            g[int(b[1])] = v if v < d["v0"] or not far \
                                else max(v, 2**22)
                    except IndexError:
                        pass
                cm.mesh_potential(x, A("p", 2), e, g, A("v", 1), case["n"],
                                  case["nmax"], 1., out)
        except (AssertionError, ValueError, TypeError, IndexError):
            pass
    return None


def cases(r):
    o = []
    for k in ("point", "polygon", "mesh"):
        for g in (False, True):
            for t in range(30):
                n = r.randrange(6)
                d = dict(x0=r.randrange(1, 3), x1=3, p0=r.randrange(0, 4),
                         p1=2, q0=r.randrange(0, 4), q1=2,
                         e0=r.randrange(0, 3), e1=2, v0=r.randrange(0, 3))
                d["a0"] = d["p0"]
                d["g0"] = d["e0"]
                d["o0"], d["o1"] = d["x0"], 2*n+1
                if r.random() < .5:
                    q = r.choice(sorted(d))
                    d[q] = max(0, d[q] + r.choice([-2, -1, 1]))
                o.append(dict(kind=k, giveout=g, n=n, nmax=r.randrange(2),
                              dims=d, idx={
                                  "E_0_0": r.choice([0, 1, -1, 9]),
                                  "E_1_1": r.choice([0, 1, -1, 9]),
                                  "G_0": r.choice([0, 1, -1, 9])}))
    return o


if __name__ == "__main__":
    harness.main("C09", __file__, body, replay,
                 bounds="every array dimension from 0 up (loops unrolled to "
                 "2, thorough 3 iterations; mesh: one observation point), "
                 "any derivative order, any integer contents of the mesh "
                 "index arrays, output given or not",
                 outside="sizes beyond 2^31; None as a polygon; "
                 "PYTHONOPTIMIZE, which removes the shape assertions",
                 fallback=cases)
