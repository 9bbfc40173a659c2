"""Electrodes with arbitrary potentials: every component of every derivative
order at every (symbolic) point is its own real variable.  Used for claims
about code above the kernels; the kernels have their own checks."""
import symx as S
import npshim

_points = {}


def point_id(row):
    k = tuple(S.normalize(S.need(q)).id for q in row)
    return _points.setdefault(k, len(_points))


def unit_name(el, n, p, i):
    return "%s_%d_%d_%d" % (el, n, p, i)


def unit(el, row, n):
    """Unit potential components of order n at the point."""
    p = point_id(row)
    return [S.var(unit_name(el, n, p, i)) for i in range(2*n+1)]


def electrode_class(pkg):
    Base = pkg["electrode"].Electrode

    class AbstractElectrode(Base):
        calls = []

        def potential(self, x, derivative=0, potential=1., out=None):
            if out is None:
                out = npshim.oarr([[S.ZERO]*(2*derivative+1)
                                   for r in x])
            if tuple(out.shape) != (len(x), 2*derivative+1):
                raise ValueError("output shape %s" % (out.shape,))
            for j, row in enumerate(x):
                if len(row) != 3:
                    raise ValueError("points are triples")
                for i, u in enumerate(unit(self.name, row, derivative)):
                    out[j, i] = out[j, i] + potential*u
            return out
    return AbstractElectrode


def harmonic_order2(name):
    return name


NAMES = [[""]] + [s.split() for s in [
    "x y z", "xx xy xz yy yz", "xxy xxz yyz xyy xzz yzz xyz",
    "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz",
    "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz yyzzz"]]


def entry(c, idx):
    """Entry of the full derivative tensor at the axes idx from the stored
    components c, by symmetry and the Laplace equation."""
    n = len(idx)
    name = "".join("xyz"[i] for i in sorted(idx))
    if name in NAMES[n]:
        return c[NAMES[n].index(name)]
    for a in "xyz":
        if name.count(a) >= 2:
            rest = name.replace(a, "", 2)
            o = ["".join(sorted(rest + b + b)) for b in "xyz" if b != a]
            if all(q in NAMES[n] for q in o):
                return -c[NAMES[n].index(o[0])] - c[NAMES[n].index(o[1])]
    raise KeyError(name)


def full(c, n):
    """Dict: axes tuple -> entry."""
    import itertools
    return {ix: entry(c, ix) for ix in itertools.product(range(3), repeat=n)}


def table_electrode(env, points=1):
    """The same for the real package: unit potentials from numbers."""
    import numpy as np
    import electrode.electrode as el

    class TableElectrode(el.Electrode):
        def potential(self, x, derivative=0, potential=1., out=None):
            n = derivative
            if out is None:
                out = np.zeros((len(x), 2*n+1))
            for j in range(len(x)):
                for i in range(2*n+1):
                    out[j, i] += potential*env[unit_name(
                        self.name, n, j % points, i)]
            return out
    return TableElectrode


def units(r, names, points=1, orders=6):
    return {unit_name(e, n, p, i): r.uniform(-1, 1) for e in names
            for n in range(orders) for p in range(points)
            for i in range(2*n+1)}


# -- electrodes with an arbitrary harmonic polynomial ----------------------
def poly_names(el, deg):
    return ["%s_T%d_%d" % (el, n, i) for n in range(deg+1)
            for i in range(2*n+1)]


def poly_comps(get, el, deg, x, n):
    """Reduced components of order n at the point x."""
    import itertools
    out = []
    T = [[get("%s_T%d_%d" % (el, m, i)) for i in range(2*m+1)]
         for m in range(deg+1)]
    for name in NAMES[n]:
        ix = tuple("xyz".index(a) for a in name)
        s = 0*x[0]
        for k in range(deg-n+1):
            f = 1
            for j in range(1, k+1):
                f *= j
            for i, j in itertools.product(range(k+1), repeat=2):
                if i+j > k:
                    continue
                l = k-i-j
                m = 1
                for q in (i, j, l):
                    for p in range(1, q+1):
                        m *= p
                # multinomial k!/(i!j!l!) over k! leaves 1/m
                t = entry(T[n+k], ix + (0,)*i + (1,)*j + (2,)*l)
                for q, p in zip(x, (i, j, l)):
                    for _ in range(p):
                        t = t*q
                s = s + t/m
        out.append(s)
    return out


def poly_class(Base, get, deg, zeros):
    class PolyElectrode(Base):
        def potential(self, x, derivative=0, potential=1., out=None):
            if out is None:
                out = zeros((len(x), 2*derivative+1))
            for j, row in enumerate(x):
                c = poly_comps(get, self.name, deg, list(row), derivative) \
                    if derivative <= deg else [0]*(2*derivative+1)
                for i, u in enumerate(c):
                    out[j, i] = out[j, i] + potential*u
            return out
    return PolyElectrode
