"""C23: electrodes given on a grid: their potential and derivatives are the
multilinear interpolation of the gridded data at the place asked for, and
missing derivative orders are made by finite differences along the right axis
with the right spacing (exact where differences are exact)."""
import itertools
import types
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

SHAPE = (2, 3, 2)
# cells, by axis: inside, and beyond either end
CELLS = [(0, 0, 0), (0, 1, 0), (-1, 1, 0), (1, 0, 0), (0, 2, -1),
         (0, -1, 1), (-1, 2, 1)]
ORDERS = 3
ONES = types.SimpleNamespace


def dname(n, idx, c):
    return "D%d_%d%d%d_%d" % ((n,) + tuple(idx) + (c,))


def gen(r):
    d = {}
    for n in range(ORDERS):
        for idx in itertools.product(*map(range, SHAPE)):
            for c in range(2*n+1):
                d[dname(n, idx, c)] = r.uniform(-1, 1)
    for i in range(3):
        d.update({"o%d" % i: r.uniform(-1, 1), "s%d" % i: r.uniform(.3, 2),
                  "u%d" % i: r.uniform(.01, .99),
                  "w%d" % i: r.uniform(.01, .99)})
    d.update({q: r.uniform(-1, 1) for q in abstract.poly_names("e", 6)})
    d.update(V=r.uniform(-1, 1))
    for i in range(18):
        d["out%d" % i] = r.uniform(-1, 1)
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


def data(get, n, arr):
    import numpy
    a = numpy.empty(SHAPE + (2*n+1,), object)
    for idx in itertools.product(*map(range, SHAPE)):
        for c in range(2*n+1):
            a[idx + (c,)] = get(dname(n, idx, c))
    return arr(a)


def at(get, cell, u):
    return [get("o%d" % i) + (cell[i] + get("%s%d" % (u, i)))*get("s%d" % i)
            for i in range(3)]


def interpolated(get, n, c, cell, u):
    """Interpolation in the cell, beyond the ends the value at the end."""
    s = 0
    for corner in itertools.product((0, 1), repeat=3):
        w, idx = 1, []
        for i, k in enumerate(corner):
            q = get("%s%d" % (u, i))
            f = q if k else 1 - q
            j = cell[i] + k
            idx.append(min(max(j, 0), SHAPE[i]-1))
            w = w*f
        s = s + w*get(dname(n, idx, c))
    return s


def samples(get, n, deg, spacing, shape, arr):
    """Components of order n of a harmonic polynomial on a grid."""
    import numpy
    a = numpy.empty(shape + (2*n+1,), object)
    for idx in itertools.product(*map(range, shape)):
        x = [k*s for k, s in zip(idx, spacing)]
        x = [q + 0*spacing[0] for q in x]
        for c, q in enumerate(abstract.poly_comps(get, "e", deg, x, n)):
            a[idx + (c,)] = q
    return arr(a)


def body(c):
    import npshim, numpy
    v = S.var
    z = S.ZERO
    lift = lambda q: S.need(S.lift(q))

    def map_coordinates(input, coordinates, output=None, order=3,
                        mode="constant", cval=0.0, prefilter=True):
        inp = numpy.array(input)
        co = numpy.array(coordinates)
        if co.shape[0] != inp.ndim:
            raise RuntimeError("invalid shape for coordinate array")
        out = numpy.empty(co.shape[1:], object)
        for p in numpy.ndindex(*co.shape[1:]):
            ax = []
            outside = False
            for d in range(inp.ndim):
                q, n = lift(co[(d,) + p]), inp.shape[d]
                if q <= 0:
                    outside |= not bool(S.cmp_("==", q, z))
                    ax.append([(0, S.ONE)])
                    continue
                for k in range(n-1):
                    if q <= k+1:
                        f = q - k
                        if order == 0:
                            f = z if f < S.const(S.Fraction(1, 2)) \
                                else S.ONE
                        ax.append([(k, 1-f), (k+1, f)])
                        break
                else:
                    outside = True
                    ax.append([(n-1, S.ONE)])
            s = z
            for w in itertools.product(*ax):
                t = lift(inp[tuple(i for i, _ in w)])
                for _, f in w:
                    t = t*f
                s = s + t
            if order > 1:
                s = s + v("spline")
            if outside and mode == "constant":
                s = lift(cval)
            elif outside and mode != "nearest":
                s = v("mode")
            out[p] = s
        return npshim.oarr(out)
    nd = types.ModuleType("scipy.ndimage")
    nd.map_coordinates = map_coordinates
    nd.interpolation = nd
    pkg = load.Pkg(overrides={"scipy.ndimage": nd,
                              "scipy.ndimage.interpolation": nd})
    np = pkg.np
    el = pkg["electrode"]
    c.encoded("electrode.GridElectrode.__init__",
              "electrode.GridElectrode.potential",
              "electrode.GridElectrode.derive",
              "electrode.GridElectrode.generate",
              "electrode.GridElectrode.from_result",
              "grid.Grid.get_origin", "grid.Grid.indices_to_coordinates",
              "utils.construct_derivative")
    le = lambda a, b: S.cmp_("<=", lift(a), lift(b))
    lt = lambda a, b: S.cmp_("<", lift(a), lift(b))
    zs = []
    pos = [lt(z, v("s%d" % i)) for i in range(3)]
    un = [q for i in range(3) for u in "uw"
          for q in (lt(z, v("%s%d" % (u, i))), lt(v("%s%d" % (u, i)), 1))]
    o = [v("o%d" % i) for i in range(3)]
    s = [v("s%d" % i) for i in range(3)]

    # -- interpolation
    for cell, n, out in itertools.product(CELLS, range(ORDERS), (0, 1)):
        other = CELLS[(CELLS.index(cell) + 2) % 4]

        def run():
            e = el.GridElectrode(data=[data(v, q, npshim.oarr)
                                       for q in range(ORDERS)],
                                 origin=npshim.oarr(o) if out else o,
                                 spacing=npshim.oarr(s) if out else s)
            x = npshim.oarr([at(v, cell, "u"), at(v, other, "w")])
            if not out:
                return e.potential(x, n) if n else e.potential(x)
            buf = npshim.oarr([[v("out%d" % (i*(2*n+1) + k))
                                for k in range(2*n+1)] for i in range(2)])
            r = e.potential(x, n, potential=v("V"), out=buf)
            return r, buf
        ca = case("potential", cell=cell, n=n, out=out)
        tag = "order %d in cell %s%s" % (n, cell, " added" if out else "")
        for pc, r, exc in c.explore(run, pos + un):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            if out:
                r, buf = r
                c.fact("%s: in the given array" % tag, r is buf, ca)
            c.fact("%s: shape" % tag, r.shape == (2, 2*n+1), ca)
            for k in range(2*n+1):
                for i, (cl, u) in enumerate(((cell, "u"), (other, "w"))):
                    w = lift(interpolated(v, n, k, cl, u))
                    if out:
                        w = w*v("V") + v("out%d" % (i*(2*n+1) + k))
                    zs.append(("%s: value %d %d" % (tag, i, k),
                               lift(r[i, k]) - w, pc, ca, gen))

    # -- finite differences
    for n, edge in itertools.product(range(1, 5), (0, 1)):
        shape = (2, 2, 2) if edge else (3, 3, 3)
        deg = n if edge else n+1

        def run():
            e = el.GridElectrode(
                data=[[[[[z]*(2*q+1)]]] for q in range(n-1)] + [
                    samples(v, n-1, deg, s, shape, npshim.oarr)],
                origin=o, spacing=s)
            return e.derive(n)
        ca = case("derive", n=n, edge=edge)
        tag = "differences of order %d%s" % (n, ", edge" if edge else "")
        for pc, r, exc in c.explore(run, pos):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            r = numpy.array(r)
            c.fact("%s: shape" % tag, r.shape == shape + (2*n+1,), ca)
            for idx in (itertools.product((0, 1), repeat=3) if edge
                        else [(1, 1, 1)]):
                x = [k*q for k, q in zip(idx, s)]
                for k, q in enumerate(abstract.poly_comps(
                        v, "e", deg, x, n)):
                    zs.append(("%s: %s[%d]" % (tag, idx, k),
                               lift(r[idx + (k,)]) - q, pc, ca, gen))

    # -- which orders are made
    for have, want in itertools.product((1, 2, 3), (0, 1, 2, 3, 4, 5)):
        def run():
            e = el.GridElectrode(data=[data(v, q, npshim.oarr)
                                       for q in range(have)],
                                 origin=o, spacing=s)
            old = list(e.data)
            vals = [list(numpy.array(q).flat) for q in old]
            e.generate(maxderiv=want)
            return old, vals, list(e.data), e
        ca = case("generate", have=have, want=want)
        tag = "orders below %d from %d" % (want, have)
        for pc, r, exc in c.explore(run, pos):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            old, vals, new, e = r
            c.fact("%s: given data kept" % tag, all(
                q is w for q, w in zip(old, new)) and all(
                    a is b for q, w in zip(vals, old)
                    for a, b in zip(q, numpy.array(w).flat)), ca)
            c.fact("%s: number" % tag, len(new) == max(have, want), ca)
            for k in range(have, len(new)):
                c.fact("%s: shape of %d" % (tag, k),
                       new[k].shape == SHAPE + (2*k+1,), ca)
                # the order before decides
                def again():
                    e2 = el.GridElectrode(
                        data=[npshim.oarr(numpy.array(q))
                              for q in new[:k]], origin=o, spacing=s)
                    return e2.derive(k)
                for pc2, w, exc in c.explore(again, pos):
                    for i, (p, q) in enumerate(zip(numpy.array(
                            new[k]).flat, numpy.array(w).flat)):
                        if i % 5 == 0 or k < 2:
                            zs.append(("%s: %d[%d]" % (tag, k, i),
                                       lift(p) - lift(q), pc, ca, gen))

    # -- from the result of a field solver
    for field, idx in itertools.product((0, 1), [(0, 0, 0), (1, 2, 1),
                                                 (0, 1, 1), (1, 0, 0)]):
        def run():
            g = pkg["grid"].Grid(center=npshim.oarr(o), step=npshim.oarr(s),
                                 shape=SHAPE)
            res = ONES(grid=g, potential=data(v, 0, npshim.oarr)[..., 0],
                       field=data(v, 1, npshim.oarr).transpose(
                           3, 0, 1, 2) if field else None)
            e = el.GridElectrode.from_result(res, 3)
            x = g.indices_to_coordinates(numpy.array([idx]))
            return [e.potential(x, n) for n in range(1 + field)], \
                len(e.data), type(e)
        ca = case("result", field=field, idx=idx)
        tag = "solver result%s %s" % (" with field" if field else "", idx)
        for pc, r, exc in c.explore(run, pos):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            p, k, t = r
            c.fact("%s: orders" % tag, k == 3 and t is el.GridElectrode, ca)
            for n, q in enumerate(p):
                for j in range(2*n+1):
                    zs.append(("%s: order %d component %d" % (tag, n, j),
                               lift(q[0, j]) - v(dname(n, idx, j)), pc, ca,
                               gen))
    c.zeros(zs)


def replay(case):
    import numpy as np
    import electrode.electrode as el
    from electrode.grid import Grid
    e, what = case["env"], case["what"]
    get = lambda q: e[q]
    if min(e["s%d" % i] for i in range(3)) <= 0:
        return None
    if any(not 0 <= e["%s%d" % (q, i)] <= 1 for i in range(3) for q in "uw"):
        return None
    o = [e["o%d" % i] for i in range(3)]
    s = [e["s%d" % i] for i in range(3)]
    fl = lambda a: np.array(a, float)
    close = lambda a, b: np.allclose(a, b, rtol=1e-6, atol=1e-8)
    if what == "potential":
        n, cell, out = case["n"], case["cell"], case["out"]
        other = CELLS[(CELLS.index(tuple(cell)) + 2) % 4]
        g = el.GridElectrode(data=[data(get, q, fl) for q in range(ORDERS)],
                             origin=o, spacing=s)
        x = fl([at(get, cell, "u"), at(get, other, "w")])
        want = fl([[interpolated(get, n, k, cl, u) for k in range(2*n+1)]
                   for cl, u in ((cell, "u"), (other, "w"))])
        if not out:
            r = g.potential(x, n) if n else g.potential(x)
        else:
            buf = fl([[e["out%d" % (i*(2*n+1) + k)] for k in range(2*n+1)]
                      for i in range(2)])
            want = want*e["V"] + buf
            r = g.potential(x, n, potential=e["V"], out=buf)
            if r is not buf:
                return "result is not the array given"
        if np.shape(r) != want.shape or not close(r, want):
            return "order %d at %s: %s instead of %s" % (n, x, r, want)
        return None
    if what == "derive":
        n, edge = case["n"], case["edge"]
        shape = (2, 2, 2) if edge else (3, 3, 3)
        deg = n if edge else n+1
        g = el.GridElectrode(data=[np.zeros((1, 1, 1, 2*q+1))
                                   for q in range(n-1)] +
                             [samples(get, n-1, deg, s, shape, fl)],
                             origin=o, spacing=s)
        r = g.derive(n)
        want = samples(get, n, deg, s, shape, fl)
        if np.shape(r) != want.shape:
            return "shape %s" % (np.shape(r),)
        if not edge:
            r, want = r[1, 1, 1], want[1, 1, 1]
        if not np.allclose(r, want, rtol=1e-5, atol=1e-6*abs(want).max()):
            return "order %d: %s instead of %s" % (n, r, want)
        return None
    if what == "generate":
        have, want = case["have"], case["want"]
        g = el.GridElectrode(data=[data(get, q, fl) for q in range(have)],
                             origin=o, spacing=s)
        old = list(g.data)
        cp = [q.copy() for q in old]
        g.generate(maxderiv=want)
        if len(g.data) != max(have, want):
            return "%d orders" % len(g.data)
        if any(a is not b for a, b in zip(old, g.data)) or any(
                (a != b).any() for a, b in zip(old, cp)):
            return "given data changed"
        for k in range(have, len(g.data)):
            if g.data[k].shape != SHAPE + (2*k+1,):
                return "shape of order %d" % k
            if not close(g.data[k], el.GridElectrode(
                    data=g.data[:k], origin=o, spacing=s).derive(k)):
                return "order %d is not the difference of the one before" % k
        return None
    grid = Grid(center=fl(o), step=fl(s), shape=SHAPE)
    res = ONES(grid=grid, potential=data(get, 0, fl)[..., 0],
               field=data(get, 1, fl).transpose(3, 0, 1, 2)
               if case["field"] else None)
    g = el.GridElectrode.from_result(res, 3)
    if len(g.data) != 3 or type(g) is not el.GridElectrode:
        return "%d orders" % len(g.data)
    idx = tuple(case["idx"])
    x = grid.indices_to_coordinates(np.array([idx]))
    for n in range(1 + case["field"]):
        w = [e[dname(n, idx, j)] for j in range(2*n+1)]
        if not close(g.potential(x, n)[0], w):
            return "order %d at grid point %s: %s instead of %s" % (
                n, idx, g.potential(x, n), w)
    return None


def fb(r):
    out = [case("potential", cell=q, n=n, out=w)(gen(r)) for q in CELLS
           for n in range(ORDERS) for w in (0, 1)]
    out += [case("derive", n=n, edge=w)(gen(r)) for n in range(1, 5)
            for w in (0, 1)]
    out += [case("generate", have=h, want=w)(gen(r)) for h in (1, 2, 3)
            for w in range(6)]
    return out + [case("result", field=f, idx=i)(gen(r)) for f in (0, 1)
                  for i in [(0, 0, 0), (1, 2, 1), (0, 1, 1), (1, 0, 0)]]


if __name__ == "__main__":
    harness.main("C23", __file__, body, replay,
                 bounds="2x3x2 grids of arbitrary data, any origin and "
                 "spacing, any points in seven cells inside and beyond the "
                 "grid, orders 0-2; differences of arbitrary harmonic "
                 "polynomials for orders 1-4; up to 5 orders made",
                 outside="spline interpolation code (replaced by an exact "
                 "multilinear one), reading VTK files",
                 fallback=fb)
