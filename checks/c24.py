"""C24: regular grids: the listed points are exactly center + step*(index -
(shape - 1)/2) for all indices in order, in every form, and the two index and
coordinate maps are inverse to each other."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

SHAPES = [(1, 1, 1), (2, 3, 4), (3, 1, 2), (4, 2, 2), (5, 1, 1), (2, 2, 3)]
FORMS = ["array", "list", "tuple"]


def gen(r):
    d = {}
    for i in range(3):
        d["c%d" % i] = r.uniform(-1, 1)
        d["s%d" % i] = r.choice([-1, 1])*r.uniform(.3, 2)
        d["x%d" % i] = r.uniform(-3, 3)
        d["p%d" % i] = r.uniform(-3, 3)
    d.update({"g%d%d" % (i, j): r.uniform(-1, 1) for i in range(3)
              for j in range(4)})
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


def formed(a, form, arr):
    return arr(a) if form == "array" else dict(list=list, tuple=tuple)[
        form](a)


def point(get, shape, idx):
    return [get("c%d" % i) + get("s%d" % i)*(2*idx[i] - (shape[i]-1))/2
            for i in range(3)]


def body(c):
    import npshim, numpy
    pkg = load.Pkg()
    G = pkg["grid"]
    c.encoded("grid.Grid.get_origin", "grid.Grid.to_slices",
              "grid.Grid.to_mgrid", "grid.Grid.to_points",
              "grid.Grid.to_xyz", "grid.Grid.indices_to_coordinates",
              "grid.Grid.coordinates_to_indices",
              "grid.UnstructuredGrid.to_points")
    v = S.var
    lift = lambda q: S.need(S.lift(q))
    nz = [S.bnot(S.cmp_("==", v("s%d" % i), S.ZERO)) for i in range(3)]
    zs = []

    def cmp(tag, ca, pc, got, want):
        got, want = numpy.array(got, object), numpy.array(want, object)
        c.fact("%s: shape" % tag, got.shape == want.shape, ca)
        if got.shape != want.shape:
            return
        for i in numpy.ndindex(*got.shape):
            zs.append(("%s %s" % (tag, i), lift(got[i]) - lift(want[i]), pc,
                       ca, gen))

    for shape, form in itertools.product(SHAPES, FORMS):
        cs, ss, x, p = [[v("%s%d" % (q, i)) for i in range(3)]
                        for q in "csxp"]
        sh = formed(shape, form if form != "array" else "tuple", None)

        def run():
            g = G.Grid(center=formed(cs, form, npshim.oarr),
                       step=formed(ss, form, npshim.oarr), shape=sh)
            i = g.coordinates_to_indices(npshim.oarr([x, p]))
            y = g.indices_to_coordinates(npshim.oarr([x, p]))
            return dict(mgrid=g.to_mgrid(), points=g.to_points(),
                        xyz=g.to_xyz(), origin=g.get_origin(), i=i, y=y,
                        one=g.coordinates_to_indices(x),
                        back=g.indices_to_coordinates(i),
                        forth=g.coordinates_to_indices(y),
                        all=g.indices_to_coordinates(numpy.array(list(
                            itertools.product(*map(range, shape))))))
        ca = case("grid", shape=shape, form=form)
        for pc, r, exc in c.explore(run, nz):
            tag = "%s %s" % (shape, form)
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            ix = list(itertools.product(*map(range, shape)))
            pts = [point(v, shape, q) for q in ix]
            cmp(tag + ": points", ca, pc, r["points"], pts)
            cmp(tag + ": from indices", ca, pc, r["all"], pts)
            cmp(tag + ": mgrid", ca, pc, r["mgrid"], numpy.array(
                pts, object).T.reshape((3,) + shape))
            cmp(tag + ": origin", ca, pc, r["origin"], pts[0])
            c.fact(tag + ": axes", len(r["xyz"]) == 3, ca)
            for a in range(3):
                cmp(tag + ": axis %d" % a, ca, pc, list(r["xyz"][a]), [
                    point(v, shape, [k]*3)[a] for k in range(shape[a])])
            cmp(tag + ": coordinates", ca, pc, r["y"],
                [point(v, shape, q) for q in (x, p)])
            cmp(tag + ": back", ca, pc, r["back"], [x, p])
            cmp(tag + ": forth", ca, pc, r["forth"], [x, p])
            cmp(tag + ": one", ca, pc, r["one"], list(r["i"][0]))

    u = [[v("g%d%d" % (i, j)) for j in range(4)] for i in range(3)]
    ca = case("unstructured")
    for pc, r, exc in c.explore(lambda: (lambda g: (
            g.to_points(), g.shape))(G.UnstructuredGrid(npshim.oarr(u)))):
        c.fact("unstructured: no exception %r" % (exc,), exc is None, ca)
        if not exc:
            cmp("unstructured", ca, pc, r[0], [list(q) for q in zip(*u)])
            c.fact("unstructured: shape", tuple(r[1]) == (4,), ca)
    c.zeros(zs)


def replay(case):
    import numpy as np
    import electrode.grid as G
    e = case["env"]
    get = lambda q: e[q]
    close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(
        np.array(a, float), np.array(b, float), rtol=1e-7, atol=1e-7)
    if case["what"] == "unstructured":
        u = np.array([[e["g%d%d" % (i, j)] for j in range(4)]
                      for i in range(3)])
        g = G.UnstructuredGrid(u)
        if not close(g.to_points(), u.T) or tuple(g.shape) != (4,):
            return "unstructured points %s" % g.to_points()
        return None
    shape, form = tuple(case["shape"]), case["form"]
    if any(e["s%d" % i] == 0 for i in range(3)):
        return None
    cs, ss, x, p = [[e["%s%d" % (q, i)] for i in range(3)] for q in "csxp"]
    g = G.Grid(center=formed(cs, form, np.array),
               step=formed(ss, form, np.array),
               shape=formed(shape, form if form != "array" else "tuple",
                            None))
    ix = list(itertools.product(*map(range, shape)))
    pts = np.array([point(get, shape, q) for q in ix])
    xp = np.array([x, p])
    want = np.array([point(get, shape, q) for q in (x, p)])
    for name, got, w in (
            ("to_points", g.to_points(), pts),
            ("indices_to_coordinates", g.indices_to_coordinates(
                np.array(ix)), pts),
            ("to_mgrid", g.to_mgrid(), pts.T.reshape((3,) + shape)),
            ("get_origin", g.get_origin(), pts[0]),
            ("indices_to_coordinates", g.indices_to_coordinates(xp), want),
            ("coordinates_to_indices", g.coordinates_to_indices(want), xp),
            ("coordinates_to_indices", g.coordinates_to_indices(
                list(want[0])), xp[0])):
        if not close(got, w):
            return "%s gives %s instead of %s" % (name, got, w)
    xyz = g.to_xyz()
    if len(xyz) != 3:
        return "%d axes" % len(xyz)
    for a in range(3):
        w = [point(get, shape, [k]*3)[a] for k in range(shape[a])]
        if not close(xyz[a], w):
            return "axis %d is %s instead of %s" % (a, xyz[a], w)
    return None


def fb(r):
    return [case("grid", shape=s, form=f)(gen(r)) for s in SHAPES
            for f in FORMS] + [case("unstructured")(gen(r))]


if __name__ == "__main__":
    harness.main("C24", __file__, body, replay,
                 bounds="six shapes of up to 24 points, any centers, "
                 "nonzero steps, coordinates and (fractional) indices",
                 outside="grids on spheres (C25)", fallback=fb)
