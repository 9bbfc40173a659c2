"""C15: area, centroid and orientation of polygons and the conversion of
polygon electrodes to points."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

NP = [3, 4, 3, 6]          # paths of the electrode
SIZES = range(1, 9)


def pt(k, i):
    return ["p%d_%d%s" % (k, i, q) for q in "xy"]


def gen(r):
    d = {q: r.uniform(-1, 1) for k in range(4) for i in range(10)
         for q in pt(k, i)}
    for k in range(1, 4):
        if r.random() < .3:     # an electrode with equal or reversed paths
            for i in range(10):
                for a, b in zip(pt(k, i), pt(k-1, 9-i)):
                    d[a] = d[b]
    d.update({q: r.uniform(-2, 2) for q in ("dc", "rf", "tx", "ty")})
    d["h"] = r.uniform(1, 3)
    d["nmax"] = r.choice([0, 1, 2, 3])
    return d


def case(n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(n=n, env=e)
    return f


def moments(p):
    """Area and first moments, summed over the triangles (p0, pi, pi+1)."""
    a = mx = my = 0*p[0][0]
    (x0, y0) = p[0]
    for (x1, y1), (x2, y2) in zip(p[1:-1], p[2:]):
        t = ((x1-x0)*(y2-y0) - (x2-x0)*(y1-y0))/2
        a = a + t
        mx = mx + t*(x0+x1+x2)/3
        my = my + t*(y0+y1+y2)/3
    return a, mx, my


def body(c):
    import numpy, npshim
    pkg = load.Pkg()
    u, el = pkg["utils"], pkg["electrode"]
    c.encoded("utils.area_centroid",
              "electrode.PolygonPixelElectrode.orientations",
              "electrode.PolygonPixelElectrode.to_points",
              "electrode.PolygonPixelElectrode.__init__",
              "electrode.PointPixelElectrode.__init__",
              "electrode.PointPixelElectrode.orientations")
    v = S.var
    path = {k: [[v(q) for q in pt(k, i)] for i in range(10)]
            for k in range(4)}
    items = []
    for n in list(SIZES)[2:]:
        p = path[0][:n]
        a0, mx, my = moments(p)
        nz = [S.bnot(S.cmp_("==", a0, S.ZERO))]
        for pc, r, exc in c.explore(
                lambda: u.area_centroid(npshim.oarr(p)), nz):
            tag = "polygon of %d" % n
            ok = exc is None and len(r) == 2 and len(r[1]) == 2
            c.fact("%s: result (%r)" % (tag, exc), ok, case(n))
            if ok:
                a, ce = r
                items += [("%s: area" % tag, a - a0, pc, case(n), gen),
                          ("%s: centroid x" % tag, ce[0]*a0 - mx, pc,
                           case(n), gen),
                          ("%s: centroid y" % tag, ce[1]*a0 - my, pc,
                           case(n), gen)]
    c.zeros(items)
    # orientation: the sign of the area of each path
    k = 2
    ps = [path[j][:NP[j]] for j in range(k)]
    ar = [moments(p)[0] for p in ps]
    e = el.PolygonPixelElectrode(paths=[npshim.oarr(p) for p in ps])
    nz = [S.bnot(S.cmp_("==", a, S.ZERO)) for a in ar]
    for pc, r, exc in c.explore(lambda: list(e.orientations()), nz):
        c.fact("orientations: one per path (%r)" % exc,
               exc is None and len(r) == k, case(0))
        for a, s in zip(ar, r or ()):
            s = S.need(s)
            c.fact("orientation is a sign", s.op == "c" and
                   s.val in (-1, 0, 1), case(0))
            c.holds("orientation is the sign of the area",
                    S.cmp_("<", S.ZERO, s*a), pc, case=case(0), gen=gen)
    # conversion to points
    for nmax in (0, 2):
        for k in (1, 4):
            ps = [path[j][:NP[j]] for j in range(k)]
            mo = [moments(p) for p in ps]
            nz = [S.bnot(S.cmp_("==", m[0], S.ZERO)) for m in mo]
            e = el.PolygonPixelElectrode(
                paths=[npshim.oarr(p) for p in ps], name="e", dc=v("dc"),
                rf=v("rf"), cover_height=v("h"), cover_nmax=nmax)
            for pc, r, exc in c.explore(lambda: e.to_points(), nz):
                tag = "%d paths to points" % k
                ok = exc is None and isinstance(
                    r, el.PointPixelElectrode) and \
                    tuple(r.points.shape) == (k, 2) and \
                    tuple(r.areas.shape) == (k,)
                c.fact("%s: one point per path (%r)" % (tag, exc), ok,
                       case(0))
                if not ok:
                    continue
                c.fact("%s: name and images" % tag, r.name == "e" and
                       r.cover_nmax == nmax, case(0))
                for q, w in (("dc", "dc"), ("rf", "rf"),
                             ("cover_height", "h")):
                    c.zero("%s: %s" % (tag, q), S.need(getattr(r, q)) - v(w),
                           pc, case=case(0), gen=gen)
                items = []
                for j, (a0, mx, my) in enumerate(mo):
                    for nm, t in (("area", r.areas[j] - a0),
                                  ("x", r.points[j, 0]*a0 - mx),
                                  ("y", r.points[j, 1]*a0 - my)):
                        items.append(("%s: %s of %d" % (tag, nm, j), t, pc,
                                      case(0), gen))
                c.zeros(items)
                o = r.orientations()
                c.fact("%s: point orientations" % tag, tuple(o.shape) == (k,)
                       and all(S.need(q) is S.ONE for q in o), case(0))


def replay(case):
    import numpy as np
    from electrode import utils as u, PolygonPixelElectrode, \
        PointPixelElectrode
    e = case["env"]
    path = {k: [[e[q] for q in pt(k, i)] for i in range(10)]
            for k in range(4)}

    def close(a, b):
        return np.allclose(a, b, rtol=1e-7, atol=1e-9)
    for n in SIZES[2:]:
        a0, mx, my = moments(path[0][:n])
        if abs(a0) < 1e-3:
            continue
        a, ce = u.area_centroid(np.array(path[0][:n]))
        if not close(a, a0) or not close(ce, [mx/a0, my/a0]):
            return "polygon of %d: area %s centroid %s, expected %s %s" % (
                n, a, ce, a0, [mx/a0, my/a0])
    for k in (1, 2, 4):
        ps = [path[j][:NP[j]] for j in range(k)]
        mo = [moments(p) for p in ps]
        if min(abs(m[0]) for m in mo) < 1e-3:
            continue
        el = PolygonPixelElectrode(paths=ps, name="e", dc=e["dc"],
                                   rf=e["rf"], cover_height=e["h"],
                                   cover_nmax=e["nmax"])
        o = el.orientations()
        if not close(o, np.sign([m[0] for m in mo])):
            return "orientations %s of areas %s" % (o, [m[0] for m in mo])
        p = el.to_points()
        if not isinstance(p, PointPixelElectrode) or p.name != "e":
            return "not the same electrode as points: %r" % p
        for q, w in (("dc", "dc"), ("rf", "rf"), ("cover_height", "h"),
                     ("cover_nmax", "nmax")):
            if getattr(p, q) != e[w]:
                return "%s is %s after to_points, was %s" % (
                    q, getattr(p, q), e[w])
        if p.areas.shape != (k,) or p.points.shape != (k, 2) or \
                not close(p.areas, [m[0] for m in mo]) or not close(
                    p.points, [[m[1]/m[0], m[2]/m[0]] for m in mo]):
            return "to_points: %s %s" % (p.areas, p.points)
        if not close(p.orientations(), np.ones(k)):
            return "point orientations %s" % p.orientations()
    return None


if __name__ == "__main__":
    harness.main("C15", __file__, body, replay,
                 bounds="polygons of 3 to 8 vertices anywhere, of either "
                 "orientation and possibly crossing themselves; electrodes "
                 "of up to four paths",
                 outside="paths with zero area (the centroid is undefined)",
                 fallback=lambda r: [case(0)(gen(r)) for n in range(8)])
