"""C08: the mesh made from a system of polygon electrodes has the potential
of the system at its dc voltages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

X = [[S.var(q) for q in "xyz"], [S.var(q+"1") for q in "xyz"]]
# paths of each electrode
LAYOUTS = {"three": [[3], [4, 3], [5]], "one": [[4]], "bare": [[3], [], [4]]}


def pt(e, k, i):
    return ["p%d_%d_%d%s" % (e, k, i, q) for q in "xy"]


def gen(r):
    d = {q: r.uniform(-2, 2) for e in range(3) for k in range(2)
         for i in range(5) for q in pt(e, k, i)}
    d.update({"dc%d" % e: r.uniform(-2, 2) for e in range(3)})
    d.update({q: r.uniform(-1, 1) for q in ("x", "y", "x1", "y1")})
    d.update(z=r.uniform(.3, 1.5), z1=-r.uniform(.3, 1.5), s=r.uniform(-2, 2))
    for e in range(3):
        if r.random() < .2:
            d["dc%d" % e] = 0.
    return d


def case(lay, n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(layout=lay, n=n, env=e)
    return f


def paths(lay, get):
    return [[[[get(q) for q in pt(e, k, i)] for i in range(m)]
             for k, m in enumerate(ms)] for e, ms in enumerate(LAYOUTS[lay])]


def body(c):
    import numpy, npshim
    pkg = load.Pkg()
    el, sy = pkg["electrode"], pkg["system"]
    c.encoded("electrode.MeshPixelElectrode.from_polygon_system",
              "electrode.MeshPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "cexpressions.mesh_potential", "cexpressions.polygon_potential")
    v = S.var
    off = [S.bnot(S.cmp_("==", v(q), S.ZERO)) for q in ("z", "z1")]
    for lay in LAYOUTS:
        es = [el.PolygonPixelElectrode(
            paths=[npshim.oarr(p) for p in ps], dc=v("dc%d" % i),
            rf=S.const(i+7), name="e%d" % i)
            for i, ps in enumerate(paths(lay, v))]
        for kind in ("system", "list"):
            s = sy.System(es) if kind == "system" else es
            for pc, m, exc in c.explore(
                    lambda: el.MeshPixelElectrode.from_polygon_system(s),
                    off):
                tag = "%s %s" % (lay, kind)
                c.fact("%s: no exception (%r)" % (tag, exc), exc is None,
                       case(lay, 0))
                if exc:
                    continue
                c.zero("%s: unit mesh voltage" % tag, S.need(m.dc) - 1, pc,
                       case=case(lay, 0), gen=gen)
                x = npshim.oarr(X)
                items = []
                for n in range(3 if not harness.THOROUGH else 6):
                    w = npshim.oarr([[S.ZERO]*(2*n+1)]*2)
                    for i, e in enumerate(es):
                        if e.paths:
                            e.potential(x, n, v("s")*v("dc%d" % i), w)
                    # the values of the cover settings play no role
                    q = m.potential(x, n, v("s"))
                    ok = tuple(q.shape) == tuple(w.shape)
                    c.fact("%s order %d: shape" % (tag, n), ok, case(lay, n))
                    for j in numpy.ndindex(*(w.shape if ok else ())):
                        items.append(("%s order %d %s" % (tag, n, j),
                                      split(q[j] - w[j]), pc, case(lay, n),
                                      gen))
                c.zeros(items)


def split(e):
    return S.normalize(e)


def replay(case):
    import numpy as np
    from electrode import PolygonPixelElectrode, MeshPixelElectrode, System
    e, lay = case["env"], case["layout"]
    if min(abs(e["z"]), abs(e["z1"])) < 1e-2:
        return None
    s = System([PolygonPixelElectrode(paths=ps, dc=e["dc%d" % i], rf=i+7,
                                      name="e%d" % i)
                for i, ps in enumerate(paths(lay, e.get))])
    x = np.array([[e[q] for q in "xyz"], [e[q+"1"] for q in "xyz"]])
    m = MeshPixelElectrode.from_polygon_system(s)
    if m.dc != 1:
        return "mesh voltage %s" % m.dc
    for n in range(6):
        w = e["s"]*sum(i.potential(x, n, i.dc) for i in s if len(i.paths))
        q = m.potential(x, n, e["s"])
        if q.shape != w.shape or abs(q - w).max() > 1e-8*(1+abs(w).max()):
            return "order %d: mesh %s, electrodes %s" % (
                n, q.tolist(), w.tolist())
    return None


if __name__ == "__main__":
    harness.main("C08", __file__, body, replay,
                 bounds="one or three electrodes of up to two paths with 3-5 "
                 "vertices anywhere (one electrode without paths), any dc "
                 "voltages and scale, two observation points off the plane; "
                 "orders 0-2 (thorough 5)",
                 outside="cover planes (the mesh is made without)",
                 fallback=lambda r: [case(l, 0)(gen(r)) for l in LAYOUTS
                                     for k in range(3)])
