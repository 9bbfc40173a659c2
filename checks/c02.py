"""C02: polygonal patch electrodes: every derivative order is the gradient of
the one below it, and the potential is harmonic.

A patch is a sum over its directed edges.  Per edge, order n+1 is the gradient
of order n exactly (n >= 1); for n = 0 up to f(b) - f(a), which telescopes
around any closed path.  So the claim holds for any number of vertices."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import NAMES, X, Y, Z, routes


def case(n):
    def f(en):
        return dict(order=n, **{k: en.get(k, d) for k, d in dict(
            x=.1, y=.2, z=.7, ax=0, ay=.1, bx=1, by=0, cx=.3, cy=.9,
            v=1.).items()})
    return f


def body(c):
    import npshim
    pkg = load.Pkg()
    el = pkg["electrode"]
    ax, ay, bx, by, v = kern.edge_syms()
    e = kern.edge_electrode(el)
    T = [list(e.potential(kern.xsym(), n)[0]) for n in range(6)]
    c.encoded("electrode.MeshPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "cexpressions.mesh_potential", "cexpressions.polygon_potential",
              "cexpressions.edge_potential_expr (orders 0-5)")
    gen = kern.edge_gen
    off = kern.OFF
    items = []

    # order 0 -> 1, up to a telescoping term
    def h(px, py):
        r2 = (X-px)**2 + (Y-py)**2 + Z**2
        r = S.sqrt(r2)
        return 15*v/(2*S.PI)*Z*(Y-py)*(-7*Z**2 + 3*r2)/r**9
    for k, d in enumerate(kern.order01(T[0], T[1])):
        items.append(("order 1 %s = d/d%s phi (closed path)" % (
            "xyz"[k], "xyz"[k]), d, off, case(0), gen))
    # harmonic
    g = kern.grad(T[1])
    items.append(("divergence of the field vanishes", kern.origin(
        g[0][0] + g[1][1] + g[2][2]), (), case(1), gen))
    # the zz entry obtained from the trace is d/dz of z
    items.append(("xx + yy + d/dz z = 0", kern.origin(
        g[2][2] + T[2][0] + T[2][3]), (), case(1), gen))
    for n in range(1, 5):
        g = kern.grad(T[n])
        for i, nm in enumerate(NAMES[n+1]):
            cand = [(j, k, g[k][j] - T[n+1][i]) for j, k in routes(n, nm)]
            if nm == "xyyzz":
                # its one route differs by a telescoping term
                cand = [(j, k, d + h(bx, by) - h(ax, ay)) for j, k, d in cand]
            ex = [t for t in cand if kern.exact(t[2])]
            if n == 4 and not harness.THOROUGH:
                ex = ex[:1]
            for j, k, d in ex or cand[:1]:
                items.append(("order %d %s = d/d%s %s" % (
                    n+1, nm, "xyz"[k], NAMES[n][j]),
                    kern.origin(d), (), case(n), gen))
    items.reverse()
    c.zeros(items)

    # a polygon electrode is the sum of its edges (3 and 4 vertices)
    cx, cy, dx, dy = [S.var(i) for i in ("cx", "cy", "dx", "dy")]
    pts = [(ax, ay), (bx, by), (cx, cy), (dx, dy)]
    for nv in (3, 4):
        p = el.PolygonPixelElectrode(paths=[npshim.oarr(
            [list(q) for q in pts[:nv]])])
        for n in range(6):
            t = list(p.potential(kern.xsym(), n, v)[0])
            ed = [S.subst(T[n], dict(zip((ax, ay, bx, by),
                                         pts[(i-1) % nv] + pts[i])))
                  for i in range(nv)]
            for i in range(2*n+1):
                c.zero("%d-gon order %d component %d is the sum of its edges"
                       % (nv, n, i), S.normalize(
                           t[i] - sum((q[i] for q in ed), S.ZERO)), (),
                       case=case(max(n-1, 0)), gen=gen)


def replay(case):
    import numpy as np
    from electrode import PolygonPixelElectrode
    from electrode.electrode import MeshPixelElectrode
    x = np.array([case["x"], case["y"], case["z"]])
    P = np.array([[case[k+"x"], case[k+"y"]] for k in "abc"])
    if abs(x[2]) < .1 or abs(np.cross(P[1]-P[0], P[2]-P[0])) < .05:
        return None
    p = PolygonPixelElectrode(paths=[P])
    m = MeshPixelElectrode(points=P, edges=[[2, 0], [0, 1], [1, 2]],
                           polygons=[0, 0, 0], potentials=[1.])
    for nm, e in ("polygon", p), ("mesh", m):
        r = kern.gradient_defect(
            lambda q, n: e.potential(np.array([q]), n, case["v"])[0], x,
            case["order"])
        if r:
            return nm + ": " + r
    return None


if __name__ == "__main__":
    harness.main("C02", __file__, body, replay,
                 bounds="derivative orders 0-5; one edge with any real end "
                 "points, any voltage, any observation point off the plane, "
                 "extended to closed paths of any length by telescoping; "
                 "polygon = sum of edges for 3 and 4 vertices",
                 outside="floating point rounding; points on the electrode "
                 "plane or on an edge line where the kernel is singular",
                 fallback=lambda r: [case(n)(kern.edge_gen(r)) for n in range(5) for k in range(2)])
