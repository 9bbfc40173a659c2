"""C03: a polygonal patch is the area integral of the point kernel over its
interior (potential and field).

Line integral form: the field of an edge grows along the edge by the
Biot-Savart integrand; Stokes: the curl (with respect to the source point) of
that integrand is the unit-area point kernel.  Order 0 follows from the
gradients (claimed here too) and from decay."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import X, Y, Z


def case(en):
    return {k: en.get(k, d) for k, d in dict(
        x=.1, y=.2, z=.7, ax=0, ay=.1, bx=1, by=0, cx=.3, cy=.9,
        v=1.).items()}


def body(c):
    import npshim
    pkg = load.Pkg()
    el = pkg["electrode"]
    ax, ay, bx, by, v = kern.edge_syms()
    gen = kern.edge_gen
    e = kern.edge_electrode(el)
    T0, T1 = [list(e.potential(kern.xsym(), n)[0]) for n in (0, 1)]
    c.encoded("electrode.MeshPixelElectrode.potential",
              "electrode.PointPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "cexpressions.mesh_potential", "cexpressions.point_potential",
              "cexpressions.polygon_potential",
              "cexpressions.edge_potential_expr (orders 0-1)",
              "cexpressions.point_potential_expr (orders 0-1)")
    rx, ry = bx - X, by - Y
    r = S.sqrt(rx**2 + ry**2 + Z**2)
    K = v/(2*S.PI)/r**3

    def biot(dx, dy):
        # v/(2 pi) (dl x R)/r^3, R = source - observer
        return [-K*Z*dy, K*Z*dx, K*(dx*ry - dy*rx)]

    dl = (bx - ax, by - ay)
    g = [S.diff(T1, {w: S.ONE}) for w in (bx, by)]
    ref = biot(*dl)
    for k in range(3):
        c.zero("field component %s grows along an edge by the line integrand"
               % "xyz"[k], kern.origin(dl[0]*g[0][k] + dl[1]*g[1][k]
                                       - ref[k]), (), case=case, gen=gen)
        c.zero("component %s of an empty edge vanishes" % "xyz"[k],
               kern.origin(S.subst(T1[k], {bx: ax, by: ay})), (),
               case=case, gen=gen)
    # Stokes
    p = el.PointPixelElectrode(points=[[bx, by]], areas=[1.])
    P1 = list(p.potential(kern.xsym(), 1, v)[0])
    P0 = list(p.potential(kern.xsym(), 0, v)[0])
    Ix, Iy = biot(S.ONE, S.ZERO), biot(S.ZERO, S.ONE)
    for k in range(3):
        c.zero("curl of the line integrand is the unit-area point field %s"
               % "xyz"[k], kern.origin(
                   S.diff([Iy[k]], {bx: S.ONE})[0]
                   - S.diff([Ix[k]], {by: S.ONE})[0] - P1[k]), (),
               case=case, gen=gen)
        c.zero("point field %s is the gradient" % "xyz"[k],
               kern.origin(kern.grad(P0)[k][0] - P1[k]), (), case=case,
               gen=gen)
    for k, d in enumerate(kern.order01(T0, T1)):
        c.zero("polygon field %s is the gradient of its potential"
               % "xyz"[k], d, kern.OFF, case=case, gen=gen)
    # decay: phi = coef*atan2(p, q), q >= 2|z|^3 and p linear in |z|
    pp, qq, co = kern.atan_args(kern.origin(T0[0]))
    t = S.var("t")
    for sg in (1, -1):
        z = {Z: sg*t}
        p_, q_ = S.subst([pp, qq], z)
        ra, rb = S.var("ra"), S.var("rb")
        m = {S.sqrt(S.normalize(ax**2 + ay**2 + t**2)): ra}
        pos = [t > 0]
        # the vertices at distance: r >= t, and Cauchy-Schwarz
        dot = ax*bx + ay*by
        R1 = S.sqrt(ax**2 + ay**2 + t**2)
        R2 = S.sqrt(bx**2 + by**2 + t**2)
        q2 = S.subst(S.normalize(q_), {})
        A, Bv = S.var("A"), S.var("B")
        rads = [n for n in S.topo(q2) if isinstance(n, S.E)
                and n.op == "sqrt"]
        m = {}
        for n in rads:
            for nm, R in ((A, R1), (Bv, R2)):
                if c.P.prove_zero(n.args[0] - R.args[0], pos)[0] == "unsat":
                    m[n] = nm
        q3 = S.subst(q2, m)
        # A, B: any values with A >= t, B >= t, A*B >= |a.b + t^2|
        c.holds("potential argument stays bounded away from zero (%+d z)"
                % sg, S.const(2)*t**3 <= q3,
                pos + [t <= A, t <= Bv, abs(dot + t**2) <= A*Bv],
                case=case, gen=None)
        c.zero("potential vanishes far away: numerator is linear in z (%+d)"
               % sg, S.diff([p_], {t: S.ONE})[0] - S.subst(
                   p_, {t: S.ONE}), pos, case=case, gen=gen)
        c.zero("numerator vanishes at z=0 (%+d)" % sg,
               S.subst(p_, {t: S.ZERO}), (), case=case, gen=gen)
    # Cauchy-Schwarz for the radicals used above
    A2, B2 = ax**2 + ay**2 + Z**2, bx**2 + by**2 + Z**2
    c.holds("(a.b + z^2)^2 <= |a|^2 |b|^2", (ax*bx + ay*by + Z**2)**2
            <= A2*B2, (), case=case, gen=gen)
    # polygon = oriented sum over edges, any number of paths
    pts = [[S.var("p%d%s" % (i, k)) for k in "xy"] for i in range(6)]

    def genp(r):
        d = kern.edge_gen(r)
        d.update({"p%d%s" % (i, k): r.uniform(-1, 1)
                  for i in range(6) for k in "xy"})
        return d
    po = el.PolygonPixelElectrode(paths=[npshim.oarr(pts[:3]),
                                         npshim.oarr(pts[3:])])
    for n, T in enumerate((T0, T1)):
        got = po.potential(kern.xsym(), n, v)[0]
        want = [S.ZERO]*(2*n+1)
        for base in (0, 3):
            for i in range(3):
                a, b = pts[base+(i-1) % 3], pts[base+i]
                ed = S.subst(T, {ax: a[0], ay: a[1], bx: b[0], by: b[1]})
                want = [w+q for w, q in zip(want, ed)]
        for i in range(2*n+1):
            c.zero("two paths: order %d component %d is the sum of the edges"
                   % (n, i), S.normalize(got[i]-want[i]), (), gen=genp,
                   case=lambda en: dict(case(en), two=1))


def tri_points(P, k=4):
    import numpy as np
    tris = [P]
    for _ in range(k):
        nt = []
        for a, b, d in tris:
            ab, bd, da = (a+b)/2, (b+d)/2, (d+a)/2
            nt += [(a, ab, da), (ab, b, bd), (da, bd, d), (ab, bd, da)]
        tris = nt
    # 7 point degree 5 rule
    s = 15**.5
    w = [9/40.] + [(155-s)/1200]*3 + [(155+s)/1200]*3
    b1, b2 = (6-s)/21, (6+s)/21
    bary = [(1/3., 1/3., 1/3.)]
    for b in (b1, b2):
        bary += [(1-2*b, b, b), (b, 1-2*b, b), (b, b, 1-2*b)]
    pts, ar = [], []
    for a, b, d in tris:
        area = ((b-a)[0]*(d-a)[1] - (b-a)[1]*(d-a)[0])/2
        for wi, (i, j, l) in zip(w, bary):
            pts.append(i*a+j*b+l*d)
            ar.append(area*wi)
    return np.array(pts), np.array(ar)


def replay(case):
    import numpy as np
    from electrode import PolygonPixelElectrode, PointPixelElectrode
    from electrode.electrode import MeshPixelElectrode
    x = np.array([[case["x"], case["y"], case["z"]]])
    P = np.array([[case[k+"x"], case[k+"y"]] for k in "abc"])
    if abs(x[0, 2]) < .2 or abs(np.cross(P[1]-P[0], P[2]-P[0])) < .05 \
            or np.abs(P).max() > 5 or abs(x).max() > 20:
        return None
    paths = [P]
    if case.get("two"):
        paths.append(P[::-1]*.5 + .1)
    pts, ar = zip(*[tri_points(p) for p in paths])
    pt = PointPixelElectrode(points=np.concatenate(pts),
                             areas=np.concatenate(ar))
    es = [("polygon", PolygonPixelElectrode(paths=paths))]
    if len(paths) == 1:
        es.append(("mesh", MeshPixelElectrode(
            points=P, edges=[[2, 0], [0, 1], [1, 2]], polygons=[0, 0, 0],
            potentials=[case["v"]])))
    for nm, e in es:
        for n in (0, 1):
            a = e.potential(x, n, case["v"])[0] if nm == "polygon" else \
                e.potential(x, n)[0]
            b = pt.potential(x, n, case["v"])[0]
            if np.abs(a-b).max() > 1e-4*np.abs(b).max() + 1e-9:
                return "%s order %d: %s, area integral of points %s at %s" % (
                    nm, n, a.tolist(), b.tolist(), x[0].tolist())
    return None


if __name__ == "__main__":
    harness.main("C03", __file__, body, replay,
                 bounds="orders 0 and 1; one edge with any real end points, "
                 "any voltage and any observation point off the plane "
                 "(closed paths of any length by summation); two 3-vertex "
                 "paths for the sum over paths",
                 outside="floating point rounding; points on the electrode "
                 "plane; the integration step itself (Stokes) is the textbook "
                 "theorem applied to the proved differential identities",
                 fallback=lambda r: [dict(case(kern.edge_gen(r)), two=k) for k in (0, 1, 0, 1)])
