"""C01: point patch electrodes: every derivative order is the gradient of the
one below, harmonic, and order 0 is a z/(2 pi r^3)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import NAMES, X, Y, Z, routes


def case(n):
    return lambda en: dict(order=n, **{
        k: en.get(k, d) for k, d in dict(
            x=.3, y=.2, z=.6, px=.1, py=-.3, a=1.1, v=.7, qx=-.4, qy=.5,
            b=.8).items()})


def gen(r):
    d = {k: r.uniform(-1, 1) for k in ("x", "y", "px", "py", "qx", "qy",
                                       "x2", "y2")}
    d.update(z=r.choice([-1, 1])*r.uniform(.3, 1), a=r.uniform(.5, 2),
             v=r.uniform(.5, 2), b=r.uniform(.5, 2), z2=r.uniform(.3, 1))
    return d


def body(c):
    import npshim
    pkg = load.Pkg()
    el = pkg["electrode"]
    px, py, a, v = [S.var(i) for i in ("px", "py", "a", "v")]
    e = el.PointPixelElectrode(points=npshim.oarr([[px, py]]),
                               areas=npshim.oarr([a]))
    T = [list(e.potential(kern.xsym(), n, v)[0]) for n in range(6)]
    c.encoded("electrode.PointPixelElectrode.potential",
              "cexpressions.point_potential",
              "cexpressions.point_potential_expr (orders 0-5)")

    r2 = (X-px)**2 + (Y-py)**2 + Z**2
    c.zero("order 0 is v a z/(2 pi r^3)",
           T[0][0] - v*a*Z/(2*S.PI*r2*S.sqrt(r2)), case=case(0), gen=gen)
    for n in range(5):
        g = kern.grad(T[n])
        for i, nm in enumerate(NAMES[n+1]):
            for j, k in routes(n, nm):
                c.zero("order %d %s = d/d%s %s" % (
                    n+1, nm, "xyz"[k], NAMES[n][j] or "phi"),
                    g[k][j] - T[n+1][i], case=case(n), gen=gen)
        if n == 1:
            c.zero("trace of second derivatives",
                   g[2][2] + T[2][0] + T[2][3], case=case(1), gen=gen)
    # several pixels, several observation points
    qx, qy, b, x2, y2, z2 = [S.var(i) for i in "qx qy b x2 y2 z2".split()]
    two = el.PointPixelElectrode(points=npshim.oarr([[px, py], [qx, qy]]),
                                 areas=npshim.oarr([a, b]))
    xs = npshim.oarr([[X, Y, Z], [x2, y2, z2]])
    for n in range(6):
        got = two.potential(xs, n, v)
        for j, at in enumerate(((X, Y, Z), (x2, y2, z2))):
            m = dict(zip((X, Y, Z), at))
            one = S.subst(T[n], m)
            m.update({px: qx, py: qy, a: b})
            other = S.subst(T[n], m)
            for i in range(2*n+1):
                c.zero("two pixels, point %d: order %d %s" % (
                    j, n, NAMES[n][i]), S.normalize(
                        got[j][i] - one[i] - other[i]),
                       case=case(n), gen=gen)


def replay(case):
    import numpy as np
    from electrode import PointPixelElectrode
    e = PointPixelElectrode(points=[[case["px"], case["py"]],
                                    [case["qx"], case["qy"]]],
                            areas=[case["a"], case["b"]])
    pot = lambda p, n: e.potential(np.array([p]), n, case["v"])[0]
    x = np.array([case["x"], case["y"], case["z"]])
    if abs(x[2]) < .1:
        return None
    if case["order"] == 0:
        want = 0
        for p, a in ("p", "a"), ("q", "b"):
            d = x - [case[p+"x"], case[p+"y"], 0]
            want += case["v"]*case[a]*d[2]/(2*np.pi*(d**2).sum()**1.5)
        got = pot(x, 0)[0]
        both = e.potential(np.array([-x, x]), 0, case["v"])[1]
        if abs(both[0] - got) > 1e-12:
            return "value depends on the other observation points"
        if abs(got - want) > 1e-9*abs(want):
            return "potential %.12g, expected %.12g at %s" % (got, want, x)
    return kern.gradient_defect(pot, x, case["order"])


if __name__ == "__main__":
    harness.main("C01", __file__, body, replay,
                 bounds="derivative orders 0-5; one pixel at any position "
                 "with any area, any voltage, any observation point off the "
                 "pixel (all reals); two pixels and two observation points "
                 "at once",
                 outside="floating point rounding; r = 0",
                 fallback=lambda r: [case(n)(gen(r)) for n in range(5)
                                     for k in range(2)])
