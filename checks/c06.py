"""C06: cover plane: a surface electrode under a cover at height H with nmax
images is the sum of 2 nmax + 1 free-space copies shifted by multiples of 2 H;
on the cover only the outermost image is left; the cover electrode itself is
the linear ramp that is 1 at its height and 0 on the electrode plane."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import X, Y, Z, NAMES

H = S.var("h")
PTS = [[S.var("u%d" % i), S.var("w%d" % i)] for i in range(4)]


def gen(r):
    d = kern.edge_gen(r)
    for i in range(4):
        d["u%d" % i], d["w%d" % i] = r.uniform(-1, 1), r.uniform(-1, 1)
    d.update(h=r.uniform(1.5, 3), k=r.uniform(.5, 2), z=r.uniform(.3, 1.2))
    return d


def case(kind, n, nmax):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update({k: v for k, v in en.items() if isinstance(v, (int, float))})
        return dict(kind=kind, order=n, nmax=nmax, env=e)
    return f


def make(m, kind, pts, v, nmax, h, arr):
    kw = dict(cover_nmax=nmax, cover_height=h)
    if kind == "point":
        return m.PointPixelElectrode(points=arr(pts[:2]),
                                     areas=arr([v, v*v]), **kw)
    if kind == "polygon":
        return m.PolygonPixelElectrode(paths=[arr(pts[:3])], **kw)
    return m.MeshPixelElectrode(
        points=arr(pts), edges=[[2, 0], [0, 1], [1, 2], [3, 1], [1, 0],
                                [0, 3]],
        polygons=[0, 0, 0, 1, 1, 1], potentials=arr([v, -2*v]), **kw)


def body(c):
    import npshim
    pkg = load.Pkg()
    el = pkg["electrode"]
    c.encoded("electrode.CoverElectrode.potential",
              "electrode.PointPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "electrode.MeshPixelElectrode.potential",
              "cexpressions.point_potential", "cexpressions.polygon_potential",
              "cexpressions.mesh_potential")
    v, k = S.var("v"), S.var("k")
    arr = npshim.oarr
    items = []
    conf = {"point": [(n, m) for n in range(6) for m in (0, 1, 2, 3)],
            "polygon": [(0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 3),
                        (2, 1), (2, 2), (3, 1), (4, 1), (5, 1)],
            "mesh": [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (3, 1)]}
    if harness.THOROUGH:
        conf = {kd: [(n, m) for n in range(6) for m in range(6)]
                for kd in conf}
    for kind in ("point", "polygon", "mesh"):
        free = make(el, kind, PTS, v, 0, H, arr)
        for n, nmax in conf[kind]:
            cov = make(el, kind, PTS, v, nmax, H, arr)
            got = cov.potential(kern.xsym(), n, k)[0]
            base = list(free.potential(kern.xsym(), n, k)[0])
            tot = [S.ZERO]*(2*n+1)
            for m in range(-nmax, nmax+1):
                sh = S.subst(base, {Z: Z+2*m*H})
                tot = [a+b for a, b in zip(tot, sh)]
            for i in range(2*n+1):
                items.append((
                    "%s order %d %s: %d images" % (
                        kind, n, NAMES[n][i], nmax),
                    S.lincollect(S.normalize(got[i]-tot[i])), (),
                    case(kind, n, nmax), gen))
            # on the cover: odd parity images cancel in pairs
            on = S.subst(list(got), {Z: H})
            far = S.subst(base, {Z: (2*nmax+1)*H})
            pos = [S.cmp_("<", S.ZERO, H)]
            if nmax <= 2 and n <= 1:
                for i in range(2*n+1):
                    if NAMES[n][i].count("z") % 2 == 0:
                        e = kern.unify_atan(S.normalize(
                            kern.as_atan(on[i]-far[i])), pos, gen)
                        items.append((
                            "%s order %d %s on the cover: outermost of %d "
                            "images" % (kind, n, NAMES[n][i], nmax), e, pos,
                            case(kind, n, nmax), gen))
    c.zeros(items)
    # the cover
    for out in (None, 1):
        e = el.CoverElectrode(height=H)
        for n in range(6):
            o = out and arr([[S.var("o%d" % i) for i in range(2*n+1)]])
            r = e.potential(kern.xsym(), n, v, o)
            want = [S.ZERO]*(2*n+1)
            if n == 0:
                want[0] = v*Z/H
            elif n == 1:
                want[2] = v/H
            if out:
                c.fact("cover order %d: returns the buffer" % n, r is o,
                       case("cover", n, 0))
                want = [w+S.var("o%d" % i) for i, w in enumerate(want)]
            for i in range(2*n+1):
                c.zero("cover order %d %s%s" % (
                    n, NAMES[n][i], " added to buffer" if out else ""),
                    r[0][i]-want[i], (), case=case("cover", n, 0), gen=gen)


def replay(case):
    import numpy as np
    import electrode.electrode as el
    e, n, N = case["env"], case["order"], case["nmax"]
    h, v, k = e["h"], e["v"], e["k"]
    if not .5 < h < 10 or abs(e["z"]) < .1:
        return None
    x = np.array([[e["x"], e["y"], e["z"]]])
    if case["kind"] == "cover":
        out = np.ones((1, 2*n+1))
        r = el.CoverElectrode(height=h).potential(x, n, v, out)
        want = np.ones((1, 2*n+1))
        if n == 0:
            want[0, 0] += v*x[0, 2]/h
        elif n == 1:
            want[0, 2] += v/h
        if r is not out or not np.allclose(r, want):
            return "cover order %d: %s, expected %s" % (
                n, r.tolist(), want.tolist())
        r = el.CoverElectrode(height=h).potential(x, n, v)
        if not np.allclose(r, want-1):
            return "cover order %d: %s" % (n, r.tolist())
        return None
    pts = [[e["u%d" % i], e["w%d" % i]] for i in range(4)]
    arr = lambda a: np.array(a, float)
    got = make(el, case["kind"], pts, v, N, h, arr).potential(x, n, k)[0]
    free = make(el, case["kind"], pts, v, 0, h, arr)
    want = sum(free.potential(x + [[0, 0, 2*m*h]], n, k)[0]
               for m in range(-N, N+1))
    if not np.allclose(got, want, rtol=1e-6, atol=1e-8*np.abs(want).max()):
        return "%s order %d, %d images: %s, sum of shifted copies %s" % (
            case["kind"], n, N, got.tolist(), want.tolist())
    if n == 0:
        x[0, 2] = h
        a = make(el, case["kind"], pts, v, N, h, arr).potential(x, 0, k)
        x[0, 2] = (2*N+1)*h
        b = free.potential(x, 0, k)
        if not np.allclose(a, b, atol=1e-9):
            return "%s on the cover %s, outermost image %s" % (
                case["kind"], a.tolist(), b.tolist())
    return None


if __name__ == "__main__":
    harness.main("C06", __file__, body, replay,
                 bounds="orders 0-5; 0-3 images (0-5 thorough); 2 points / "
                 "3-vertex polygon / 2-patch mesh sharing vertices, any "
                 "cover height, voltages and observation point",
                 outside="rounding; convergence rate of the image series; "
                 "observation points on an image of the electrode plane",
                 fallback=lambda r: [case(k, n, m)(gen(r)) for k in ("point", "polygon", "mesh",
                                                            "cover")
                                     for n in range(6) for m in (0, 2)])
