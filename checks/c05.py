"""C05: the potential of an electrode depends on its geometry only: moving,
turning or scaling trap and observer together, choosing another start vertex
or cutting a patch in two changes nothing; reversing a path negates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import X, Y, Z, NAMES


def gen(r):
    d = kern.edge_gen(r)
    d.update(sx=r.uniform(-1, 1), sy=r.uniform(-1, 1), t=r.uniform(-1, 1),
             l=r.uniform(.5, 2))
    return d


def case(kind, n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update({k: v for k, v in en.items() if isinstance(v, (int, float))})
        return dict(kind=kind, order=n, env=e)
    return f


def body(c):
    import numpy as np
    import npshim
    pkg = load.Pkg()
    el, ut = pkg["electrode"], pkg["utils"]
    ax, ay, bx, by, v = kern.edge_syms()
    cx, cy, dx, dy = [S.var(i) for i in ("cx", "cy", "dx", "dy")]
    sx, sy, t, l = [S.var(i) for i in ("sx", "sy", "t", "l")]
    c.encoded("electrode.PointPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "electrode.MeshPixelElectrode.potential",
              "cexpressions.point_potential", "cexpressions.polygon_potential",
              "cexpressions.mesh_potential",
              "cexpressions.edge_potential_expr",
              "cexpressions.point_potential_expr", "utils.expand_tensor",
              "utils.rotate_tensor")

    def edge(a, b, x, n):
        e = el.MeshPixelElectrode(points=npshim.oarr([list(a), list(b)]),
                                  edges=[[0, 1]], polygons=[0],
                                  potentials=npshim.oarr([v]))
        return list(e.potential(npshim.oarr([list(x)]), n)[0])

    def point(a, x, n, area=v):
        e = el.PointPixelElectrode(points=npshim.oarr([list(a)]),
                                   areas=npshim.oarr([area]))
        return list(e.potential(npshim.oarr([list(x)]), n)[0])

    def poly(pts, x, n):
        e = el.PolygonPixelElectrode(paths=[npshim.oarr(
            [list(p) for p in pts])])
        return list(e.potential(npshim.oarr([list(x)]), n, v)[0])

    A, B, O = (ax, ay), (bx, by), (X, Y, Z)
    mv = lambda p: (p[0]+sx, p[1]+sy) + tuple(p[2:])
    items, heavy = [], []

    def same(name, got, want, n, kind, hv=False, off=()):
        for i in range(len(want)):
            g, w = got[i], want[i]
            if n == 0:
                ga, wa = kern.atan_args(g), kern.atan_args(w)
                es = [ga[0]*wa[1]*ga[2] - wa[0]*ga[1]*wa[2]]
                es.append(ga[2]**2 - wa[2]**2)
            else:
                es = [g-w]
            for e in es:
                (heavy if hv else items).append((
                    "%s order %d component %s" % (
                        name, n, NAMES[n][i] if len(want) > 1 or n == 0
                        else i), e, off, case(kind, n), gen))

    def unfold(t, n):
        return ut.expand_tensor(npshim.oarr([t]), n)[0]

    den = 1 + t**2
    co, si = (1 - t**2)/den, 2*t/den
    R = [[co, -si, S.ZERO], [si, co, S.ZERO], [S.ZERO, S.ZERO, S.ONE]]

    def rot(p):
        return tuple([co*p[0] - si*p[1], si*p[0] + co*p[1]] + list(p[2:]))

    def rotate(T, n):
        for k in range(n):
            T = np.moveaxis(np.tensordot(np.array(R, object), T,
                                         axes=(1, k)), 0, k)
        return T
    o = {X: S.ZERO, Y: S.ZERO}
    O0 = (S.ZERO, S.ZERO, Z)
    for n in range(6):
        E = edge(A, B, O, n)
        P = point(A, O, n)
        same("moved edge", [S.normalize(q) for q in
                            edge(mv(A), mv(B), mv(O), n)],
             [S.normalize(q) for q in E], n, "edge")
        for i, (p, q) in enumerate(zip(point(mv(A), mv(O), n), P)):
            items.append(("moved point order %d component %s" % (
                n, NAMES[n][i]), S.normalize(p-q), (), case("point", n), gen))
        E0, P0 = S.subst(E, o), S.subst(P, o)
        # mirror
        sg = [(-1)**(1+m.count("z")) for m in NAMES[n]]
        same("mirrored edge", edge(A, B, (S.ZERO, S.ZERO, -Z), n),
             [s*q for s, q in zip(sg, E0)], n, "edge", off=kern.OFF)
        for i, (p, q) in enumerate(zip(point(A, (X, Y, -Z), n), P)):
            items.append(("mirrored point order %d component %s" % (
                n, NAMES[n][i]), S.normalize(p-sg[i]*q), (),
                case("point", n), gen))
        # reversed
        same("reversed edge", edge(B, A, O0, n), [-q for q in E0], n, "edge",
             hv=n > 2)
        # an edge of no length contributes nothing
        Z0 = edge(A, A, O0, n)
        for i, q in enumerate(Z0):
            if n == 0:
                q = kern.atan_args(q)[0]
            items.append(("empty edge order %d component %s" % (
                n, NAMES[n][i]), q, (), case("edge", n), gen))
        # scaled
        pos = [S.cmp_("<", S.ZERO, l)]
        m = lambda p: tuple(l*q for q in p)
        ra, rb = [S.sqrt(p[0]**2 + p[1]**2 + Z**2) for p in (A, B)]
        SE = edge(m(A), m(B), m(O0), n)
        SE = [pull(q, l, c, pos) for q in SE]
        same("scaled edge", [q*l**n for q in SE], E0, n, "edge",
             hv=n > 2, off=pos)
        SP = [pull(q, l, c, pos) for q in point(m(A), m(O), n, v*l**2)]
        for i, (p, q) in enumerate(zip(SP, P)):
            items.append(("scaled point order %d component %s" % (
                n, NAMES[n][i]), p*l**n-q, pos, case("point", n), gen))
        # turned about z
        if n <= (3 if harness.THOROUGH else 2):
            Tp = rotate(unfold(P0, n), n) if n else np.array(P0, object)
            Rp = point(rot(A), O0, n)
            Rp = unfold(Rp, n) if n else np.array(Rp, object)
            for ix in np.ndindex(*Tp.shape):
                items.append(("turned point order %d %s" % (n, ix),
                              Rp[ix]-Tp[ix], (), case("point", n), gen))
        if n <= (2 if harness.THOROUGH else 1):
            RE = edge(rot(A), rot(B), O0, n)
            if n == 0:
                same("turned edge", RE, E0, 0, "edge", hv=True,
                     off=kern.OFF)
            else:
                Tp, RE = rotate(unfold(E0, n), n), unfold(RE, n)
                for ix in np.ndindex(*Tp.shape):
                    heavy.append(("turned edge order %d %s" % (n, ix),
                                  RE[ix]-Tp[ix], (), case("edge", n), gen))
        # start vertex, cutting along a chord
        D4 = [A, B, (cx, cy), (dx, dy)]
        if n <= 3 or harness.THOROUGH:
            full = poly(D4, O, n)
            turned = poly(D4[1:] + D4[:1], O, n)
            for i in range(2*n+1):
                items.append(("start vertex order %d component %d" % (n, i),
                              S.lincollect(S.normalize(full[i]-turned[i])),
                              (), case("poly", n), gen))
            d1, d2 = poly(D4[:3], O, n), poly([D4[0]] + D4[2:], O, n)
            ch1 = edge((cx, cy), A, O, n)
            ch2 = edge(A, (cx, cy), O, n)
            for i in range(2*n+1):
                items.append((
                    "cut along a chord order %d component %d" % (n, i),
                    S.lincollect(S.normalize(
                        d1[i] + d2[i] - full[i] - ch1[i] - ch2[i])),
                    (), case("poly", n), gen))
    # a straight edge may be split: its growth does not depend on its start
    E1 = edge(A, B, O0, 1)
    A2 = (bx - t*(bx-ax), by - t*(by-ay))
    E1s = edge(A2, B, O0, 1)
    g = lambda T: [S.diff(T, {w: S.ONE}) for w in (bx, by)]
    u = (bx-ax, by-ay)
    r3 = S.sqrt(bx**2 + by**2 + Z**2)**3*2*S.PI
    ref = [-Z*u[1], Z*u[0], u[0]*by - u[1]*bx]
    G = g(E1)
    for k in range(3):
        heavy.append(("an edge grows independently of its start (%s)"
                      % "xyz"[k], u[0]*G[0][k] + u[1]*G[1][k]
                      - v*ref[k]/r3, (), case("edge", 1), gen))
    c.zeros(items + heavy[::-1])


def pull(e, l, c, pos):
    """sqrt(l^2 q) -> l sqrt(q), |l z| -> l |z| (each proved)."""
    m = {}
    for n in S.topo(e):
        if isinstance(n, S.E) and n.op == "sqrt":
            q = S.subst(n.args[0], {l: S.ONE})
            r, _ = c.P.prove_zero(n.args[0] - l**2*q)
            if r == "unsat":
                m[n] = l*S.sqrt(q)
        elif isinstance(n, S.E) and n.op == "abs":
            q = S.subst(n.args[0], {l: S.ONE})
            r, _ = c.P.prove_zero(n.args[0] - l*q)
            if r == "unsat":
                m[n] = l*abs(q)
    return S.subst(e, m) if m else e


def replay(case):
    import numpy as np
    from electrode import PolygonPixelElectrode, PointPixelElectrode, utils
    from electrode.electrode import MeshPixelElectrode
    e, n = case["env"], case["order"]
    P = np.array([[e[k+"x"], e[k+"y"]] for k in "abcd"])
    x = np.array([e["x"], e["y"], e["z"]])
    if abs(x[2]) < .1 or not .2 < abs(e["l"]) < 5:
        return None
    l, th = abs(e["l"]), 2*np.arctan(e["t"])
    s = np.array([e["sx"], e["sy"]])
    R = np.array([[np.cos(th), -np.sin(th), 0],
                  [np.sin(th), np.cos(th), 0], [0, 0, 1]])

    def poly(P, x):
        return PolygonPixelElectrode(paths=[P]).potential(
            x[None], n, e["v"])[0]

    def mesh(P, x):
        k = len(P)
        return MeshPixelElectrode(
            points=P, edges=[[i-1 if i else k-1, i] for i in range(k)],
            polygons=[0]*k, potentials=[e["v"]]).potential(x[None], n)[0]

    def point(P, x, a=1.):
        return PointPixelElectrode(points=P, areas=a*np.ones(len(P))
                                   ).potential(x[None], n, e["v"])[0]
    sg = np.array([(-1)**(1+m.count("z")) for m in NAMES[n]])

    def rotated(f):
        T = utils.expand_tensor(f[None], n)[0] if n else f
        for k in range(n):
            T = np.moveaxis(np.tensordot(R, T, axes=(1, k)), 0, k)
        return utils.select_tensor(T[None], n)[0] if n else f
    for nm, f in ("polygon", poly), ("mesh", mesh), ("point", point):
        ref = f(P, x)
        s3 = np.r_[s, 0]
        tests = [("moved", f(P+s, x+s3), ref),
                 ("mirrored", f(P, x*[1, 1, -1]), sg*ref),
                 ("scaled", (f(P*l, x*l, l**2) if f is point
                             else f(P*l, x*l))*l**n, ref),
                 ("turned", f(P.dot(R[:2, :2].T), R.dot(x)), rotated(ref))]
        if f is not point:
            mid = (P[:1] + P[1:2])/2
            tests += [("reversed", f(P[::-1], x), -ref),
                      ("start vertex", f(np.roll(P, 1, 0), x), ref),
                      ("cut", f(P[:3], x) + f(P[[0, 2, 3]], x), ref),
                      ("split edge", f(np.r_[P[:1], mid, P[1:]], x), ref),
                      ("doubled vertex", f(np.r_[P[:1], P], x), ref)]
        for k, a, b in tests:
            if np.abs(a-b).max() > 1e-6*(np.abs(ref).max() + 1e-9):
                return "%s %s order %d: %s != %s at %s" % (
                    k, nm, n, a.tolist(), b.tolist(), x.tolist())
    return None


if __name__ == "__main__":
    harness.main("C05", __file__, body, replay,
                 bounds="orders 0-5 for moving, mirroring, scaling and "
                 "reversing any edge or point; turning about z: points "
                 "orders 0-2 (3 thorough), edges 0-1 (2 thorough); start "
                 "vertex and chord cut for 4 vertices, orders 0-3 (5 "
                 "thorough)",
                 outside="rounding; points on the electrode plane; rotation "
                 "by exactly 180 degrees (limit of the parametrisation)",
                 fallback=lambda r: [case("poly", n)(gen(r)) for n in range(6)])
