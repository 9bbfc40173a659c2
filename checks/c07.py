"""C07: a system's electrical potential is the voltage-weighted sum of its
electrodes' unit potentials, point by point."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract
import kern
from kern import X, Y, Z

H = S.var("h")
X2 = [S.var(i) for i in ("x2", "y2", "z2")]
VAR = [k+str(i) for k in "uw" for i in range(6)]
VOLT = ["dc%d" % i for i in range(4)] + ["rf%d" % i for i in range(4)]


def gen(r):
    d = {k: r.uniform(-1, 1) for k in VAR + ["x", "y", "x2", "y2"]}
    d.update({k: r.choice([0, 1, 1, 1])*r.uniform(-2, 2) for k in VOLT})
    d.update(z=r.uniform(.3, 1), z2=r.uniform(.3, 1), h=r.uniform(2, 3),
             k=r.uniform(.5, 2), t=r.uniform(0, 6), v1=r.uniform(-1, 1),
             v2=r.uniform(-1, 1))
    return d


def case(n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update({k: v for k, v in en.items() if isinstance(v, (int, float))})
        return dict(order=n, env=e)
    return f


def electrodes(m, g, arr):
    p = [[g("u%d" % i), g("w%d" % i)] for i in range(6)]
    kw = dict(cover_height=g("h"), cover_nmax=1)
    return [m.PointPixelElectrode(points=arr(p[:2]), areas=arr([1., 2.]),
                                  name="a", dc=g("dc0"), rf=g("rf0"), **kw),
            m.PolygonPixelElectrode(paths=[arr(p[2:5])], name="b",
                                    dc=g("dc1"), rf=g("rf1")),
            m.CoverElectrode(height=g("h"), name="c", dc=g("dc2"),
                             rf=g("rf2")),
            m.MeshPixelElectrode(points=arr(p[3:]), edges=[[0, 1], [1, 2],
                                                           [2, 0]],
                                 polygons=[0, 0, 1],
                                 potentials=arr([g("v1"), g("v2")]),
                                 name="d", dc=g("dc3"), rf=g("rf3"))]


def body(c):
    import numpy as np
    import npshim
    pkg = load.Pkg()
    el, sy, ut = pkg["electrode"], pkg["system"], pkg["utils"]
    arr = npshim.oarr
    c.encoded("system.System.electrical_potential",
              "system.System.individual_potential",
              "system.System.time_potential", "utils.expand_tensor",
              "electrode.PointPixelElectrode.potential",
              "electrode.PolygonPixelElectrode.potential",
              "electrode.MeshPixelElectrode.potential",
              "electrode.CoverElectrode.potential",
              "cexpressions.point_potential", "cexpressions.polygon_potential",
              "cexpressions.mesh_potential")
    es = electrodes(el, S.var, arr)
    xs = arr([[X, Y, Z], X2])
    k = S.var("k")
    one = arr([[X, Y, Z]])
    at2 = dict(zip((X, Y, Z), X2))

    def zero(nm, e, n, pc=()):
        c.zero(nm, S.lincollect(S.normalize(e)), pc, case=case(n), gen=gen)

    for n in range(6):
        unit = []
        for e in es:
            u = e.potential(one, n)
            unit.append(list(u[0]))
            # linear in the voltage, accumulates, batches
            b = arr([[S.var("o%d_%d" % (j, i)) for i in range(2*n+1)]
                     for j in range(2)])
            b0 = b.copy()
            r = e.potential(xs, n, k, b)
            c.fact("%s order %d: returns the given buffer" % (e.name, n),
                   r is b, case(n))
            for j in range(2):
                for i in range(2*n+1):
                    u = unit[-1][i]
                    if j:
                        u = S.subst(u, at2)
                    d = S.lincollect(r[j][i] - b0[j][i])
                    p = S.pull_linear(d, k)
                    zero("%s order %d point %d component %d: adds voltage "
                         "times unit potential" % (e.name, n, j, i),
                         (d - k*u) if p is None else (p - u), n)
    # the system, for electrodes with arbitrary unit potentials
    A = abstract.electrode_class(pkg)
    es = [A(name="e%d" % m, dc=S.var("dc%d" % m), rf=S.var("rf%d" % m))
          for m in range(4)]
    s = sy.System(es)
    for n in range(6):
        unit = [[abstract.unit(q.name, x, n) for x in xs] for q in es]
        ind = s.individual_potential(xs, n)
        c.fact("individual potentials order %d: shape" % n,
               ind.shape == (4, 2, 2*n+1), case(n))
        for m, j, i in np.ndindex(4, 2, 2*n+1):
            zero("individual %d order %d point %d component %d" % (
                m, n, j, i), ind[m][j][i]-unit[m][j][i], n)
        for typ in ("dc", "rf"):
            vs = [S.var("%s%d" % (typ, m)) for m in range(4)]
            # every pattern of zero voltages is a path
            for pc, r, exc in c.explore(
                    lambda: s.electrical_potential(xs, n, typ)):
                c.fact("%s order %d: no exception (%s)" % (typ, n, exc),
                       exc is None, case(n))
                for j, i in np.ndindex(2, 2*n+1):
                    e = r[j][i] - sum((vs[m]*unit[m][j][i]
                                       for m in range(4)), S.ZERO)
                    zero("%s order %d point %d component %d = sum of "
                         "voltages times unit potentials" % (
                             typ, n, j, i), harness.under(pc, e), n, pc)
        nz = [S.bnot(S.cmp_("==", S.var(q), S.ZERO)) for q in VOLT]

        def run():
            r = s.electrical_potential(xs, n, "dc")
            f = n <= 5 and s.electrical_potential(xs, n, "dc", expand=True)
            l = s.electrical_potential([X, Y, Z], n, "dc")
            t = s.time_potential(xs, n, S.var("t"))
            te = s.time_potential(xs, n, S.var("t"), expand=True)
            return r, f, l, t, te, s.electrical_potential(xs, n, "rf")
        for pc, res, exc in c.explore(run, nz):
            c.fact("order %d: no exception (%s)" % (n, exc), exc is None,
                   case(n))
            if exc:
                continue
            r, f, l, tt, te, d1 = res
            ct = S.fn("cos", S.var("t"))
            ex = ut.expand_tensor(r, n) if n else r.reshape(f.shape)
            ex2 = ut.expand_tensor(d1, n) if n else d1.reshape(f.shape)
            c.fact("order %d: shape of the expanded tensor" % n,
                   n == 0 or f.shape == (2,) + (3,)*n, case(n))
            for ix in np.ndindex(*f.shape):
                zero("order %d: expanded %s" % (n, ix), f[ix]-ex[ix], n, nz)
                zero("order %d: potential at an instant, expanded %s" % (
                    n, ix), te[ix]-ex[ix]-ct*ex2[ix], n, nz)
            for i in range(2*n+1):
                zero("order %d: single point component %d" % (n, i),
                     l[0][i]-r[0][i], n, nz)
                for j in range(2):
                    zero("order %d: potential at an instant, point %d "
                         "component %d" % (n, j, i),
                         tt[j][i] - r[j][i] - ct*d1[j][i], n, nz)


def replay(case):
    import numpy as np
    import electrode.electrode as el
    from electrode import System, utils
    e, n = case["env"], case["order"]
    if abs(e["z"]) < .1 or abs(e["z2"]) < .1 or not .5 < abs(e["h"]) < 20:
        return None
    arr = lambda a: np.array(a, float)
    es = electrodes(el, lambda q: e[q], arr)
    s = System(es)
    xs = arr([[e["x"], e["y"], e["z"]], [e["x2"], e["y2"], e["z2"]]])
    sets = [e] + [dict(e, **{v: 0. for v in VOLT[i::4]}) for i in range(4)]
    close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(
        a, b, rtol=1e-7, atol=1e-9*(np.abs(b).max() + 1e-9))
    unit = np.array([[q.potential(xs[j:j+1], n)[0] for j in range(2)]
                     for q in es])
    ind = s.individual_potential(xs, n)
    if not close(ind, unit):
        return "individual potentials order %d: %s, one by one %s" % (
            n, ind.tolist(), unit.tolist())
    for m, q in enumerate(es):
        out = np.ones((2, 2*n+1))
        r = q.potential(xs, n, e["k"], out)
        if r is not out or not close(r, 1 + e["k"]*unit[m]):
            return "%s order %d does not add voltage times unit potential" % (
                q.name, n)
    for e in sets:
        pots = []
        for typ in ("dc", "rf"):
            v = np.array([e["%s%d" % (typ, m)] for m in range(4)])
            setattr(s, typ+"s", v)
            got = s.electrical_potential(xs, n, typ)
            want = np.tensordot(v, unit, 1)
            if not close(got, want):
                return "%s potential order %d at voltages %s: %s, " \
                    "superposition %s" % (typ, n, v.tolist(), got.tolist(),
                                          want.tolist())
            pots.append(got)
            one = s.electrical_potential(list(xs[1]), n, typ)
            if not close(one, want[1:]):
                return "single point differs from batch: order %d" % n
            if n:
                full = s.electrical_potential(xs, n, typ, expand=True)
                if not close(full, utils.expand_tensor(want, n)):
                    return "expanded tensor order %d" % n
        tp = s.time_potential(xs, n, e["t"])
        if not close(tp, pots[0] + np.cos(e["t"])*pots[1]):
            return "time potential order %d: %s" % (n, tp.tolist())
        if n:
            tp = s.time_potential(xs, n, e["t"], expand=True)
            if not close(tp, utils.expand_tensor(
                    pots[0] + np.cos(e["t"])*pots[1], n)):
                return "expanded time potential order %d" % n
    return None


if __name__ == "__main__":
    harness.main("C07", __file__, body, replay,
                 bounds="4 electrodes (points with one cover image, polygon, "
                 "cover, mesh), 2 observation points, orders 0-5, any "
                 "geometry and voltages including every pattern of zero "
                 "voltages; expansion and instants orders 0-3",
                 outside="rounding; grid electrodes (C23)",
                 fallback=lambda r: [case(n)(gen(r)) for n in range(6)])
