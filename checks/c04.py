"""C04: the pure-Python kernels (used where the extension is not built) give
the same values as the compiled ones, for points, polygons and meshes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import kern
from kern import X, Y, Z

H = S.var("h")


def gen(r):
    d = kern.edge_gen(r)
    for k in ("u", "w"):
        d.update({k+i: r.uniform(-1, 1) for i in ("0", "1", "2", "3", "4",
                                                  "5", "6", "7", "8", "9")})
    d.update(h=r.uniform(1.5, 3), x2=r.uniform(-1, 1), y2=r.uniform(-1, 1),
             z2=r.uniform(.4, 1), V2=r.uniform(-1, 1))
    return d


def case(kind, n, nmax):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update({k: v for k, v in en.items() if isinstance(v, (int, float))})
        return dict(kind=kind, order=n, nmax=nmax, env=e)
    return f


def geometry(g, arr):
    pts = [[g("u%d" % i), g("w%d" % i)] for i in range(7)]
    return dict(
        x=arr([[g("x"), g("y"), g("z")], [g("x2"), g("y2"), g("z2")]]),
        points=arr(pts[:2]), areas=arr([g("u8"), g("u9")]),
        paths=[arr(pts[:3]), arr(pts[3:7])], verts=arr(pts[:4]),
        edges=[[0, 1], [1, 2], [2, 0], [0, 2], [2, 3], [3, 0]],
        polygons=[0, 0, 0, 1, 1, 1], potentials=arr([g("v"), g("V2")]),
        v=g("v"), h=g("h"))


def evaluate(mod, kind, n, nmax, G, intc=None, out=None):
    if kind == "point":
        return mod.point_potential(G["x"], G["points"], G["areas"], G["v"],
                                   n, nmax, G["h"], out)
    if kind == "polygon":
        return mod.polygon_potential(G["x"], G["paths"], G["v"], n, nmax,
                                     G["h"], out)
    return mod.mesh_potential(G["x"], G["verts"], intc(G["edges"]),
                              intc(G["polygons"]), G["potentials"], n, nmax,
                              G["h"], out)


def body(c):
    import numpy as np
    import npshim
    pkg = load.Pkg()
    cm, pm = pkg["cexpressions"], pkg["expressions"]
    c.encoded(*["%s.%s" % (m, f) for m in ("cexpressions", "expressions")
                for f in ("point_potential", "polygon_potential",
                          "mesh_potential", "edge_potential_expr",
                          "point_potential_expr")])
    ints = lambda a: np.array(a, np.intc)
    # one edge / one point, no cover: the formulas
    ax, ay, bx, by, v = kern.edge_syms()
    xs = kern.xsym()
    edge = npshim.oarr([[ax, ay], [bx, by]])
    items = []
    for n in range(6):
        a = cm.mesh_potential(xs, edge, ints([[0, 1]]), ints([0]),
                              npshim.oarr([v]), n, 0, S.ONE, None)[0]
        b = pm.mesh_potential(xs, edge, ints([[0, 1]]), ints([0]),
                              npshim.oarr([v]), n, 0, S.ONE, None)[0]
        if n == 0:
            (p1, q1, c1), (p2, q2, c2) = map(kern.atan_args,
                                             kern_list(a, b))
            items += [("order 0: same angle", kern.origin(p1*q2*c1
                                                          - p2*q1*c2),
                       kern.OFF, case("mesh", 0, 0), gen),
                      ("order 0: same factor", c1*c1-c2*c2, (),
                       case("mesh", 0, 0), gen)]
            positive(c, [("compiled", q1), ("python", q2)])
        else:
            for i in range(2*n+1):
                items.append(("edge order %d component %d" % (n, i),
                              kern.origin(a[i]-b[i]), (),
                              case("mesh", n, 0), gen))
        pt = npshim.oarr([[ax, ay]])
        a = cm.point_potential(xs, pt, npshim.oarr([v]), bx, n, 0, S.ONE,
                               None)[0]
        b = pm.point_potential(xs, pt, npshim.oarr([v]), bx, n, 0, S.ONE,
                               None)[0]
        for i in range(2*n+1):
            items.append(("point order %d component %d" % (n, i),
                          kern.origin(a[i]-b[i]), (), case("point", n, 0),
                          gen))
    c.zeros(items)

    # loops: several observation points, sources, images; caller's buffer
    G = geometry(S.var, npshim.oarr)
    for kind in ("point", "polygon", "mesh"):
        items = []
        for n, nmax in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1),
                        (3, 0), (4, 0), (5, 0)):
            o1 = npshim.oarr([[S.var("o%d_%d" % (j, i)) for i in
                               range(2*n+1)] for j in range(2)])
            o2 = o1.copy()
            a = evaluate(cm, kind, n, nmax, G, ints, o1)
            b = evaluate(pm, kind, n, nmax, G, ints, o2)
            c.fact("%s order %d: the caller's buffer is returned" % (kind, n),
                   a is o1 and b is o2, case("buf-"+kind, n, nmax))
            if n == 0:
                a, b = [[[kern.as_atan(t) for t in r] for r in m]
                        for m in (a, b)]
            for j in range(2):
                for i in range(2*n+1):
                    d = S.lincollect(S.normalize(a[j][i]-b[j][i]))
                    items.append((
                        "%s loop order %d images %d point %d component %d"
                        % (kind, n, nmax, j, i), d, (),
                        case(kind, n, nmax), gen))
        c.zeros(items)


def kern_list(a, b):
    return [a[0], b[0]]


def positive(c, qs):
    """Off the plane the arctangent denominators are positive, so the two
    arctangent forms agree."""
    A, B = S.var("A"), S.var("B")
    ax, ay, bx, by, v = kern.edge_syms()
    R1 = ax**2 + ay**2 + Z**2
    R2 = bx**2 + by**2 + Z**2
    for nm, q in qs:
        q = S.normalize(kern.origin(q))
        m = {}
        for n in S.topo(q):
            if isinstance(n, S.E) and n.op == "sqrt":
                for t, R in ((A, R1), (B, R2)):
                    if c.P.prove_zero(n.args[0]-R)[0] == "unsat":
                        m[n] = t
        q = S.subst(q, m)
        c.holds("order 0 (%s): denominator positive off the plane" % nm,
                S.const(0) < q,
                kern.OFF + [abs(Z) <= A, abs(Z) <= B,
                            abs(ax*bx + ay*by + Z**2) <= A*B],
                case=case("mesh", 0, 0))
    c.holds("Cauchy-Schwarz for the radicals",
            (ax*bx + ay*by + Z**2)**2 <= R1*R2)


def replay(case):
    import numpy as np
    from electrode import cexpressions as cm, expressions as pm
    kind = case["kind"]
    buf = kind.startswith("buf-")
    kind = kind.replace("buf-", "")
    e = case["env"]
    if abs(e["z"]) < .1 or abs(e["z2"]) < .1:
        return None
    e = dict(e)
    if "ax" in e:
        e.update(u0=e["ax"], w0=e["ay"], u1=e["bx"], w1=e["by"])
    G = geometry(lambda k: e[k], lambda a: np.array(a, float))
    r = []
    n = case["order"]
    ints = lambda a: np.array(a, np.intc)
    for mod in cm, pm:
        out = np.ones((2, 2*n+1))
        res = evaluate(mod, kind, n, case["nmax"], G, ints, out)
        if res is not out:
            return "%s %s does not return the given buffer" % (
                mod.__name__, kind)
        r.append(res.copy())
    if not np.allclose(r[0], r[1], rtol=1e-6,
                       atol=1e-8*np.abs(r[0]).max()):
        return "%s order %d: compiled %s, python %s" % (
            kind, n, r[0].tolist(), r[1].tolist())
    return None


if __name__ == "__main__":
    harness.main("C04", __file__, body, replay,
                 bounds="derivative orders 0-5; formulas for any edge, point, "
                 "voltage and observation point off the plane; loops for 2 "
                 "observation points, 2 points / 2 paths of 3 and 4 vertices "
                 "/ 6 mesh edges sharing vertices, 0-2 cover images, any "
                 "initial buffer content",
                 outside="rounding; observation points on the electrode "
                 "plane (0 vs nan there); the numba-compiled variant of the "
                 "Python kernels (numba is not installed)",
                 fallback=lambda r: [case(k, n, m)(gen(r)) for k in ("point", "polygon", "mesh")
                                     for n in range(6) for m in (0, 1)])
