"""C25: spherical harmonics and spherical coordinates: synthesis is the sum
over the harmonics, analysis inverts it, coordinates and differentials
transform there and back, grids on spheres."""
import math
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

EPS = S.Fraction(1, 10**9)


def sizes():
    return [1, 2, 3, 4] + ([5, 6] if harness.THOROUGH else [])


def names(k, n, m):
    return [["%s%d_%d_%d" % (q, k, i, j) for q in ("re", "im")]
            for i in range(n) for j in range(m)]


def gen(r):
    d = dict(r=r.uniform(.3, 2), th=r.uniform(.1, 3), ph=r.uniform(-3, 3),
             x=r.uniform(-1, 1), y=r.uniform(-1, 1), z=r.uniform(-1, 1))
    for i in range(3):
        d["d%d" % i] = r.uniform(-1, 1)
    for i in range(2):
        for j in range(3):
            d["o%d%d" % (i, j)] = r.uniform(-1, 1)
    for k in range(1, 7):
        for q in names(k, k, 2*k):
            for v in q:
                d[v] = r.uniform(-1, 1)
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


def legendre(n, m, x):
    """Associated Legendre function with the Condon-Shortley phase from
    explicit derivatives of (x^2 - 1)^n."""
    F = S.Fraction
    c = [F(0)]*(2*n+1)
    for k in range(n+1):
        c[2*k] = F((-1)**(n-k)*math.comb(n, k))
    for _ in range(n+m):
        c = [c[i]*i for i in range(1, len(c))]
    p = sum(float(v)*x**i for i, v in enumerate(c))
    return (-1)**m*(1-x*x)**(m/2.)*p/(2**n*math.factorial(n))


def Y(n, m, th, ph):
    k = abs(m)
    f = math.sqrt((2*n+1)/(4*math.pi)*math.factorial(n-k)
                  / math.factorial(n+k))
    p = f*legendre(n, k, math.cos(th))
    y = complex(p*math.cos(k*ph), p*math.sin(k*ph))
    return y if m >= 0 else (-1)**k*y.conjugate()


def place(nmax, n, m):
    return (m, n) if m >= 0 else (nmax+m, nmax-1-n)


def index(nmax):
    return [(n, m) for n in range(nmax) for m in range(-n, n+1)]


def sphere(nmax):
    import numpy
    x = numpy.polynomial.legendre.leggauss(nmax)
    return x, [math.pi*k/nmax for k in range(2*nmax)]


class FFT(object):
    """Fourier transforms of symbolic arrays along one axis."""

    def __init__(self, numpy):
        self.np = numpy

    def _do(self, a, axis, sign, norm):
        np = self.np
        a = np.moveaxis(np.array(a, object), axis, 0)
        n = len(a)
        w = [[complex(np.exp(sign*2j*np.pi*((j*k) % n)/n))
              for k in range(n)] for j in range(n)]
        out = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape[1:]):
            for k in range(n):
                t = S.Cx(0)
                for j in range(n):
                    t = t + S.Cx(a[(j,) + i])*S.Cx(w[j][k])
                out[(k,) + i] = t/S.Cx(n) if norm else t
        import npshim
        return npshim.oarr(np.moveaxis(out, 0, axis))

    def fft(self, a, n=None, axis=-1):
        if n is not None:
            raise S.Unsupported("fft with padding")
        return self._do(a, axis, -1, False)

    def ifft(self, a, n=None, axis=-1):
        if n is not None:
            raise S.Unsupported("fft with padding")
        return self._do(a, axis, 1, True)


def body(c):
    old = S._from_float
    try:
        # constants of the quadrature are exact doubles
        S._from_float = lambda f: S.const(S.Fraction(f))
        transform(c)
    finally:
        S._from_float = old
    coordinates(c)


def within(e, scale=1):
    e = S.need(S.lift(e))
    return S.band(S.cmp_("<=", e, S.const(EPS*scale)),
                  S.cmp_("<=", S.const(-EPS*scale), e))


def transform(c):
    import numpy, npshim
    pkg = load.Pkg()
    pkg.np.pi = math.pi
    pkg.np.fft = FFT(numpy)
    sh = pkg["spherical_harmonics"]
    c.encoded(*["spherical_harmonics.SphericalHarmonics." + q for q in (
        "__init__", "indices", "analysis", "synthesis", "spherical_grid",
        "cartesian_grid")] + ["grid.SphericalGrid"])
    cl = lambda z: z if isinstance(z, S.Cx) else S.Cx(z)
    hs = []
    for k in sizes():
        s = sh.SphericalHarmonics(k)
        ca = case("transform", k=k)
        tag = "nmax %d" % k
        (x, w), ph = sphere(k)
        ix = [tuple(map(int, q)) for q in s.indices()]
        c.fact(tag + ": indices", len(ix) == k*k and sorted(ix) == sorted(
            (n, m) + place(k, n, m) for n, m in index(k)), ca)
        th, pg = [numpy.asarray(q, float) for q in s.spherical_grid()]
        c.fact(tag + ": grid shape", th.shape == pg.shape == (k, 2*k), ca)
        if not th.shape == pg.shape == (k, 2*k):
            continue
        c.fact(tag + ": grid", all(
            abs(math.cos(th[i, j]) - math.cos(th[i, 0])) < 1e-12 and
            abs(pg[i, j] - ph[j]) < 1e-12 for i in range(k)
            for j in range(2*k)) and numpy.allclose(
                sorted(numpy.cos(th[:, 0])), sorted(x), atol=1e-12), ca)
        y = {(n, m, i, j): Y(n, m, th[i, j], pg[i, j])
             for n, m in index(k) for i in range(k) for j in range(2*k)}
        wt = [float(w[numpy.argmin(abs(x - math.cos(t)))])*math.pi/k
              for t in th[:, 0]]
        for cplx in (True, False):
            nm = names(k, k, k)
            nf = names(k, k, 2*k)
            val = (lambda q: S.Cx(S.var(q[0]), S.var(q[1]))) if cplx else (
                lambda q: S.var(q[0]))
            rng = lambda q: [b for v in q[:1 + cplx] for b in (
                S.cmp_("<=", S.const(-1), S.var(v)),
                S.cmp_("<=", S.var(v), S.ONE))]
            mk = lambda q, m: npshim.oarr(numpy.array(
                [val(z) for z in q] + [None], object)[:-1].reshape(k, m))
            a, f = mk(nm, k), mk(nf, 2*k)
            ra, rf = sum(map(rng, nm), []), sum(map(rng, nf), [])
            tg = "%s %s" % (tag, "complex" if cplx else "real")
            ca = case("transform", k=k, cplx=cplx)
            for pc, r, exc in c.explore(lambda: (lambda g: (
                    g, s.analysis(g), s.analysis(f)))(s.synthesis(a))):
                c.fact("%s: no exception %r" % (tg, exc), exc is None, ca)
                if exc:
                    continue
                g, a2, af = r
                ok = numpy.shape(g) == (k, 2*k) and \
                    numpy.shape(a2) == numpy.shape(af) == (k, k)
                c.fact("%s: shapes" % tg, ok, ca)
                if not ok:
                    continue
                for i, j in numpy.ndindex(k, 2*k):
                    t = S.Cx(0)
                    for n, m in index(k):
                        t = t + cl(a[place(k, n, m)])*S.Cx(y[n, m, i, j])
                    e = cl(g[i, j]) - t
                    hs.append(("%s: synthesis %d %d" % (tg, i, j), S.band(
                        within(e.re), within(e.im)), pc + ra, ca, gen))
                for n, m in index(k):
                    p = place(k, n, m)
                    t = S.Cx(0)
                    for i, j in numpy.ndindex(k, 2*k):
                        t = t + cl(f[i, j])*S.Cx(
                            y[n, m, i, j].conjugate()*wt[i])
                    e = cl(af[p]) - t
                    hs.append(("%s: analysis %d %d" % (tg, n, m), S.band(
                        within(e.re), within(e.im)), pc + rf, ca, gen))
                    e = cl(a2[p]) - cl(a[p])
                    hs.append(("%s: inverse %d %d" % (tg, n, m), S.band(
                        within(e.re), within(e.im)), pc + ra, ca, gen))

    # grids on spheres
    G = pkg["grid"]
    r = S.var("r")
    for k, o in ((2, 1), (3, 2), (1, 2)):
        og = npshim.oarr([[S.var("o%d%d" % (i, j)) for j in range(3)]
                          for i in range(o)])
        ca = case("grid", k=k, o=o)
        tag = "sphere %d, %d origins" % (k, o)
        ph = sphere(k)[1]
        for pc, g, exc in c.explore(lambda: (lambda g: (
                g.to_mgrid(), g.shape, g.to_points(), g.theta, g.phi))(
                G.SphericalGrid(og, r=r, n=k))):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            mg, shape, pt, th, pg = g
            ok = numpy.shape(mg) == (3, o, k, 2*k) and tuple(shape) == (
                o, k, 2*k) and numpy.shape(pt) == (o*k*2*k, 3) and \
                numpy.shape(th) == numpy.shape(pg) == (k, 2*k)
            c.fact("%s: shape" % tag, ok, ca)
            if not ok:
                continue
            for i, (q, j, l) in enumerate(numpy.ndindex(o, k, 2*k)):
                t, p = float(th[j, l]), float(pg[j, l])
                u = (math.sin(t)*math.cos(p), math.sin(t)*math.sin(p),
                     math.cos(t))
                for a in range(3):
                    w = S.var("o%d%d" % (q, a)) + r*u[a]
                    asm = pc + [S.cmp_("<=", S.absf(r), S.ONE)]
                    hs += [("%s: point %d %d" % (tag, i, a), within(
                        S.lift(mg[a, q, j, l]) - w), asm, ca, gen),
                        ("%s: list %d %d" % (tag, i, a), within(
                            S.lift(pt[i, a]) - w), asm, ca, gen)]
    c.holds_all(hs)


def polar(e):
    """cos and sin of atan2."""
    m = {}
    for n in S.topo(S.need(e)):
        if n.op == "f" and n.val in ("cos", "sin"):
            q = n.args[0]
            if q.op == "f" and q.val == "atan2":
                b, a = q.args
                m[n] = (a if n.val == "cos" else b)/S.sqrt(a*a + b*b)
    return S.subst(e, m) if m else e


def coordinates(c):
    import numpy, npshim
    pkg = load.Pkg()
    np = pkg.np
    exp0 = np.exp

    def exp(a, *r, **k):
        def one(z):
            if isinstance(z, S.Cx):
                if z.re is not S.ZERO:
                    raise S.Unsupported("exp of a complex number")
                return S.Cx(S.fn("cos", z.im), S.fn("sin", z.im))
            return exp0(z)
        if isinstance(a, S.Cx):
            return one(a)
        if isinstance(a, numpy.ndarray) and a.dtype == object:
            out = numpy.empty(a.shape, object)
            for i in numpy.ndindex(*a.shape):
                out[i] = one(a[i])
            return npshim.oarr(out)
        return exp0(a, *r, **k)
    np.exp = exp
    if not hasattr(type(np), "arctan2"):
        def arctan2(y, x):
            f = numpy.frompyfunc(lambda a, b: S.fn(
                "atan2", S.need(S.lift(a)), S.need(S.lift(b))), 2, 1)
            r = f(numpy.asarray(y, object), numpy.asarray(x, object))
            return r if isinstance(r, S.E) else npshim.oarr(r)
        np.arctan2 = arctan2
    sh = pkg["spherical_harmonics"]
    c.encoded("spherical_harmonics.spherical_to_cartesian",
              "spherical_harmonics.cartesian_to_spherical",
              "spherical_harmonics.derivatives_spherical_cartesian")
    v = S.var
    r, th, ph = v("r"), v("th"), v("ph")
    X = [r*S.fn("sin", th)*S.fn("cos", ph),
         r*S.fn("sin", th)*S.fn("sin", ph), r*S.fn("cos", th)]
    J = [[S.diff(a, {q: S.ONE}) for q in (r, th, ph)] for a in X]
    zs, hs = [], []
    one = lambda z: S.need(S.lift(numpy.asarray(z, object).flat[0]))
    for arr in (False, True):
        wrap = (lambda z: npshim.oarr([[z, z]])) if arr else (lambda z: z)
        sp = [wrap(z) for z in (r, th, ph)]
        d = [wrap(v("d%d" % i)) for i in range(3)]
        tag = "array" if arr else "scalar"

        ca = case("to cartesian", arr=arr)
        for pc, q, exc in c.explore(
                lambda: sh.spherical_to_cartesian(*sp)):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            c.fact("%s: three" % tag, len(q) == 3 and all(
                numpy.shape(z) == ((1, 2) if arr else ()) for z in q), ca)
            for i in range(3):
                zs.append(("%s: cartesian %d" % (tag, i), one(q[i]) - X[i],
                           pc, ca, gen))

        x, y, z = v("x"), v("y"), v("z")
        off = [S.cmp_("<", S.ZERO, x*x + y*y)]
        ca = case("to spherical", arr=arr)
        for pc, q, exc in c.explore(lambda: (lambda w: (
                w, sh.spherical_to_cartesian(*w)))(
                    [npshim.oarr(i) if arr else one(i) for i in
                     sh.cartesian_to_spherical(*map(wrap, (x, y, z)))]),
                off):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            (q, b) = q
            R, T, P = map(one, q)
            zs.append(("%s: radius" % tag, R*R - x*x - y*y - z*z, pc, ca,
                       gen))
            hs.append(("%s: radius sign" % tag, S.cmp_("<=", S.ZERO, R), pc,
                       ca, gen))
            hs.append(("%s: polar angle" % tag, S.cmp_(
                "<=", S.ZERO, polar(S.fn("sin", T))), pc, ca, gen))
            for i, w in enumerate((x, y, z)):
                zs.append(("%s: there and back %d" % (tag, i), polar(
                    one(b[i])) - w, pc, ca, gen))

        nz = [S.bnot(S.cmp_("==", r, S.ZERO)),
              S.bnot(S.cmp_("==", S.fn("sin", th), S.ZERO))]
        D = [v("d%d" % i) for i in range(3)]
        for to, kw in (("cartesian", dict(direction="to_cartesian")),
                       ("spherical", dict(direction="to_spherical")),
                       ("spherical", {})):
            ca = case("derivatives", arr=arr, kw=kw)
            for pc, q, exc in c.explore(
                    lambda: sh.derivatives_spherical_cartesian(
                        npshim.oarr(d) if arr else d, *sp, **kw), nz):
                tg = "%s differentials %s" % (tag, kw)
                c.fact("%s: no exception %r" % (tg, exc), exc is None, ca)
                if exc:
                    continue
                c.fact("%s: three" % tg, len(q) == 3, ca)
                q = [one(z) for z in q]
                for i in range(3):
                    if to == "cartesian":
                        e = q[i] - sum((J[i][j]*D[j] for j in range(3)),
                                       S.ZERO)
                    else:
                        e = sum((J[i][j]*q[j] for j in range(3)),
                                S.ZERO) - D[i]
                    zs.append(("%s: %d" % (tg, i), e, pc, ca, gen))
    c.zeros(zs)
    c.holds_all(hs)


def replay(case):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import electrode.spherical_harmonics as sh
    import electrode.grid as G
    e, what = case["env"], case["what"]
    if what == "transform":
        k = case["k"]
        s = sh.SphericalHarmonics(k)
        (x, w), ph = sphere(k)
        ix = [tuple(map(int, q)) for q in s.indices()]
        if sorted(ix) != sorted((n, m) + place(k, n, m)
                                for n, m in index(k)):
            return "indices %s" % ix
        th, pg = s.spherical_grid()
        if np.shape(th) != (k, 2*k) or np.shape(pg) != (k, 2*k) or \
                not np.allclose(np.sort(np.cos(th), 0), np.sort(x)[:, None],
                                atol=1e-10) or \
                not np.allclose(pg, [ph]*k) or np.ptp(th, 1).max() > 1e-10:
            return "grid %s %s" % (th, pg)
        wt = np.array([w[np.argmin(abs(x - np.cos(t)))]*math.pi/k
                       for t in th[:, 0]])
        mk = lambda q, m: np.array([
            complex(e[z[0]], e[z[1]]) if case.get("cplx", True) else e[z[0]]
            for z in q]).reshape(k, m)
        a, f = mk(names(k, k, k), k), mk(names(k, k, 2*k), 2*k)
        y = {(n, m): np.array([[Y(n, m, th[i, j], pg[i, j])
                                for j in range(2*k)] for i in range(k)])
             for n, m in index(k)}
        g = s.synthesis(a)
        wg = sum(a[place(k, n, m)]*y[n, m] for n, m in index(k))
        if np.shape(g) != (k, 2*k) or not np.allclose(g, wg, 1e-8, 1e-8):
            return "nmax %d: synthesis gives %s instead of %s" % (k, g, wg)
        for ff, ww in ((f, None), (g, a)):
            b = s.analysis(ff)
            if np.shape(b) != (k, k):
                return "analysis gives shape %s" % (np.shape(b),)
            for n, m in index(k):
                p = place(k, n, m)
                q = (y[n, m].conj()*ff*wt[:, None]).sum() if ww is None \
                    else ww[p]
                if abs(b[p] - q) > 1e-7:
                    return "nmax %d: coefficient n=%d m=%d is %s instead " \
                        "of %s" % (k, n, m, b[p], q)
        return None
    if what == "grid":
        k, o, r = case["k"], case["o"], e["r"]
        og = np.array([[e["o%d%d" % (i, j)] for j in range(3)]
                       for i in range(o)])
        g = G.SphericalGrid(og, r=r, n=k)
        th, pg = g.theta, g.phi
        u = np.array([np.sin(th)*np.cos(pg), np.sin(th)*np.sin(pg),
                      np.cos(th)])
        w = og.T[:, :, None, None] + r*u[:, None]
        if np.shape(g.to_mgrid()) != w.shape or not np.allclose(
                g.to_mgrid(), w) or tuple(g.shape) != w.shape[1:]:
            return "sphere points %s instead of %s" % (g.to_mgrid(), w)
        if np.shape(g.to_points()) != (w[0].size, 3) or not np.allclose(
                g.to_points(), w.reshape(3, -1).T):
            return "list of points %s" % g.to_points()
        return None
    arr = case["arr"]
    wrap = (lambda z: np.array([[z, z]])) if arr else (lambda z: z)
    r, th, ph = e["r"], e["th"], e["ph"]
    sp = [wrap(z) for z in (r, th, ph)]
    if what == "to cartesian":
        got = sh.spherical_to_cartesian(*sp)
        w = [r*math.sin(th)*math.cos(ph), r*math.sin(th)*math.sin(ph),
             r*math.cos(th)]
        if len(got) != 3 or not all(np.allclose(a, b, 1e-7, 1e-9)
                                    for a, b in zip(got, w)):
            return "%s -> %s instead of %s" % ((r, th, ph), got, w)
        if any(np.shape(a) != ((1, 2) if arr else ()) for a in got):
            return "shape"
        return None
    if what == "to spherical":
        x, y, z = e["x"], e["y"], e["z"]
        if x*x + y*y < 1e-8:
            return None
        got = sh.cartesian_to_spherical(*map(wrap, (x, y, z)))
        w = [math.sqrt(x*x + y*y + z*z), math.atan2(math.hypot(x, y), z),
             math.atan2(y, x)]
        if len(got) != 3 or not all(np.allclose(a, b, 1e-7, 1e-9)
                                    for a, b in zip(got, w)):
            return "%s -> %s instead of %s" % ((x, y, z), got, w)
        return None
    if abs(r) < 1e-3 or abs(math.sin(th)) < 1e-3:
        return None
    st, ct, sp_, cp = math.sin(th), math.cos(th), math.sin(ph), math.cos(ph)
    J = np.array([[st*cp, r*ct*cp, -r*st*sp_], [st*sp_, r*ct*sp_, r*st*cp],
                  [ct, -r*st, 0]])
    D = np.array([e["d%d" % i] for i in range(3)])
    got = sh.derivatives_spherical_cartesian(
        np.array([wrap(z) for z in D]) if arr else list(D), *sp,
        **case["kw"])
    w = np.dot(J, D) if case["kw"].get("direction") == "to_cartesian" else \
        np.linalg.solve(J, D)
    if len(got) != 3 or not all(np.allclose(a, b, 1e-6, 1e-8)
                                for a, b in zip(got, w)):
        return "differentials %s %s -> %s instead of %s" % (
            case["kw"], D, got, w)
    return None


def fb(r):
    e = gen(r)
    return [case("transform", k=k, cplx=x)(e) for k in (1, 2, 3, 4)
            for x in (True, False)] + [
        case("grid", k=k, o=o)(e) for k, o in ((2, 1), (3, 2), (1, 2))] + [
        case(w, arr=a)(e) for w in ("to cartesian", "to spherical")
        for a in (False, True)] + [
        case("derivatives", arr=a, kw=k)(e) for a in (False, True)
        for k in ({}, dict(direction="to_cartesian"),
                  dict(direction="to_spherical"))]


if __name__ == "__main__":
    harness.main("C25", __file__, body, replay,
                 bounds="nmax 1-4 (thorough 6), all real and complex "
                 "coefficients and functions up to 1 in size to within "
                 "1e-9; any coordinates off the z axis, any differentials; "
                 "spheres of any radius up to 1 around any one or two "
                 "origins", outside="larger nmax; the Fourier transform is "
                 "replaced by its sum; points on the z axis", fallback=fb)
