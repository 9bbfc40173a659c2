"""C20: modes, Floquet matrices and trajectories are those of an ion in the
system's potential: the matrices diagonalised are the potential's curvature
and the Floquet matrix of the equation of motion, results are sorted with
their vectors, and trajectories accelerate down the momentary potential."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

DEG = 3
ELS = ["d", "r"]
AXES = [(0, 1, 2), (1, 2), (2, 0), [1]]
MAX = 3


def gen(r):
    d = {q: r.uniform(-1, 1) for e in ELS
         for q in abstract.poly_names(e, DEG)}
    for e in ELS:
        d["dc_" + e] = r.choice([-1, 1])*r.uniform(.3, 1)
        d["rf_" + e] = r.choice([-1, 1])*r.uniform(.3, 1)
    for i in range(3):
        for q in "xvpqa":
            d["%s%d" % (q, i)] = r.uniform(-1, 1)
    d.update(m=r.uniform(.5, 2), q=r.uniform(.5, 2), l=r.uniform(.5, 2),
             o=r.uniform(.5, 2), s=r.uniform(.5, 2), k=r.uniform(.5, 2),
             t=r.uniform(0, 3))
    for i in range(4):
        for a in range(3):
            for b in range(3):
                d["A%d_%d%d" % (i, a, b)] = r.uniform(-1, 1)
        d["im%d" % i] = r.uniform(-1, 1)
        d["re%d" % i] = r.uniform(-1, 1)
    e = sorted(r.uniform(-1, 1) for i in range(3))
    d.update({"l%d" % i: e[i] for i in range(3)})
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


def tensors(get, x, typ, n):
    """Sum of the electrodes' derivative tensors of order n at x."""
    out = {}
    for e in ELS:
        f = abstract.full(abstract.poly_comps(get, e, DEG, x, n), n)
        for ix, q in f.items():
            out[ix] = out.get(ix, 0) + get("%s_%s" % (typ, e))*q
    return out


def curvature(get, x, k):
    """Second derivatives of dc + k^2 |grad rf|^2."""
    d2 = tensors(get, x, "dc", 2)
    r1, r2, r3 = [tensors(get, x, "rf", n) for n in (1, 2, 3)]
    return [[d2[i, j] + 2*k*k*sum(
        r2[a, i]*r2[a, j] + r1[(a,)]*r3[a, i, j] for a in range(3))
        for j in range(3)] for i in range(3)]


def floquet(A, n, r, sign):
    """x = sum_l exp((mu + 2il sign)t) b_l in x'' + (A0 + 2 A1 cos 2t + ..)x
    = 0, as mu b = M b for b = (x, x')."""
    N = 2*r+1
    M = {}
    for l in range(N):
        for i in range(n):
            for p in range(2):
                M[(l, p, i), (l, p, i)] = (0, -sign*2*(l-r))
            M[(l, 0, i), (l, 1, i)] = (1, 0)
        for k, a in enumerate(A):
            for m in {l-k, l+k}:
                if 0 <= m < N:
                    for i in range(n):
                        for j in range(n):
                            M[(l, 1, i), (m, 0, j)] = (-a[i][j], 0)
    return M


def index(n, r):
    return [(l, p, i) for l in range(2*r+1) for p in range(2)
            for i in range(n)]


def body(c):
    import npshim, numpy
    pkg = load.Pkg()
    np = pkg.np
    c.encoded("system.System.modes", "utils.mathieu",
              "system.System.mathieu", "system.System.trajectory",
              "system.System.time_potential", "system.System.rf_scale")
    v = S.var
    z = S.ZERO
    zs, later = [], []
    lift = lambda q: S.need(S.lift(q))
    le = lambda a, b: S.cmp_("<=", lift(a), lift(b))
    lt = lambda a, b: S.cmp_("<", lift(a), lift(b))
    System = pkg["system"].System
    Poly = abstract.poly_class(pkg["electrode"].Electrode, v, DEG,
                               lambda sh: npshim.oarr(numpy.full(
                                   sh, z, object)))

    def system():
        s = System([Poly(name=e, dc=v("dc_" + e), rf=v("rf_" + e))
                    for e in ELS])
        return s
    nz = [S.bnot(S.cmp_("==", v("%s_%s" % (t, e)), z)) for t in ("dc", "rf")
          for e in ELS]
    x = [v("x%d" % i) for i in range(3)]

    # -- modes
    for srt in (True, False, None):
        rec = []
        l = [v("l%d" % i) for i in range(3)]
        V = [[v("V%d%d" % (i, j)) for j in range(3)] for i in range(3)]

        def eigh(a, *args, **kw):
            rec.append(numpy.array(a))
            return npshim.oarr(l), npshim.oarr(V)
        np.linalg.eigh = eigh

        def run():
            del rec[:]
            s = system()
            s.rf_coeff = v("k")
            r = s.modes(npshim.oarr(x)) if srt is None else \
                s.modes(npshim.oarr(x), sorted=srt)
            return list(rec), r
        ca = case("modes", sorted=srt)
        tag = "modes sorted=%s" % srt
        for pc, r, exc in c.explore(run, nz + [le(l[0], l[1]),
                                               le(l[1], l[2])]):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            ms, (ew, ev) = r
            c.fact("%s: one 3x3 problem" % tag, len(ms) == 1 and
                   ms[0].shape == (3, 3), ca)
            H = curvature(v, x, v("k"))
            for i, j in itertools.product(range(3), repeat=2):
                zs.append(("%s: curvature %d%d" % (tag, i, j),
                           lift(ms[0][i, j]) - H[i][j], pc, ca, gen))
            matched(c, tag, ca, pc, ew, ev, l, V, later, zs,
                    1, srt is not False, 3)

    # -- Floquet matrices
    rec = []

    def eig(a, *args, **kw):
        rec.append(numpy.array(a))
        raise Stop()
    np.linalg.eig = eig
    for n, r, k in [(1, 0, 2), (1, 2, 1), (1, 3, 4), (2, 2, 3), (3, 1, 2),
                    (2, 1, 4)]:
        A = [[[v("A%d_%d%d" % (q, a, b)) for b in range(n)]
              for a in range(n)] for q in range(k)]

        def run():
            del rec[:]
            try:
                pkg["utils"].mathieu(r, *[npshim.oarr(a) for a in A])
            except Stop:
                pass
            return list(rec)
        ca = case("floquet", n=n, r=r, k=k)
        tag = "floquet n=%d r=%d k=%d" % (n, r, k)
        for pc, ms, exc in c.explore(run):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if not exc:
                same(c, tag, ca, pc, ms, A, n, r, zs)

    # -- with the system's curvatures
    for r in (None, 1):
        ks = 3 if r else 0

        def eig(a, *args, **kw):
            a = numpy.array(a)
            rec.append(a)
            n = len(a)
            mu = [S.Cx(v("re%d" % i), v("im%d" % i)) if i < MAX else
                  S.Cx(S.const(i), S.const(-i)) for i in range(n)]
            b = [[S.const(100*i + j) for j in range(n)] for i in range(n)]
            return npshim.oarr(mu), npshim.oarr(b)
        np.linalg.eig = eig
        for srt in (True, False):
            def run():
                del rec[:]
                s = system()
                sc = s.rf_scale(v("m"), v("q"), v("l"), v("o"))
                kw = {} if r is None else dict(r=r)
                if not srt:
                    kw["sorted"] = False
                return list(rec), s.mathieu(npshim.oarr(x), sc, **kw), \
                    list(rec), sc, s.rf_coeff
            ca = case("mathieu", r=r, sorted=srt)
            tag = "mathieu r=%s sorted=%s" % (r, srt)
            pos = [lt(z, v(q)) for q in "mqlo"]
            for pc, res, exc in c.explore(run, nz + pos):
                c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
                if exc:
                    continue
                _, (mu, b), ms, sc, co = res
                f = v("q")/(v("m")*v("l")**2*v("o")**2)
                zs.append(("%s: scale" % tag, sc*sc - f/4, pc, ca, gen))
                zs.append(("%s: coefficient" % tag, lift(co) - sc, pc, ca,
                           gen))
                d2 = tensors(v, x, "dc", 2)
                r2 = tensors(v, x, "rf", 2)
                A = [[[t[i, j]*f*w for j in range(3)] for i in range(3)]
                     for t, w in ((d2, 4), (r2, 2))]
                if srt or r is None:
                    same(c, tag, ca, pc[:8], ms, A, 3, r or 2, zs)
                N = 6*(2*(r or 2)+1)
                mu0 = [S.Cx(v("re%d" % i), v("im%d" % i)) if i < MAX else
                       S.Cx(S.const(i), S.const(-i)) for i in range(N)]
                b0 = [[S.const(100*i + j) for j in range(N)]
                      for i in range(N)]
                if srt:
                    matched(c, tag, ca, pc, mu, b, mu0, b0, later, zs, 2,
                            True, None)
                else:
                    matched(c, tag, ca, pc, mu, b, mu0, b0, later, zs, 2,
                            False, N)

    # -- trajectories
    for axis, start in itertools.product(AXES, ("array", "list", "int")):
        ax = list(axis)

        def run():
            s = system()
            if start == "int":
                x0, v0 = [1, 0, 2], (0, 3, 1)
            else:
                x0 = [v("x%d" % i) for i in range(3)]
                v0 = [v("v%d" % i) for i in range(3)]
                if start == "array":
                    x0, v0 = npshim.oarr(x0), npshim.oarr(v0)
            log = []

            def integ(ddx, nsteps, t, p, q, t1, *args, **kw):
                e = [list(p), list(q), nsteps, t, t1, args, kw]
                for tt, pre in ((v("t"), "p"), (v("t"), "q")):
                    f = npshim.oarr([S.const(77)]*len(ax))
                    ddx(tt, npshim.oarr([v("%s%d" % (pre, i))
                                         for i in range(len(ax))]), f)
                    e.append(list(f))
                log.append(e)
                for i in range(len(ax)):
                    q[i] = q[i] + v("a%d" % i)
                    p[i] = p[i]*2
            k = dict(axis=axis, t0=.5, dt=.25, t1=1.1, nsteps=7)
            out = list(s.trajectory(x0, v0, integ=integ, extra=9, **k))
            x0 = [1, 0, 2] if start == "int" else \
                [v("x%d" % i) for i in range(3)]
            return log, out, x0
        ca = case("trajectory", axis=ax, start=start)
        tag = "trajectory %s %s" % (ax, start)
        for pc, r, exc in c.explore(run, nz):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            log, out, x0 = r
            v0 = [0, 3, 1] if start == "int" else \
                [v("v%d" % i) for i in range(3)]
            c.fact("%s: steps" % tag, len(log) == 3 == len(out) and all(
                e[2] == 7 and abs(float(e[3]) - .5 - .25*i) < 1e-12 and
                abs(float(e[4]) - .75 - .25*i) < 1e-12 and
                abs(float(o[0]) - .75 - .25*i) < 1e-12
                and e[6] == dict(extra=9) for i, (e, o) in enumerate(
                    zip(log, out))), ca)
            for i, (e, o) in enumerate(zip(log, out)):
                for k, a in enumerate(ax):
                    for name, got, want in (
                            ("position", e[1][k], x0[a] + i*v("a%d" % k)),
                            ("speed", e[0][k], v0[a]*2**i),
                            ("position out", o[1][k],
                             x0[a] + (i+1)*v("a%d" % k)),
                            ("speed out", o[2][k], v0[a]*2**(i+1))):
                        zs.append(("%s: %s %d %d" % (tag, name, i, k),
                                   lift(got) - lift(want), pc, ca, gen))
                for f, tt, pre in ((e[7], v("t"), "p"),
                                   (e[8], v("t"), "q")):
                    at = [lift(w) for w in x0]
                    for k, a in enumerate(ax):
                        at[a] = v("%s%d" % (pre, k))
                    d1 = tensors(v, at, "dc", 1)
                    r1 = tensors(v, at, "rf", 1)
                    for k, a in enumerate(ax):
                        zs.append(("%s: acceleration %d %d" % (tag, i, k),
                                   lift(f[k]) + d1[(a,)] +
                                   S.fn("cos", tt)*r1[(a,)], pc, ca, gen))
    c.zeros(zs)
    c.holds_all(later)


class Stop(Exception):
    pass


def parts(q):
    if isinstance(q, (S.Cx, complex)):
        q = S.Cx(q)
        return q.re, q.im
    return S.need(S.lift(q)), S.ZERO


def same(c, tag, ca, pc, ms, A, n, r, zs):
    """The matrix given to the eigenvalue solver is the Floquet matrix."""
    ix = index(n, r)
    c.fact("%s: one problem of that size" % tag, len(ms) == 1 and
           ms[0].shape == (len(ix), len(ix)), ca)
    m = [[parts(q) for q in row] for row in ms[0]]
    sign = 1
    for i in range(len(ix)):
        if m[i][i][1] is S.const(2*(ix[i][0]-r)) and ix[i][0] != r:
            sign = -1
            break
    M = floquet(A, n, r, sign)
    for i, a in enumerate(ix):
        for j, b in enumerate(ix):
            w = M.get((a, b), (0, 0))
            for k, q in enumerate("ri"):
                e = m[i][j][k] - S.need(S.lift(w[k]))
                if e is S.ZERO:
                    c.fact("%s: entry" % tag, True)
                else:
                    zs.append(("%s: %s[%d,%d]" % (tag, q, i, j), e, pc, ca,
                               gen))


def matched(c, tag, ca, pc, ew, ev, l, V, later, zs, half, srt, count):
    """Values and columns of vectors belong together, sorted."""
    import numpy
    ev = numpy.array(ev)
    n = len(l)
    ew = [S.Cx(q)*half if not isinstance(q, S.Cx) else q*half
          for q in list(ew)]
    c.fact("%s: shapes" % tag, ev.shape == (n, len(ew)) and
           (count is None or len(ew) == count), ca)
    got = []
    for j, q in enumerate(ew):
        hit = [k for k in range(n) if all(
            ev[i, j] is S.lift(V[i][k]) for i in range(n))]
        c.fact("%s: vector %d is one of the solver's" % (tag, j),
               len(hit) == 1 and hit[0] not in got, ca)
        if not hit:
            return
        got.append(hit[0])
        w = S.Cx(l[hit[0]])
        zs.append(("%s: value %d" % (tag, j), q.re - w.re, pc, ca, gen))
        zs.append(("%s: value %d" % (tag, j), q.im - w.im, pc, ca, gen))
    key = lambda k: S.Cx(l[k]).im if half == 2 else S.Cx(l[k]).re
    if srt:
        for a, b in zip(got, got[1:]):
            later.append(("%s: sorted" % tag, S.cmp_("<=", key(a), key(b)),
                          pc, ca, gen))
        if half == 2:
            for k in range(n):
                q = S.cmp_("<=", S.ZERO, key(k))
                later.append(("%s: frequencies %d" % (tag, k), q if k in got
                              else S.bnot(q), pc, ca, gen))
    else:
        c.fact("%s: order kept" % tag, got == list(range(n)), ca)


def real_system(e):
    import numpy as np
    from electrode.system import System
    from electrode.electrode import Electrode
    Poly = abstract.poly_class(Electrode, lambda q: e[q], DEG, np.zeros)
    return System([Poly(name=q, dc=e["dc_" + q], rf=e["rf_" + q])
                   for q in ELS])


def dense(A, n, r, sign):
    import numpy as np
    ix = index(n, r)
    M = np.zeros((len(ix), len(ix)), complex)
    for (a, b), (re, im) in floquet(A, n, r, sign).items():
        M[ix.index(a), ix.index(b)] = re + 1j*im
    return M


def pairs(M, mu, b):
    """Do the eigenvalues and vectors belong to the matrix?"""
    import numpy as np
    return b.shape == (len(M), len(mu)) and np.allclose(
        np.dot(M, b), b*mu, atol=1e-7*(1 + np.abs(M).max())) and np.allclose(
            np.linalg.norm(b, axis=0), 1)


def replay(case):
    import numpy as np
    import warnings
    e, what = case["env"], case["what"]
    get = lambda q: e[q]
    x = [e["x%d" % i] for i in range(3)]
    if any(e["%s_%s" % (t, q)] == 0 for t in ("dc", "rf") for q in ELS):
        return None
    s = real_system(e)
    if what == "modes":
        s.rf_coeff = e["k"]
        H = np.array(curvature(get, x, e["k"]))
        kw = {} if case["sorted"] is None else dict(sorted=case["sorted"])
        w, V = s.modes(x, **kw)
        if not pairs(H, w, V):
            return "modes %s %s are not those of %s" % (w, V, H)
        if len(w) != 3 or (np.diff(w) < 0).any():
            return "modes %s are not sorted" % w
        return None
    if what == "floquet":
        import electrode.utils as u
        n, r, k = case["n"], case["r"], case["k"]
        A = [[[e["A%d_%d%d" % (q, a, b)] for b in range(n)]
              for a in range(n)] for q in range(k)]
        mu, b = u.mathieu(r, *[np.array(a) for a in A])
        N = 2*n*(2*r+1)
        if len(mu) != N or not any(pairs(dense(A, n, r, sg), mu, b)
                                   for sg in (1, -1)):
            return "exponents %s of %s" % (mu, A)
        return None
    if what == "mathieu":
        if min(e[q] for q in "mqlo") <= 0:
            return None
        sc = s.rf_scale(e["m"], e["q"], e["l"], e["o"])
        f = e["q"]/(e["m"]*e["l"]**2*e["o"]**2)
        if abs(sc*sc - f/4) > 1e-9*f or s.rf_coeff != sc:
            return "rf_scale gives %g, squared should be %g" % (sc, f/4)
        kw = {} if case["r"] is None else dict(r=case["r"])
        if not case["sorted"]:
            kw["sorted"] = False
        mu, b = s.mathieu(x, sc, **kw)
        d2 = tensors(get, x, "dc", 2)
        r2 = tensors(get, x, "rf", 2)
        A = [[[t[i, j]*f*w for j in range(3)] for i in range(3)]
             for t, w in ((d2, 4), (r2, 2))]
        M = dense(A, 3, case["r"] or 2, 1)
        mu = np.array(mu)*2
        if not any(pairs(dense(A, 3, case["r"] or 2, sg), mu, b)
                   for sg in (1, -1)):
            return "not the exponents of the equation of motion: %s" % mu
        if case["sorted"]:
            if (np.diff(mu.imag) < 0).any() or (mu.imag < 0).any():
                return "exponents %s not sorted" % mu
            w = np.linalg.eigvals(M)
            if abs(w.imag).min() > 1e-6 and len(mu) != (w.imag > 0).sum():
                return "%d exponents" % len(mu)
        elif len(mu) != len(M):
            return "%d exponents" % len(mu)
        return None
    ax, start = case["axis"], case["start"]
    n = len(ax)
    if start == "int":
        x0, v0 = [1, 0, 2], (0, 3, 1)
    else:
        x0, v0 = x, [e["v%d" % i] for i in range(3)]
        if start == "array":
            x0, v0 = np.array(x0), np.array(v0)
    bad = []
    keep = list(x0), list(v0)
    state = [list(np.array(keep[0], float)[ax]),
             list(np.array(keep[1], float)[ax]), .5]

    def integ(ddx, nsteps, t, p, q, t1, *args, **kw):
        if not (np.allclose(q, state[0]) and np.allclose(p, state[1])):
            bad.append("starts step at %s, %s instead of %s" % (q, p, state))
        if abs(t-state[2]) > 1e-9 or abs(t1-t-.25) > 1e-9 or nsteps != 7 \
                or kw != dict(extra=9):
            bad.append("integrator called with %s" % ((t, t1, nsteps, kw),))
        for tt, pre in ((t, "q"), (e["t"], "p"), (e["t"], "q")):
            f = np.full(n, 77.)
            w = [e["%s%d" % (pre, i)] for i in range(n)]
            ddx(tt, np.array(w), f)
            at = [float(i) for i in keep[0]]
            for k, a in enumerate(ax):
                at[a] = w[k]
            d1, r1 = [tensors(get, at, y, 1) for y in ("dc", "rf")]
            want = [-d1[(a,)] - np.cos(tt)*r1[(a,)] for a in ax]
            if not np.allclose(f, want):
                bad.append("acceleration %s instead of %s" % (f, want))
        for i in range(n):
            q[i] += e["a%d" % i]
            p[i] *= 2
        state[0] = [w + e["a%d" % i] for i, w in enumerate(state[0])]
        state[1] = [w*2 for w in state[1]]
        state[2] += .25
    axis = tuple(ax)
    out = []
    for t, q, p in s.trajectory(x0, v0, axis=axis, integ=integ, t0=.5,
                                dt=.25, t1=1.1, nsteps=7, extra=9):
        if not (np.allclose(q, state[0]) and np.allclose(p, state[1]) and
                abs(t-state[2]) < 1e-9):
            bad.append("reports %s instead of %s" % ((t, q, p), state))
        out.append((q, p, np.array(q), np.array(p)))
    if len(out) != 3:
        bad.append("%d steps" % len(out))
    if not all(np.allclose(q, q1) and np.allclose(p, p1)
               for q, p, q1, p1 in out):
        bad.append("reported arrays change later")
    return bad[0] if bad else None


def fb(r):
    out = [case("modes", sorted=q)(gen(r)) for q in (None, True, False)]
    out += [case("floquet", n=n, r=q, k=k)(gen(r)) for n, q, k in [
        (1, 0, 2), (1, 2, 1), (1, 3, 4), (2, 2, 3), (3, 1, 2), (2, 1, 4)]]
    out += [case("mathieu", r=q, sorted=w)(gen(r)) for q in (None, 1)
            for w in (True, False)]
    return out + [case("trajectory", axis=list(a), start=q)(gen(r))
                  for a in AXES for q in ("array", "list", "int")]


if __name__ == "__main__":
    harness.main("C20", __file__, body, replay,
                 bounds="two electrodes with arbitrary harmonic potentials "
                 "to third degree, any voltages and points; Floquet "
                 "matrices of up to 3 dimensions, 4 coefficients and "
                 "cutoff 3; four sets of axes, three time steps",
                 outside="the eigenvalue routines and the integrator "
                 "themselves", fallback=fb)
