"""C26: the Mathieu class: Floquet coefficients solve the recurrence, the two
solutions and all their derivatives are the normalised Floquet sums, initial
values are met, and the exponent comes from the right determinant or the right
initial value problem."""
import itertools
import math
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

CUTS = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]
DERI = 6


def cuts():
    return CUTS + ([(2, 3), (3, 2), (4, 1)] if harness.THOROUGH else [])


def gen(r):
    d = dict(a=r.uniform(.02, .3), q=r.choice([-1, 1])*r.uniform(.1, .6),
             nu=r.uniform(.1, .6), t=r.uniform(-2, 2), t0=r.uniform(.2, 2),
             y0=r.uniform(-1, 1), y1=r.uniform(-1, 1), Y=r.uniform(-.9, .9),
             tol=10**r.uniform(-6, -1), u=r.uniform(-1, 1))
    for k in "cs":
        for i in range(7):
            d["%s%d" % (k, i)] = r.uniform(-1, 1)
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


def continuants(g, n):
    """Solution of C[k-1] - g(k) C[k] + C[k+1] = 0, k = 1..n, C[n+1] = 0."""
    p = {n+1: S.ZERO if isinstance(g(1), S.E) else 0., n: 1}
    for k in range(n, 0, -1):
        p[k-1] = g(k)*p[k] - p[k+1]
    return p


class Sol(object):
    pass


class Stop(Exception):
    pass


def body(c):
    import numpy, npshim, types
    ivp = []

    def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, **kw):
        ivp.append((fun, t_span, y0, method, t_eval, kw))
        s = Sol()
        s.y = npshim.oarr([[S.ONE, S.var("mid"), S.var("Y")],
                           [S.ZERO, S.var("mid1"), S.var("Y1")]])
        s.t = npshim.oarr([S.ZERO, S.ONE, pkg.np.pi])
        return s
    m = types.ModuleType("scipy.integrate")
    m.solve_ivp = solve_ivp
    pkg = load.Pkg(overrides={"scipy.integrate": m})
    real = pkg.np.double

    class Double(npshim.SymFloat):
        dtype = numpy.dtype(real)
    pkg.np.double = Double
    M = pkg["mathieu"].Mathieu
    c.encoded(*["mathieu.Mathieu." + q for q in (
        "gn", "coeff_ratio", "coeff_Cn", "sol_y1", "sol_y2", "init_value",
        "nu_exp_det", "nu_exp_ivp", "nu_exp_bla", "nu_tolerance",
        "init_sol")])
    v = S.var
    a, q, nu = v("a"), v("q"), v("nu")
    lift = lambda z: S.need(S.lift(z))
    pi = S.need(S.lift(pkg.np.pi))
    zs, hs = [], []

    def flush(what):
        import time
        t = time.time()
        c.zeros(zs)
        c.holds_all(hs)
        if os.environ.get("VP_TIMES"):
            print(what, len(zs), len(hs), "%.1f" % (time.time() - t),
                  flush=True)
        del zs[:], hs[:]
    nzq = [S.bnot(S.cmp_("==", q, S.ZERO))]
    G = lambda n: (a - (nu+2*n)*(nu+2*n))/q

    # -- coefficients
    for nc, ng in cuts():
        tag = "coefficients nc=%d ng=%d" % (nc, ng)
        ca = case("coeff", nc=nc, ng=ng)
        for pc, r, exc in c.explore(lambda: (
                M().coeff_ratio(a, q, nu, nc, ng),
                M().coeff_Cn(a, q, nu, nc, ng)), nzq):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            (rn, rp), (cc, cs, cn) = r
            ok = [len(z) for z in (rn, rp, cc, cs, cn)] == [nc]*2 + [
                2*nc+1]*3
            c.fact("%s: sizes" % tag, ok, ca)
            if not ok:
                continue
            pp = continuants(G, nc+ng)
            pn = continuants(lambda n: G(-n), nc+ng)
            for n in range(1, nc+1):
                zs += [("%s: C[%d]" % (tag, n), lift(cn[nc+n])*pp[0] -
                        lift(cn[nc])*pp[n], pc, ca, gen),
                       ("%s: C[-%d]" % (tag, n), lift(cn[nc-n])*pn[0] -
                        lift(cn[nc])*pn[n], pc, ca, gen),
                       ("%s: ratio %d" % (tag, n), lift(rp[n-1])*pp[n-1] -
                        pp[n], pc, ca, gen),
                       ("%s: ratio -%d" % (tag, n), lift(rn[-n])*pn[n-1] -
                        pn[n], pc, ca, gen)]
            zs.append((tag + ": C[0]", lift(cn[nc]) - 1, pc, ca, gen))
            su = sum((lift(z) for z in cn), S.ZERO)
            sv = sum(((nu + 2*(i-nc))*lift(z) for i, z in enumerate(cn)),
                     S.ZERO)
            for i in range(2*nc+1):
                zs += [("%s: even %d" % (tag, i), lift(cc[i])*su -
                        lift(cn[i]), pc, ca, gen),
                       ("%s: odd %d" % (tag, i), lift(cs[i])*sv -
                        lift(cn[i]), pc, ca, gen)]

    flush("before: solutions and deriv")
    # -- solutions and derivatives for any coefficients
    t, t0 = v("t"), v("t0")

    def known(k):
        s = M()
        s.nu = nu
        s.Cn = [npshim.oarr([v("%s%d" % (z, i)) for i in range(k)])
                for z in "cs"]
        return s

    def want(z, k, deri, x):
        u = v("u")
        f = S.fn("cos" if z == "c" else "sin", u)
        r = S.ZERO
        for i in range(k):
            w = nu + 2*(i - (k-1)//2)
            g = f
            for _ in range(deri):
                g = S.diff(g, {u: S.ONE})
            r = r + v("%s%d" % (z, i))*w**deri*S.subst(g, {u: w*x})
        return r
    for k in (1, 3, 5):
        for d in range(DERI):
            ca = case("sol", k=k, d=d)
            for pc, r, exc in c.explore(lambda: (
                    known(k).sol_y1(t, d), known(k).sol_y2(t, deri=d))
                    + ((known(k).sol_y1(t), known(k).sol_y2(t))
                       if not d else ())):
                tag = "solution %d terms derivative %d" % (k, d)
                c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
                if not exc:
                    for z, e in zip("cscs", r):
                        zs.append(("%s %s" % (tag, z), lift(e) -
                                   want(z, k, d, t), pc, ca, gen))

    flush("before: initial values")
    # -- initial values
    k = 3
    norm = [S.cmp_("==", sum((v("c%d" % i) for i in range(k)), S.ZERO),
                   S.ONE),
            S.cmp_("==", sum(((nu + 2*i - 2)*v("s%d" % i)
                              for i in range(k)), S.ZERO), S.ONE)]
    for form in ("tuple", "array"):
        y0 = (v("y0"), v("y1"))
        if form == "array":
            y0 = npshim.oarr(y0)
        ca = case("init", form=form)
        for pc, r, exc in c.explore(lambda: known(k).init_value(y0, t0)):
            tag = "initial value %s" % form
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            c.fact("%s: shape" % tag, numpy.shape(r) == (2,), ca)
            A, B = [lift(z) for z in r]
            Wc = [want("c", k, d, t0) for d in (0, 1)]
            Ws = [want("s", k, d, t0) for d in (0, 1)]
            det = Wc[0]*Ws[1] - Wc[1]*Ws[0]
            for d in (0, 1):
                e = A*Wc[d] + B*Ws[d] - v("y%d" % d)
                e, det_ = harness.under(pc, e, det)
                if harness.under(pc, t0) is S.ZERO:
                    # there the normalisation matters: eliminate c0 and s1
                    sb = {v("c0"): 1 - v("c1") - v("c2")}
                    if d:
                        # nu*s1 = 1 - ...
                        e = e*nu
                        sb[v("s1")] = (1 - (nu-2)*v("s0")
                                       - (nu+2)*v("s2"))/nu
                    e = S.subst(e, sb)
                zs.append(("%s: derivative %d" % (tag, d), e, pc + [
                    S.bnot(S.cmp_("==", det_, S.ZERO))], ca, gen))
    for pc, r, exc in c.explore(lambda: known(k).init_value()):
        c.fact("default initial value: no exception %r" % (exc,),
               exc is None, case("init", form=None))
        if not exc:
            zs += [("default initial value %d" % i, lift(r[i]) - i, pc,
                    case("init", form=None), gen) for i in (0, 1)]

    flush("before: exponent from the det")
    # -- exponent from the determinant
    mats = []

    def det(x):
        x = numpy.array(x)
        mats.append(x)
        return v("det%d" % min(len(x), 2*10+1))
    pkg.np.linalg.stubs["det"] = det
    pkg.np.linalg.det = det
    pos = [S.cmp_("<", S.ZERO, a)]
    pos += [S.bnot(S.cmp_("==", a, S.const(4*n*n))) for n in range(4)]
    s2 = S.fn("sin", pi/2*S.sqrt(a))

    def exponent(n):
        return 2/pi*S.fn("asin", S.sqrt(v("det%d" % min(2*n+1, 21))
                                        * s2*s2))

    def bounded(n):
        r = v("det%d" % min(2*n+1, 21))*s2*s2
        return [S.cmp_("<=", S.ZERO, r), S.cmp_("<=", r, S.ONE)]

    def matrix(tag, ca, pc, x, n):
        c.fact("%s: one determinant of the right size" % tag,
               x.shape == (2*n+1,)*2, ca)
        if x.shape != (2*n+1,)*2:
            return
        for i, j in numpy.ndindex(*x.shape):
            k = i - n
            w = S.ONE if i == j else q/(4*k*k - a) if abs(i-j) == 1 \
                else S.ZERO
            zs.append(("%s: entry %d %d" % (tag, i, j), lift(x[i, j]) - w,
                       pc, ca, gen))
    for n in (1, 2, 3):
        def run():
            del mats[:]
            r = M().nu_exp_det(a, q, n)
            return r, list(mats)
        ca = case("det", n=n)
        tag = "determinant order %d" % n
        for pc, r, exc in c.explore(run, pos + bounded(n)):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            c.fact("%s: one determinant" % tag, len(r[1]) == 1, ca)
            for x in r[1]:
                matrix(tag, ca, pc, x, n)
            zs.append(("%s: exponent" % tag, lift(r[0]) - exponent(n), pc,
                       ca, gen))

    flush("before: order from")
    # -- order from the tolerance
    tol = v("tol")
    for start in (None, 1, 3, 4):
        st = start or 5
        orders = sorted({min(z, 10) for i in range(1, 11)
                         for z in (st*i, 2*st*i)})
        asm = pos + sum((bounded(n) for n in orders), []) + [
            S.cmp_("<", S.ZERO, tol)]
        ca = case("tolerance", start=start)
        kw = {} if start is None else dict(nstart=start)
        for pc, r, exc in c.explore(lambda: (lambda e: M().nu_tolerance(
                a, q, tol=tol, **kw) + (e,))({n: lift(M().nu_exp_det(
                    a, q, n)) for n in orders}), asm):
            tag = "tolerance from %d" % st
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            n2, ex = r[1], r[2]
            ok = isinstance(n2, (int, numpy.integer)) and \
                n2 > 0 and n2 % (2*st) == 0
            c.fact("%s: order %s" % (tag, n2), ok, ca)
            if not ok:
                continue
            zs.append(("%s: exponent of order %d" % (tag, n2), lift(r[0]) -
                       ex[min(n2, 10)], pc, ca, gen))
            for i in range(1, n2//2//st + 1):
                d = S.absf(ex[min(st*i, 10)] - ex[min(2*st*i, 10)])
                e = S.cmp_("<", d, tol)
                hs.append(("%s: order %d, step %d" % (tag, n2, i),
                           e if st*i*2 == n2 else S.bnot(e), pc, ca, gen))

    flush("before: a table")
    # -- a table of determinants that never converges
    def det2(x):
        n = len(x)//2
        return S.const(S.Fraction(1, 2) + S.Fraction(1, n + 4))
    pkg.np.linalg.stubs["det"] = pkg.np.linalg.det = det2
    for pc, r, exc in c.explore(lambda: M().nu_tolerance(
            S.const(S.Fraction(1, 4)), q, tol=S.ZERO), [S.cmp_(
                "<=", S.fn("sin", pi/4)*S.fn("sin", pi/4), S.ONE)]):
        c.fact("no precision: ValueError", isinstance(exc, ValueError),
               case("never"))
    pkg.np.linalg.stubs["det"] = pkg.np.linalg.det = det

    flush("before: exponent from the ini")
    # -- exponent from the initial value problem
    y, w, x = v("c0"), v("c1"), v("t")
    for kw in ({}, dict(method="Radau"), dict(nstep=4)):
        def run():
            del ivp[:]
            r = M().nu_exp_ivp(a, q, **kw)
            f = [(z[0](x, npshim.oarr([y, w])),) + tuple(z[1:]) for z in ivp]
            return r, f
        ca = case("ivp", kw=kw)
        asm = [S.cmp_("<=", S.absf(v("Y")), S.ONE)]
        tag = "initial value problem %s" % (kw,)
        for pc, r, exc in c.explore(run, asm):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            ok = len(r[1]) == 1 and numpy.shape(r[1][0][1]) == (2,) and \
                numpy.shape(r[1][0][2]) == (2,) and \
                numpy.shape(r[1][0][0]) == (2,)
            c.fact("%s: one problem" % tag, ok, ca)
            if not ok:
                continue
            f, span, y0, method, te, rest = r[1][0]
            c.fact("%s: method %s" % (tag, method),
                   method == kw.get("method", "RK45"), ca)
            for s, got, ww in (("slope", f[0], w),
                               ("force", f[1], -(a - 2*q*S.fn(
                                   "cos", 2*x))*y),
                               ("begin", span[0], S.ZERO),
                               ("end", span[1], pi),
                               ("start", y0[0], S.ONE),
                               ("start slope", y0[1], S.ZERO),
                               ("exponent", r[0], S.fn("acos", v("Y"))/pi)):
                zs.append(("%s: %s" % (tag, s), lift(got) - ww, pc, ca, gen))
            if te is not None:
                zs.append(("%s: last time" % tag, lift(te[-1]) - pi, pc, ca,
                           gen))

    # -- the lowest order
    for pc, r, exc in c.explore(lambda: M().nu_exp_bla(a, q)):
        c.fact("lowest order: no exception %r" % (exc,), exc is None,
               case("bla"))
        if not exc:
            r = lift(r)
            zs.append(("lowest order", r*r - a - q*q/2, pc + [S.cmp_(
                "<=", S.ZERO, a + q*q/2)], case("bla"), gen))

    flush("before: everything")
    # -- everything together
    for mode, nc, ng in [(None, None, None), ("det", 2, 2), ("ivp", 1, 2),
                         ("ivp", None, 1)]:
        kw = {k: z for k, z in dict(mode=mode, nc=nc, ng=ng).items()
              if z is not None}
        tolk = dict(tol_nu=tol)

        def run():
            s = M()
            kk = dict(kw)
            kk.update(tolk)
            s.init_sol(a, q, **kk)
            if mode == "ivp":
                w = s.nu_exp_ivp(a, q, method="Radau")
                o = None if nc else s.nu_tolerance(a, q, tol=tol)[1]
            else:
                w, o = s.nu_tolerance(a, q, tol=tol)
            o = nc if nc else o
            return s, w, o, s.coeff_Cn(a, q, s.nu, o,
                                       5 if ng is None else ng)
        asm = pos + nzq + bounded(5) + bounded(10)  + [
            S.cmp_("<", S.ZERO, tol), S.cmp_("<=", S.absf(v("Y")), S.ONE)]
        ca = case("sum", kw=kw)
        tag = "init_sol %s" % (kw,)
        for pc, r, exc in c.explore(run, asm):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            s, w, o, co = r
            zs.append(("%s: exponent" % tag, lift(s.nu) - lift(w), pc, ca,
                       gen))
            for z in (0, 1):
                ok = numpy.shape(s.Cn[z]) == (2*o+1,)
                c.fact("%s: number of coefficients" % tag, ok, ca)
                if ok:
                    zs += [("%s: coefficient %d %d" % (tag, z, i),
                            lift(s.Cn[z][i]) - lift(co[z][i]), pc, ca, gen)
                           for i in range(2*o+1)]
    flush("together")


def near(a, b, eps=1e-7):
    return abs(a-b) <= eps*max(1, abs(a), abs(b))


def delta(np, a, q, n):
    x = np.eye(2*n+1)
    for i in range(2*n+1):
        for j in (i-1, i+1):
            if 0 <= j <= 2*n:
                x[i, j] = q/(4*(i-n)**2 - a)
    return np.linalg.det(x)


def replay(case):
    import warnings
    import numpy as np
    import electrode.mathieu as MM
    warnings.simplefilter("ignore")
    M = MM.Mathieu
    e, what = case["env"], case["what"]
    a, q, nu = e["a"], e["q"], e["nu"]

    def want(cs, f, d, t):
        k = len(cs)
        r = 0
        for i, z in enumerate(cs):
            w = nu + 2*(i - (k-1)//2)
            r += z*w**d*[f(w*t), f(w*t + math.pi/2), -f(w*t),
                         -f(w*t + math.pi/2)][d % 4]
        return r

    def known(k, norm=False):
        s = M()
        s.nu = nu
        s.Cn = [np.array([e["%s%d" % (z, i)] for i in range(k)])
                for z in "cs"]
        if norm:
            s.Cn[0] = s.Cn[0]/s.Cn[0].sum()
            s.Cn[1] = s.Cn[1]/((nu + 2*(np.arange(k) - (k-1)//2)) *
                               s.Cn[1]).sum()
        return s
    if what == "coeff":
        nc, ng = case["nc"], case["ng"]
        if abs(q) < 1e-3 or abs(q) > 20 or abs(a) > 20 or abs(nu) > 20:
            return None
        G = lambda n: (a - (nu+2*n)**2)/q
        pp = continuants(G, nc+ng)
        pn = continuants(lambda n: G(-n), nc+ng)
        if min(min(abs(z[k]) for k in range(nc+1)) for z in (pp, pn)) < 1e-6:
            return None
        w = np.array([pn[n]/pn[0] for n in range(nc, 0, -1)] + [1.] +
                     [pp[n]/pp[0] for n in range(1, nc+1)])
        vn = nu + 2*np.arange(-nc, nc+1)
        if abs(w.sum()) < 1e-4 or abs((vn*w).sum()) < 1e-4:
            return None
        rn, rp = M().coeff_ratio(a, q, nu, nc, ng)
        wr = [pp[n]/pp[n-1] for n in range(1, nc+1)]
        wn = [pn[n]/pn[n-1] for n in range(nc, 0, -1)]
        if np.shape(rp) != (nc,) or np.shape(rn) != (nc,):
            return "%s and %s ratios for nc=%d" % (rn, rp, nc)
        if not np.allclose(rp, wr, 1e-6, 1e-9) or \
                not np.allclose(rn, wn, 1e-6, 1e-9):
            return "ratios %s %s instead of %s %s" % (rn, rp, wn, wr)
        got = M().coeff_Cn(a, q, nu, nc, ng)
        for n, g, ww in zip(("even", "odd", "original"), got, (
                w/w.sum(), w/(vn*w).sum(), w)):
            if np.shape(g) != ww.shape or not np.allclose(g, ww, 1e-6, 1e-9):
                return "%s coefficients %s instead of %s" % (n, g, ww)
        return None
    if what == "sol":
        k, d, t = case["k"], case["d"], e["t"]
        s = known(k)
        for z, f, g in ((0, math.cos, s.sol_y1), (1, math.sin, s.sol_y2)):
            for got in [g(t, d), g(t, deri=d)] + ([] if d else [g(t)]):
                w = want(s.Cn[z], f, d, t)
                if not near(got, w):
                    return "derivative %d of solution %d at %g is %g " \
                        "instead of %g" % (d, z+1, t, got, w)
        return None
    if what == "init":
        s = known(3, True)
        y = (e["y0"], e["y1"])
        if case["form"] is None:
            r = s.init_value()
            return None if tuple(r) == (0., 1.) else "default %s" % (r,)
        t0 = e["t0"]
        D = [want(z, f, d, t0) for z, f in zip(s.Cn, (math.cos, math.sin))
             for d in (0, 1)]
        if not abs(D[0]*D[3] - D[1]*D[2]) > 1e-3:
            return None
        r = s.init_value(np.array(y) if case["form"] == "array" else y, t0)
        for d in (0, 1):
            g = r[0]*D[d] + r[1]*D[2+d]
            if not near(g, y[d]):
                return "initial derivative %d is %g instead of %g" % (
                    d, g, y[d])
        return None
    if what == "det":
        n = case["n"]
        if not a > 0 or min(abs(4*k*k - a) for k in range(n+1)) < 1e-3 or \
                abs(q) > 100:
            return None
        r = delta(np, a, q, n)*math.sin(math.pi/2*math.sqrt(a))**2
        g = M().nu_exp_det(a, q, n)
        g2 = np.sin(np.pi/2*g)**2 if 0 <= r <= 1 else \
            -np.sinh(np.pi/2*g)**2
        return None if near(g2, r) else "order %d exponent %s: sin(pi nu/2)" \
            "**2 is %s instead of %s" % (n, g, g2, r)
    if what == "tolerance":
        # determinants as in the counterexample, by their size
        rng = __import__("random").Random(case.get("seed", 0))
        for a_, q_, tol in [(abs(a) + 1e-3, q, e["tol"])] + [
                (rng.uniform(.01, .9), rng.uniform(.1, .6), 10**-rng.uniform(
                    2, 9)) for _ in range(8)]:
            if not tol > 0 or min(abs(4*k*k - a_) for k in range(60)) < 1e-3:
                continue
            st = case["start"] or 5
            f = {}

            def ex(n):
                if n not in f:
                    r = delta(np, a_, q_, n)*math.sin(
                        math.pi/2*math.sqrt(a_))**2
                    f[n] = 2/math.pi*math.asin(math.sqrt(r)) \
                        if 0 <= r <= 1 else None
                return f[n]
            w = None
            for i in range(1, 21):
                x, y = ex(st*i), ex(2*st*i)
                if x is None or y is None:
                    break
                if near(abs(x-y), tol, 1e-12):
                    break
                if abs(x-y) < tol:
                    w = y, 2*st*i
                    break
            if w is None:
                continue
            kw = {} if case["start"] is None else dict(nstart=st)
            g = M().nu_tolerance(a_, q_, tol=tol, **kw)
            if g[1] != w[1] or not near(g[0], w[0]):
                return "a=%g q=%g tol=%g gives exponent %s order %s " \
                    "instead of %s, %s" % ((a_, q_, tol) + tuple(g) + w)
        return tampered(np, MM, case)
    if what == "never":
        return never(np, MM)
    if what == "ivp":
        rec = []
        old = MM.solve_ivp

        def solve(fun, t_span, y0, method="RK45", t_eval=None, **kw):
            rec.append((fun, t_span, y0, method, t_eval))
            s = Sol()
            s.y = np.array([[1, .2, e["Y"]], [0., .3, .7]])
            s.t = np.array([0, 1, np.pi])
            return s
        Y = e["Y"]
        if abs(Y) > 1:
            return None
        MM.solve_ivp = solve
        try:
            g = M().nu_exp_ivp(a, q, **case["kw"])
        finally:
            MM.solve_ivp = old
        if len(rec) != 1:
            return "%d problems" % len(rec)
        fun, span, y0, method, te = rec[0]
        if method != case["kw"].get("method", "RK45"):
            return "method %s" % method
        t, y = e["t"], np.array([e["c0"], e["c1"]])
        f = fun(t, y)
        w = [y[1], -(a - 2*q*math.cos(2*t))*y[0]]
        if not np.allclose(f, w, 1e-9, 1e-9):
            return "right hand side %s instead of %s" % (f, w)
        if not np.allclose(span, [0, math.pi]) or not np.allclose(
                y0, [1, 0]):
            return "span %s start %s" % (span, y0)
        if te is not None and not near(te[-1], math.pi):
            return "times %s" % te
        return None if near(g, math.acos(Y)/math.pi) else \
            "exponent %g for end value %g" % (g, Y)
    if what == "bla":
        if a + q*q/2 < 1e-6:
            return None
        g = M().nu_exp_bla(a, q)
        return None if near(g, math.sqrt(a + q*q/2)) else "lowest order %g" \
            % g
    if what == "sum":
        a, q = min(max(abs(a), .01), .3), min(max(abs(q), .1), .5)
        kw = dict(case["kw"])
        s = M()
        s.init_sol(a, q, **kw)
        # an independent solution of the differential equation
        from scipy.integrate import solve_ivp
        mono = [solve_ivp(lambda t, y: [y[1], -(a - 2*q*np.cos(2*t))*y[0]],
                          [0, np.pi], y, rtol=1e-10, atol=1e-12).y[:, -1]
                for y in ([1., 0], [0, 1.])]
        w = math.acos(mono[0][0])/math.pi
        eps = 1e-3 if kw.get("mode") == "ivp" else 1e-4
        if abs(s.nu - w) > eps:
            return "exponent %s instead of %g" % (s.nu, w)
        nc = kw.get("nc") or M().nu_tolerance(a, q, 1e-5)[1]
        cc = M().coeff_Cn(a, q, s.nu, nc, kw.get("ng", 5))
        for z in (0, 1):
            if np.shape(s.Cn[z]) != np.shape(cc[z]) or not np.allclose(
                    s.Cn[z], cc[z]):
                return "%s: coefficients %s instead of %s" % (
                    kw, s.Cn[z], cc[z])
        # the solutions obey the equation
        for f in (s.sol_y1, s.sol_y2):
            for t in (.3, 1.1):
                d = f(t, 2) + (a - 2*q*math.cos(2*t))*f(t)
                if nc > 1 and abs(d) > 2e-2:
                    return "%s: residual %g" % (kw, d)
        return None


def tampered(np, MM, case):
    """Determinants from a list instead of the matrix."""
    rng = __import__("random").Random(5)
    old = np.linalg.det
    st = case["start"] or 5
    kw = {} if case["start"] is None else dict(nstart=st)
    try:
        for k in range(40):
            d = {}

            def det(x):
                n = len(x)
                if n not in d:
                    d[n] = rng.uniform(.2, 1.5)
                return d[n]
            np.linalg.det = det
            a, tol = .2, rng.choice([1e-3, .02, .1, .2])
            s2 = math.sin(math.pi/2*math.sqrt(a))**2

            def ex(n):
                return 2/math.pi*math.asin(math.sqrt(det(
                    np.zeros((2*n+1, 1)))*s2))
            for i in range(1, 101):
                x, y = ex(st*i), ex(2*st*i)
                if abs(x-y) < tol:
                    w = y, 2*st*i
                    break
            else:
                continue
            try:
                g = MM.Mathieu().nu_tolerance(a, .3, tol=tol, **kw)
            except ValueError as err:
                return "%s although order %d is good" % (err, w[1])
            if g[1] != w[1] or not near(g[0], w[0]):
                return "exponent %s order %s instead of %s, %s" % (
                    tuple(g) + w)
    finally:
        np.linalg.det = old
    return None


def never(np, MM):
    old = np.linalg.det
    np.linalg.det = lambda x: .5 + 1./(len(x)//2 + 4)
    try:
        g = MM.Mathieu().nu_tolerance(.25, .3, tol=0.)
        return "%s although the precision is never reached" % (g,)
    except ValueError:
        return None
    finally:
        np.linalg.det = old


def fb(r):
    e = gen(r)
    return [case("coeff", nc=n, ng=g)(e) for n, g in CUTS] + [
        case("sol", k=k, d=d)(e) for k in (1, 3, 5) for d in range(DERI)] + [
        case("init", form=f)(e) for f in ("tuple", "array", None)] + [
        case("det", n=n)(e) for n in (1, 2, 3)] + [
        case("tolerance", start=s)(e) for s in (None, 1, 3, 4)] + [
        case("never")(e), case("bla")(e)] + [
        case("ivp", kw=k)(e) for k in ({}, dict(method="Radau"),
                                       dict(nstep=4))] + [
        case("sum", kw=k)(e) for k in (
            {}, dict(mode="det", nc=2, ng=2), dict(mode="ivp", nc=1, ng=2),
            dict(mode="ivp", ng=1))]


if __name__ == "__main__":
    harness.main("C26", __file__, body, replay,
                 bounds="any a, q, exponents, coefficients, times and "
                 "initial values; cutoffs nc + ng up to 4 (thorough 5), 1-5 "
                 "coefficients, derivatives 0-5, determinants of order 1-3, "
                 "orders of the tolerance search up to 10 and constant "
                 "after that",
                 outside="complex exponents (unbounded motion), the "
                 "approximation nu_exp_d0ap, the integrator and the "
                 "determinant routine themselves", fallback=fb)
