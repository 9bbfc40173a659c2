"""C19: the saddle point search keeps its books: the point and value returned
belong together, no step is longer than allowed, steps go up along the lowest
mode and down along the others, the Hessian follows the gradients, and the
search stops for the reason it reports."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

ITER = 4
SCEN = ["start", "steps", "one", "exact", "flat", "free", "integers",
        "no hessian"]
ENDS = dict(g0_0=1, g1_0=-2, g2_0=-1, g3_0=3, f0=3, f1=2, f2=4, f3=5, dx=8)


class Enough(Exception):
    pass


def gen(r):
    d = {}
    for i in range(2):
        d["x%d" % i] = r.uniform(-1, 1)
        for k in range(ITER):
            d["g%d_%d" % (k, i)] = r.uniform(-1, 1)
            d["l%d_%d" % (k, i)] = r.uniform(-1, 0) if i == 0 \
                else r.uniform(0, 1)
    for k in range(ITER):
        d["f%d" % k] = r.uniform(-1, 1)
        d["t%d" % k] = r.uniform(-2, 2)
    d.update(dx=r.uniform(.05, 2), xtol=10**r.uniform(-6, .5),
             ftol=10**r.uniform(-6, .5), a=r.uniform(-1, 1),
             b=r.uniform(-1, 1), h00=r.uniform(-1, 1), h01=r.uniform(-1, 1),
             h11=r.uniform(-1, 1))
    return d


def case(what):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(what=what, env=e)
    return f


class Table(object):
    """fun and grad: a value of its own for every new point."""

    def __init__(self, get, n, same):
        self.get, self.n, self.same = get, n, same
        self.points, self.calls = [], []

    def number(self, x):
        x = list(x)
        for k, p in enumerate(self.points):
            if all(self.same(a, b) for a, b in zip(p, x)):
                return k
        self.points.append(x)
        return len(self.points)-1

    def fun(self, x):
        k = self.number(x)
        self.calls.append(k)
        return self.get("f%d" % k)

    def grad(self, x):
        k = self.number(x)
        return [self.get("g%d_%d" % (k, i)) for i in range(self.n)]


def same_term(a, b):
    a, b = S.need(S.lift(a)), S.need(S.lift(b))
    return a is b or S.normalize(a) is S.normalize(b)


def dot(a, b):
    return sum((p*q for p, q in zip(a[1:], b[1:])), a[0]*b[0])


# Hessians: turned by an angle with tangent of one half of 1/2
LAM = dict(saddle=(-3, 1), minimum=(1, 2), maximum=(-2, -1), level=(-1, 0))


def rotation(one):
    q = one*3/5, one*4/5
    return [[q[0], -q[1]], [q[1], q[0]]]


def hess(V, l):
    n = len(l)
    return [[sum(V[i][k]*l[k]*V[j][k] for k in range(n)) for j in range(n)]
            for i in range(n)]


def problem(what, get, one):
    """n, x0, h, eigen system of h."""
    if what in ("one", "no hessian"):
        h = None if what == "no hessian" else [[get("a")]]
        return 1, [get("x0")], h
    if what == "ends":
        return 1, [one], [[0*one]]
    if what == "integers":
        return 2, [1, 2], [[-3, 0], [0, 1]]
    x0 = [get("x0"), get("x1")]
    if what == "flat":
        return 2, x0, [[get("l0_0"), 0*one], [0*one, 0*one]]
    if what == "free":
        # an arbitrary Hessian; its modes come from the solver's stand-in
        return 2, [0*one, 0*one], [[get("h00"), get("h01")],
                                   [get("h01"), get("h11")]]
    return 2, x0, hess(rotation(one), [one*q for q in LAM[what]])


def body(c):
    import npshim, numpy
    pkg = load.Pkg()
    c.encoded("saddle.rfo")
    v = S.var
    z = S.ZERO
    np = pkg.np
    le = lambda a, b: S.cmp_("<=", S.need(S.lift(a)), S.need(S.lift(b)))
    lt = lambda a, b: S.cmp_("<", S.need(S.lift(a)), S.need(S.lift(b)))
    eq0 = lambda a: S.cmp_("==", S.need(S.lift(a)), z)
    state = {}
    items, later = [], []

    def eigh(h):
        k = state["eigh"]
        state["eigh"] += 1
        if k >= state["limit"]:
            raise Enough()
        h = numpy.array(h)
        n = len(h)
        what = state["what"]
        if n == 1:
            l, V = [S.need(S.lift(h[0, 0]))], [[S.ONE]]
        elif what == "integers" and not k:
            l, V = [S.const(-3), S.ONE], [[S.ONE, z], [z, S.ONE]]
        elif what == "flat" and not k:
            l, V = [v("l0_0"), z], [[S.ONE, z], [z, S.ONE]]
        elif what == "free":
            l, V = [-S.ONE, S.ONE], [[S.ONE, z], [z, S.ONE]]
        else:
            l, V = [S.const(q) for q in LAM[what]], rotation(S.ONE)
        state["modes"].append((l, V))
        return npshim.oarr(l), np.matrix(V) if n > 1 else np.matrix(
            [[S.ONE]])
    np.linalg.eigh = eigh
    pos = [lt(z, v(q)) for q in ("dx", "xtol", "ftol")]

    def run(what, limit, maxiter=200, ghess=None):
        state.update(eigh=0, limit=limit, what=what, modes=[])
        v = S.var
        if what == "ends":
            v = lambda q: S.const(ENDS[q]) if q in ENDS else S.var(q)
        n, x0, h = problem(what, v, S.ONE)
        T = Table(v, n, same_term)
        grad = T.grad
        if ghess:
            G = [[S.need(S.lift(q)) for q in r] for r in h]
            grad = lambda x: [dot(r, list(x)) for r in G]
        seen = []

        def cb(x, f, g, h):
            seen.append([numpy.array(q).ravel().tolist() if k < 3 else
                         numpy.array(q).tolist()
                         for k, q in enumerate((x, f, g, h))])
        try:
            r = pkg["saddle"].rfo(
                T.fun, grad, npshim.oarr(x0) if what != "integers" else x0,
                h=None if h is None else npshim.oarr(h)
                if what != "integers" else h, xtol=v("xtol"),
                ftol=v("ftol"), dx_max=v("dx"), maxiter=maxiter, cb=cb)
        except Enough:
            r = None
        return T, seen, r, list(state["modes"]), n

    def norm2(x):
        return dot(list(x), list(x))

    def common(what, tag, ca, pc, T, seen, r, modes, n, maxiter, nstep):
        v = S.var
        if what == "ends":
            v = lambda q: S.const(ENDS[q]) if q in ENDS else S.var(q)
        xs = [[S.need(S.lift(q)) for q in s[0]] for s in seen]
        fs = [S.need(S.lift(s[1][0])) for s in seen]
        hs = [[[S.need(S.lift(q)) for q in w] for w in s[3]] for s in seen]
        gs = [[S.need(S.lift(q)) for q in s[2]] for s in seen]
        for k in range(len(xs)):
            # books
            m = [q for q, p in enumerate(T.points)
                 if all(same_term(a, b) for a, b in zip(p, xs[k]))]
            if not m:
                m = [min(k, len(T.points)-1)]
            p = T.points[m[0]]
            for i in range(n):
                items.append(("%s: point %d evaluated %d" % (tag, k, i),
                              xs[k][i] - S.need(S.lift(p[i])), pc, ca, gen))
                if "exact" not in tag:
                    items.append((
                        "%s: gradient %d of point %d" % (tag, i, k),
                        gs[k][i] - v("g%d_%d" % (m[0], i)), pc, ca, gen))
            items.append(("%s: value of point %d" % (tag, k),
                          fs[k] - v("f%d" % m[0]), pc, ca, gen))
        for k in range(len(xs)-1):
            s = [b - a for a, b in zip(xs[k], xs[k+1])]
            l, V = modes[k]
            # modes: first up, others down
            D = [v("D%d" % i) for i in range(n)]
            for j in range(n):
                u = [V[i][j] for i in range(n)]
                gu, su = dot(u, gs[k]), dot(u, s)
                sg = 1 if j == 0 else -1
                later.append(("%s: step %d along mode %d" % (tag, k, j),
                              le(z, sg*gu*su), pc, ca))
            later.append(("%s: length of step %d" % (tag, k),
                          le(norm2(s), v("dx")**2), pc, ca))
            # full step if allowed: each component solves its equation
            # |g| s^2 + |l| |s| = |g| or all are scaled to the length
            later.append(("%s: size of step %d" % (tag, k), S.bor(
                S.band(*[eq0(S.absf(dot([V[i][j] for i in range(n)], gs[k]))
                             * (dot([V[i][j] for i in range(n)], s)**2 - 1)
                             + S.absf(l[j]*dot([V[i][j] for i in range(n)],
                                               s))) for j in range(n)]),
                eq0(norm2(s) - v("dx")**2)), pc, ca) if n == 1 else None)
            # stops
            r1 = S.sqrt(norm2(xs[k+1])) + S.sqrt(norm2(xs[k]))
            eps = S.need(S.lift(1e-20))
            xt = le(2*S.sqrt(norm2(s)), v("xtol")*(r1 + eps))
            ft = le(2*S.absf(fs[k+1] - fs[k]),
                    v("ftol")*(S.absf(fs[k+1]) + S.absf(fs[k]) + eps))
            last = r is not None and k == len(xs)-2
            over = maxiter > 0 and k+1 > maxiter
            if not last:
                c.fact("%s: goes on within maxiter" % tag, not over, ca)
                later.append(("%s: not at the end yet %d" % (tag, k),
                              S.band(S.bnot(xt), S.bnot(ft)), pc, ca))
            elif r[2] == "xtol":
                later.append(("%s: steps are small" % tag, xt, pc, ca))
            elif r[2] == "ftol":
                later.append(("%s: changes are small" % tag, ft, pc, ca))
            else:
                c.fact("%s: reason" % tag, r[2] == "iter" and over, ca)
        if r is not None:
            c.fact("%s: shape" % tag, numpy.shape(r[0]) == (n,), ca)
            for i in range(n):
                items.append(("%s: last point %d" % (tag, i),
                              S.need(S.lift(r[0][i])) - xs[-1][i], pc, ca,
                              gen))
            items.append(("%s: last value" % tag, S.need(S.lift(
                npshim.SymFloat(numpy.array(r[1]).ravel()[0])))
                - fs[-1], pc, ca, gen))
        return xs, fs, gs, hs

    def narrow(q):
        return q.op == "==" or q.op in ("and", "or") and any(
            narrow(w) for w in q.args)

    def usual(pc):
        r = __import__("random").Random(1)
        for k in range(200):
            try:
                if all(S.evalf(q, gen2(r)) for q in pc):
                    return True
            except (ZeroDivisionError, ValueError):
                pass
        return False

    def secant(tag, ca, pc, xs, gs, hs, n):
        # steps start at 0: their terms become variables
        for k in range(len(hs)-1):
            m = {}
            for i in range(n):
                s = xs[k+1][i] - xs[k][i]
                if s.op not in ("c",):
                    m[s] = v("D%d" % i)
            ap = [S.subst(q, m) for q in list(pc) + [
                S.bnot(S.band(*[eq0(q) for q in m.values()]))]]
            # conditions on the step itself are of no use
            keep = [q for q in ap if not any(
                isinstance(w, S.E) and w.op == "sqrt" for w in S.topo(q))]
            ids = {q.id for q in keep}
            if any(narrow(q) for q in ap if q.id not in ids) \
                    and not usual(pc):
                continue
            ap = keep if any(q.op == "==" for q in keep) else keep[-1:]
            for i in range(n):
                e = dot(hs[k+1][i], [xs[k+1][q] - xs[k][q]
                                     for q in range(n)]) \
                    - (gs[k+1][i] - gs[k][i])
                e = S.subst(e, m)
                if any(q.op == "==" for q in ap):
                    later.append(("%s: gradient change %d" % (tag, i),
                                  S.band(le(e, 0), le(0, e)), ap, ca))
                else:
                    items.append(("%s: gradient change %d" % (tag, i), e,
                                  ap, ca, gen2))
                for j in range(i):
                    items.append(("%s: symmetric %d%d" % (tag, i, j),
                                  S.subst(hs[k+1][i][j] - hs[k+1][j][i], m),
                                  ap, ca, gen2))

    def gen2(r):
        d = gen(r)
        d.update({"D%d" % i: r.uniform(-1, 1) for i in range(2)})
        return d

    many = list(LAM) if harness.THOROUGH else ["saddle", "minimum"]
    for what, limit, maxiter in [(q, 1, 200) for q in many + [
            "one", "flat", "integers", "no hessian"]] + [
            ("ends", 4, q) for q in (1, 2)]:
        ca = case(what if maxiter > 2 else "%s %d" % (what, maxiter))
        ass = pos + ([le(v("l0_0"), z)] if what == "flat" else [])
        if what == "flat":
            ass.append(eq0(v("g0_1")))
        ends = set()
        for pc, r, exc in c.explore(lambda: run(what, limit, maxiter), ass):
            tag = "%s (%s)" % (what, r and r[2] and r[2][2])
            c.fact("%s: no exception (%r)" % (tag, exc), exc is None, ca)
            if exc:
                continue
            ends.add(r[2] and r[2][2])
            common(what, tag, ca, pc, *r[:4], r[4], maxiter, 1)
            T, seen, res, modes, n = r
        c.fact("%s: all ends" % what, ends == {
            None if what != "ends" else "iter", "xtol", "ftol"},
            ca, repr(ends))
    # Hessian
    for what in ("free",):
        ca = case(what)
        for pc, r, exc in c.explore(lambda: run(what, 1), pos):
            tag = "hessian, %s" % what
            if exc or len(r[1]) < 2:
                continue
            T, seen, res, modes, n = r
            xs = [[S.need(S.lift(q)) for q in s[0]] for s in seen]
            gs = [[S.need(S.lift(q)) for q in s[2]] for s in seen]
            hs = [[[S.need(S.lift(q)) for q in w] for w in s[3]]
                  for s in seen]
            secant(tag, ca, pc, xs, gs, hs, n)
    c.zeros([q for q in items])
    c.holds_all([q + (gen2,) for q in later if q])


def judge(rfo, fun, grad, x0, h, xtol, ftol, dx, maxiter, stop):
    """Runs the search on the real code and looks at every step."""
    import numpy as np
    seen, pts = [], []

    def f(x):
        pts.append((np.array(x, float), fun(x)))
        return pts[-1][1]

    def cb(x, f, g, h):
        seen.append([np.array(q, float) for q in (x, f, g, h)])
        if len(seen) > stop:
            raise Enough()
    res = None
    start = np.array(x0, float)
    try:
        with np.errstate(all="ignore"):
            res = rfo(f, grad, x0, xtol=xtol, ftol=ftol, dx_max=dx, h=h,
                      maxiter=maxiter, cb=cb)
    except Enough:
        pass
    except Exception as ex:
        return "raised %r" % ex
    n = len(start)
    X = [s[0].ravel() for s in seen]
    F = [float(s[1].ravel()[0]) for s in seen]
    G = [s[2].ravel() for s in seen]
    H = [s[3].reshape(n, n) for s in seen]
    if not np.allclose(X[0], start):
        return "starts at %s, not %s" % (X[0], start)
    want = np.eye(n) if h is None else np.array(h, float)
    if not np.allclose(H[0], want):
        return "starts with the Hessian %s, not %s" % (H[0], want)
    close = lambda a, b, s=1: np.allclose(a, b, rtol=1e-6, atol=1e-8*s)
    for k in range(len(X)):
        if not (np.isfinite(X[k]).all() and np.isfinite(H[k]).all()):
            return "step %d: point %s Hessian %s" % (k, X[k], H[k])
        m = [v for p, v in pts if close(p, X[k])]
        if not m:
            return "point %s was never evaluated" % X[k]
        if not any(close(v, F[k]) for v in m):
            return "value %s for point %s, it is %s" % (F[k], X[k], m[0])
        if not close(grad(X[k]), G[k]):
            return "gradient %s at %s, it is %s" % (G[k], X[k], grad(X[k]))
    for k in range(len(X)-1):
        s = X[k+1] - X[k]
        ns = np.linalg.norm(s)
        if ns > dx*(1 + 1e-9):
            return "step of length %s > %s" % (ns, dx)
        l, V = np.linalg.eigh(H[k])
        if n == 1 or np.diff(l).min() > 1e-3:
            gl, sl = np.dot(V.T, G[k]), np.dot(V.T, s)
            up = np.array([1.] + [-1.]*(n-1))
            sc = np.abs(gl).max() + 1e-12
            if (up*gl*sl).min() < -1e-9*sc:
                return "step %s along the modes for slopes %s" % (sl, gl)
            # every mode's own step, unless shortened to the limit
            full = 2*np.abs(gl)/np.maximum(
                np.abs(l) + np.sqrt(l**2 + 4*gl**2), 1e-300)
            w = full*min(1, dx/max(np.linalg.norm(full), 1e-300))
            if not close(np.abs(sl), w, 1 + np.abs(w).max()):
                return "step %s along the modes, expected %s" % (
                    np.abs(sl), w)
        if ns > 1e-6 and np.linalg.norm(H[k+1]) < 1e6:
            y = G[k+1] - G[k]
            sc = max(1, np.abs(H[k+1]).max(), np.abs(y).max())
            if not close(np.dot(H[k+1], s), y, 1e2*sc):
                return "Hessian times step %s, gradient change %s" % (
                    np.dot(H[k+1], s), y)
            if not close(H[k+1], H[k+1].T, 1e2*sc):
                return "Hessian %s is not symmetric" % H[k+1]
        a, b = np.linalg.norm(X[k]), np.linalg.norm(X[k+1])
        qx = 2*ns, xtol*(a + b + 1e-20)
        qf = 2*abs(F[k+1] - F[k]), ftol*(abs(F[k]) + abs(F[k+1]) + 1e-20)
        over = 0 < maxiter < k+1
        lo, hi = 1 - 1e-6, 1 + 1e-6
        last = res is not None and k == len(X)-2
        if not last:
            if len(X) - 2 > k:
                if over or qx[0] < lo*qx[1] or qf[0] < lo*qf[1]:
                    return "goes on after step %d: %s %s %s" % (
                        k, qx, qf, over)
        elif not {"xtol": qx[0] <= hi*qx[1] + 1e-15,
                  "ftol": qf[0] <= hi*qf[1] + 1e-15,
                  "iter": over}.get(res[2], False):
            return "stops with %r: %s %s" % (res[2], qx, qf)
    if res is not None:
        if np.shape(res[0]) != (n,) or not close(res[0], X[-1]):
            return "returns %s, the last point is %s" % (res[0], X[-1])
        if not close(float(np.ravel(res[1])[0]), F[-1]):
            return "returns the value %s, it is %s" % (res[1], F[-1])
    return None


def replay(case):
    import numpy as np
    from electrode.saddle import rfo
    e, what = dict(case["env"]), case["what"]
    most, maxiter = 2, 200
    if what[:4] == "ends":
        what, most, maxiter = "ends", 4, int(what[5:])
        e.update(ENDS)
    if min(e["dx"], e["xtol"], e["ftol"]) <= 0:
        return None
    n, x0, h = problem(what, e.get, 1.)
    near = lambda a, b: abs(a-b) < 1e-12*(1 + abs(a))
    T = Table(e.get, n, near)
    if what == "flat":
        if e["l0_0"] > 0:
            return None
        e = dict(e, g0_1=0.)
        T.get = e.get
    arg = x0 if what == "integers" else np.array(x0)
    r = judge(rfo, T.fun, T.grad, arg, h if h is None or what == "integers"
              else np.array(h), e["xtol"], e["ftol"], e["dx"], maxiter, most)
    if r:
        return r
    # smooth functions of one to three variables
    a, b = e["a"], e["b"]
    for n in (1, 2, 3):
        A = np.diag([-1.-a*a, 1.+b*b, 2.][:n]) + (.1*a if n > 1 else 0)
        x0 = np.array([e["x0"], e["x1"], a][:n])
        for q, hh in ((0, A), (0, None), (.3*b, A), (.3*b, None)):
            fun = lambda x: .5*np.dot(x, np.dot(A, x)) + q*np.sum(
                np.array(x)**3)
            grad = lambda x: np.dot(A, x) + 3*q*np.array(x)**2
            for maxiter, tol, dx in (
                    (200, e["xtol"], 1), (2, 1e-9, 1), (1, 1e-9, 1),
                    (0, 1e-3, 1), (0, 1e-9, .02)):
                r = judge(rfo, fun, grad, x0, hh, tol, tol, e["dx"]*dx,
                          maxiter, 6)
                if r:
                    return "%d variables: %s" % (n, r)
    return None


def fb(r):
    return [case(q)(gen(r)) for q in list(LAM) + [
        "one", "flat", "integers", "no hessian", "free", "ends 1", "ends 2"] for k in range(3)]


if __name__ == "__main__":
    harness.main("C19", __file__, body, replay,
                 bounds="one and two variables, two iterations, any values, "
                 "gradients, tolerances and step limits; Hessians: any "
                 "number for one variable; for two any eigenvector frame "
                 "rotated by one angle and four pairs of eigenvalues, and "
                 "any Hessian for its update",
                 outside="convergence; the eigenvalue routine (exact here)",
                 fallback=fb)
