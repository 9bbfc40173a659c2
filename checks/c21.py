"""C21: optimize and shims: every voltage vector the solver may return gives
the objectives in the requested proportions, the strength reported is the
factor, it is what is maximised, nothing else is demanded, and a shim vector
has unit effect on its own objective and none on the others."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract
import fakecvx

X = (.1, .2, 1.)
ELS = "abcd"
# objectives, electrodes, entries of B that are variables
SIZES = [(1, 1, None), (1, 3, None), (2, 2, None), (2, 3, None),
         (2, 3, "four"), (2, 3, "two"), (3, 3, "one"), (3, 3, "none"), (3, 4, "none")]
# all six entries take the solver long
DEEP = (2, 3, None)
VARS = dict(none=[], four=[(0, 0), (0, 1), (1, 1), (1, 2)], one=[(0, 1)], two=[(0, 1), (1, 2)])
FIX = [[1, 2, -1, 3], [-2, 1, 4, 1], [3, -1, 1, 2]]


def shape(q):
    return "%d objectives %d electrodes%s" % (q[0], q[1], "" if q[2] is None
                                              else " (%s)" % q[2])


def isvar(size, i, j):
    k, n, which = size
    return which is None or (i, j) in VARS[which]


def pinvT(get, size, lift):
    """Transposed pseudoinverse of the matrix of effects."""
    return [[get("B%d%d" % (i, j)) if isvar(size, i, j) else
             lift(FIX[i][j]) for j in range(size[1])]
            for i in range(size[0])]


def effects(C):
    """The matrix with independent rows whose pseudoinverse is C.T: every
    such matrix is given by one C."""
    m, n = len(C), len(C[0])
    K = [[dot(a, b) for b in C] for a in C]
    d = det(K)
    out = []
    for i in range(m):
        co = [(-1)**(i+q)*det([r[:i] + r[i+1:] for a, r in enumerate(K)
                               if a != q]) if m > 1 else 1
              for q in range(m)]
        out.append([dot(co, [C[q][j] for q in range(m)])/d
                    for j in range(n)])
    return out


def gen(r):
    e = {"B%d%d" % (i, j): r.uniform(-1, 1) for i in range(3)
         for j in range(4)}
    e.update({"b%d" % i: r.uniform(-1, 1) for i in range(3)})
    e.update({"y%d" % i: r.uniform(-1, 1) for i in range(4)})
    e.update({"p%d_%d" % (i, j): r.uniform(-1, 1) for i in range(3)
              for j in range(4)})
    e.update(off=r.uniform(-1, 1), lo=-r.uniform(.1, 1), t=r.uniform(-1, 1))
    return e


def case(what, size, extra=None):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(what=what, size=list(size), extra=extra, env=e)
    return f


def build(es_electrode, P, System, get, zeros, size, what, extra, lift):
    """System with potentials that give the matrix B, and the request."""
    k, n, _ = size
    B = effects(pinvT(get, size, lift))

    class El(es_electrode):
        def potential(self, x, derivative=0, potential=1., out=None):
            if out is None:
                out = zeros((len(x), 2*derivative+1))
            j = ELS.index(self.name)
            for q in range(len(x)):
                for i in range(2*derivative+1):
                    if derivative == 1:
                        v = B[i][j] if i < k else 0
                    elif derivative == 0:
                        v = get("y%d" % j)
                    else:
                        v = FIX[j % 3][i % 4]
                    out[q, i] = out[q, i] + potential*v
            return out
    s = System([El(name=ELS[j]) for j in range(n)])
    if what == "optimize":
        cs = [P.PotentialObjective(X, "xyz"[i], value=get("b%d" % i))
              for i in range(k)]
        # something between that is no objective
        cs.insert(1, P.PotentialObjective(X, "", offset=get("off")))
        cs.append(P.PatternRangeConstraint(min=get("lo")))
        return s, cs
    obj = []
    m = k
    if extra:
        m = k-1
        obj = [P.MultiPotentialObjective(components=[
            P.PotentialObjective(X, "xyz"[k-1], value=lift(1))],
            value=None if extra == "unset" else lift(5))]
    return s, ([(X, None, "xyz"[i]) for i in range(m)], obj)


def null(A, n, y):
    """Everything orthogonal to the rows of A (at most two)."""
    if not A:
        return list(y[:n])
    if n == 2:
        a = A[0]
        return [-a[1]*y[0], a[0]*y[0]]
    if n == 3:
        def cross(a, b):
            return [a[(i+1) % 3]*b[(i+2) % 3] - a[(i+2) % 3]*b[(i+1) % 3]
                    for i in range(3)]
        if len(A) == 1:
            return cross(A[0], y)
        return [q*y[0] for q in cross(A[0], A[1])]
    # n == 4, two rows: a^b^y
    a, b = A
    r = []
    for i in range(4):
        o = [j for j in range(4) if j != i]
        r.append((-1)**i*det([[q[j] for j in o] for q in (a, b, y)]))
    return r


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        s = s + (-1)**j*m[0][j]*det([r[:j] + r[j+1:] for r in m[1:]])
    return s


def dot(a, b):
    return sum((p*q for p, q in zip(a[1:], b[1:])), a[0]*b[0])


def body(c):
    import npshim
    fake = fakecvx.Fake(
        lambda k, n: [S.var("p%d_%d" % (k, j)) for j in range(n)],
        npshim.oarr)
    pkg = load.Pkg(overrides={"cvxopt": fake.cvxopt,
                              "cvxopt.modeling": fake.modeling})

    def pinv(B, rcond=None, **kw):
        """Right inverse of a matrix with independent rows."""
        B = npshim.oarr(B)
        for size in SIZES:
            C = pinvT(v, size, S.const)
            if B.shape == size[:2] and all(
                    S.need(p) is q for r, t in zip(B, effects(C))
                    for p, q in zip(r, t)):
                return npshim.oarr(C).T
        G = pkg.np.dot(B, B.T)
        return pkg.np.dot(B.T, pkg.np.linalg.inv(G))
    pkg.np.linalg.pinv = pinv
    c.encoded("system.System.optimize", "system.System.shims",
              "system.System._run_cvxopt",
              "pattern_constraints.SingleValueConstraint.objective",
              "pattern_constraints.SingleValueConstraint.constraints",
              "pattern_constraints.PotentialObjective.get",
              "pattern_constraints.MultiPotentialObjective.get")
    P = pkg["pattern_constraints"]
    System = pkg["system"].System
    Base = pkg["electrode"].Electrode
    v = S.var
    zs, later = [], []
    # a path that cannot happen does no harm here
    c.P.FEAS = 200

    def lin(e, k, n):
        """Coefficients of a linear function of the kth voltages."""
        out = []
        for j in range(n):
            out.append(S.diff([e], {v("p%d_%d" % (k, j)): S.ONE})[0])
        return out

    def at(e, k, p):
        return S.subst(e, {v("p%d_%d" % (k, j)): q
                           for j, q in enumerate(p)})

    def problem(tag, ca, pc, size, k, b, prob, own, cost, vec):
        """Solver problem k with the wanted proportions b: own = number of
        equality residuals of the request itself."""
        m, n, _ = size
        C = pinvT(v, size, S.const)
        B = effects(C)
        p = [v("p%d_%d" % (k, j)) for j in range(n)]
        res = [S.need(S.lift(e)) for q in prob.ctrs if q.op == "=="
               for e in q.res.e]
        rest = [e for e in res if not any(S.normalize(e - o).val == 0
                                          if S.normalize(e - o).op == "c"
                                          else False for o in own)]
        c.fact("%s: %d proportionality equations" % (tag, m-1),
               len(rest) == m-1 and len(res) == m-1+len(own), ca)
        if len(rest) != m-1:
            return
        A = [lin(e, k, n) for e in rest]
        zero = {q: S.ZERO for q in p}
        for e in rest:
            zs.append(("%s: homogeneous" % tag, S.subst(e, zero), pc, ca,
                       gen))
        # anything with the right proportions is allowed
        y = [v("y%d" % j) for j in range(n)]

        def pseudo(t):
            return [dot([C[i][j] for i in range(m)], t) for j in range(n)]
        t = v("t")
        By = [dot(r, y) for r in B]
        free = [a + q - d for a, q, d in zip(pseudo([t*q for q in b]), y,
                                             pseudo(By))]
        for i, e in enumerate(rest):
            zs.append(("%s: proportional voltages are allowed %d" % (tag, i),
                       at(e, k, free), pc, ca, gen))
        # and nothing else
        sol = null(A, n, y)
        for i in range(m):
            if vec is None:
                e = at(dot(B[i], p) - S.need(cost)*b[i], k, sol)
            else:
                e = at(dot(B[i], [S.need(q) for q in vec]) - b[i], k, sol)
            zs.append(("%s: effect on objective %d" % (tag, i), e, pc, ca,
                       gen))
        if A:
            D = [[dot(a, d) for d in C] for a in A]
            minors = [det([r[:i] + r[i+1:] for r in D]) for i in range(m)]
            minors = [S.need(q[0]) for q in c.P.frac(*minors)]
            later.append(("%s: independent equations" % tag, S.bnot(
                S.band(*[S.cmp_("==", q, S.ZERO) for q in minors])), pc, ca))
        # what is maximised grows with the strength
        f = S.need(S.lift(prob.objective.e[0]))
        ph = lin(f, k, n)
        cb = dot(b, b)
        for t1 in range(1 if m == 1 and n == 1 else 1):
            # strength of proportional voltages is t
            w = at(f, k, free)
            d = S.diff([w], {t: S.ONE})[0]
            zs.append(("%s: only the strength counts" % tag,
                       w - t*d, pc, ca, gen))
            later.append(("%s: strength is maximised" % tag,
                          S.cmp_("<", d, S.ZERO), pc, ca))
        if cost is not None:
            zs.append(("%s: strength" % tag, at(S.need(cost), k, free) - t,
                       pc, ca, gen))

    sizes = SIZES
    for size in sizes:
        if size == DEEP and not harness.THOROUGH:
            continue
        m, n, which = size
        C = pinvT(v, size, S.const)
        G = [[dot(a, d) for d in C] for a in C]
        full = S.bnot(S.cmp_("==", det(G), S.ZERO))
        b = [v("b%d" % i) for i in range(m)]
        nz = S.bnot(S.band(*[S.cmp_("==", q, S.ZERO) for q in b]))
        tag = "optimize, " + shape(size)
        ca = case("optimize", size)

        def go():
            fake.reset()
            s, cs = build(Base, P, System, v, pkg.np.zeros, size,
                          "optimize", None, S.lift)
            p, cost = s.optimize(cs, verbose=False)
            return p, cost, list(fake.problems)
        for pc, r, exc in c.explore(go, [full, nz]):
            c.fact("%s: no exception (%r)" % (tag, exc), exc is None, ca)
            if exc:
                continue
            p, cost, problems = r
            c.fact("%s: one problem" % tag, len(problems) == 1 and
                   tuple(p.shape) == (n,), ca)
            if tuple(p.shape) != (n,):
                continue
            for j in range(n):
                zs.append(("%s: voltage %d" % (tag, j), S.need(p[j])
                           - v("p0_%d" % j), pc, ca, gen))
            prob = problems[0]
            own = [dot([v("y%d" % j) for j in range(n)],
                       [v("p0_%d" % j) for j in range(n)]) - v("off")]
            ineq = [e for q in prob.ctrs if q.op == "<=" for e in q.res.e]
            c.fact("%s: limits" % tag, len(ineq) == n and all(
                S.normalize(S.need(e) - (v("lo") - v("p0_%d" % j))) is S.ZERO
                for j, e in enumerate(ineq)), ca)
            problem(tag, ca, pc, size, 0, b, prob, own, cost, None)
        for extra in (None, "unset", "set") if m > 1 else (None,):
            if which is None and n > 2 and m > 1 or which in (
                    "one", "four"):
                continue
            tag = "shims, %s%s" % (shape(size), "" if not extra else
                                   ", one combined (%s)" % extra)
            ca = case("shims", size, extra)

            def go():
                fake.reset()
                s, (xs, obj) = build(Base, P, System, v, pkg.np.zeros, size,
                                     "shims", extra, S.lift)
                return s.shims(xs, objectives=obj), list(fake.problems)
            for pc, r, exc in c.explore(go, [full]):
                c.fact("%s: no exception (%r)" % (tag, exc), exc is None, ca)
                if exc:
                    continue
                r, problems = r
                c.fact("%s: problems" % tag, len(problems) == m and
                       tuple(r.shape) == (m, n), ca)
                if len(problems) != m or tuple(r.shape) != (m, n):
                    continue
                for i, prob in enumerate(problems):
                    unit = [S.const(int(i == q)) for q in range(m)]
                    ineq = [S.need(e) for q in prob.ctrs if q.op == "<="
                            for e in q.res.e]
                    ref = [w*v("p%d_%d" % (i, j)) - 1 for j in range(n)
                           for w in (1, -1)]
                    c.fact("%s: limits %d" % (tag, i), len(ineq) == 2*n and
                           all(any(S.normalize(e - q) is S.ZERO
                                   for q in ineq) for e in ref), ca)
                    problem("%s %d" % (tag, i), ca, pc, size, i, unit, prob,
                            [], None, list(r[i]))
    c.zeros(zs)
    for name, claim, pc, ca in later:
        c.holds(name, claim, pc, ca, gen)


def replay(case):
    import numpy as np
    import electrode.system as es
    import electrode.pattern_constraints as P
    from electrode.electrode import Electrode
    e = dict(case["env"])
    size = tuple(case["size"])
    m, n, _ = size
    C = np.array(pinvT(e.get, size, float))
    if np.linalg.matrix_rank(C, 1e-4) < m:
        return None
    B = np.array(effects(C.tolist()))
    b0 = np.array([e["b%d" % i] for i in range(m)])
    if case["what"] == "optimize" and np.linalg.norm(b0) < 1e-6:
        return None
    fake = fakecvx.Fake(lambda k, n: [e["p%d_%d" % (k, j)]
                                      for j in range(n)], np.array)
    old = es.cvxopt, P.cvxopt
    es.cvxopt = P.cvxopt = fake.cvxopt
    try:
        def go():
            fake.reset()
            s, a = build(Electrode, P, es.System, e.get, np.zeros, size,
                         case["what"], case["extra"], float)
            if case["what"] == "optimize":
                p, cost = s.optimize(a, verbose=False)
                return [p], [cost]
            return s.shims(a[0], objectives=a[1]), None
        with np.errstate(all="ignore"):
            try:
                go()
            except Exception as ex:
                return "raised %r" % ex
            nprob = 1 if case["what"] == "optimize" else m
            if len(fake.problems) != nprob:
                return "%d problems" % len(fake.problems)
            for k in range(nprob):
                b = b0 if case["what"] == "optimize" else np.eye(m)[k]
                ps = ["p%d_%d" % (k, j) for j in range(n)]

                def setp(p):
                    for q, w in zip(ps, p):
                        e[q] = float(w)

                def look(p):
                    setp(p)
                    r, cost = go()
                    pr = fake.problems[k]
                    eq = np.array([float(q) for z in pr.ctrs
                                   if z.op == "==" for q in z.res.e])
                    le = sorted(float(q) for z in pr.ctrs
                                if z.op == "<=" for q in z.res.e)
                    return (np.array(r[k], float), cost and cost[0], eq, le,
                            float(pr.objective.e[0]))
                p0 = np.array([e[q] for q in ps])
                own = np.array([e["y%d" % j] for j in range(n)])
                e0 = look(np.zeros(n))[2]
                A = np.array([look(p)[2] - e0 for p in np.eye(n)]).T
                x = A.reshape(-1, n)
                le = look(p0)[3]
                want = sorted([q-1 for q in p0] + [-q-1 for q in p0]) \
                    if case["what"] == "shims" else \
                    sorted(e["lo"] - q for q in p0)
                if not np.allclose(le, want):
                    return "limits %s, asked for %s" % (le, want)
                if case["what"] == "optimize":
                    # the request's own equation
                    i = [i for i in range(len(e0)) if
                         np.allclose(A[i], own) and
                         np.allclose(e0[i], -e["off"])]
                    if not i:
                        return "the forced potential is not asked for"
                    x = np.delete(A, i[0], 0)
                    e0 = np.delete(e0, i[0])
                if len(e0) and np.abs(e0).max() > 1e-7:
                    return "equations are not homogeneous: %s" % e0
                # voltages with the right proportions
                rng = np.random.RandomState(2)
                for t in (1., .3):
                    z = rng.uniform(-1, 1, n)
                    p = np.dot(np.linalg.pinv(B), t*b - np.dot(B, z)) + z
                    if len(x) and np.abs(np.dot(x, p)).max() > 1e-6*(
                            1 + np.abs(x).max()*np.abs(p).max()):
                        return "voltages %s with effects %s are excluded" % (
                            p, t*b)
                    f1, f2 = look(p)[4], look(2*p)[4]
                    if not f1 < 0 or not np.allclose(f2, 2*f1):
                        return "minimises %s at strength %s" % (f1, t)
                    if case["what"] == "optimize":
                        r = look(p)
                        if not np.allclose(r[0], p) or \
                                not np.allclose(r[1], t):
                            return "reports %s, %s at %s, %s" % (
                                r[0], r[1], p, t)
                # everything allowed has them
                if len(x):
                    u, sv, vh = np.linalg.svd(x)
                    rank = int((sv > 1e-8*max(1, sv[0])).sum())
                    if np.any((sv > 1e-10) & (sv < 1e-5)):
                        return None
                    N = vh[rank:]
                else:
                    N = np.eye(n)
                for i in range(3):
                    p = np.dot(rng.uniform(-1, 1, len(N)), N)
                    r = look(p)
                    eff = np.dot(B, r[0])
                    w = b if r[1] is None else r[1]*b
                    if r[1] is None and not np.isfinite(eff).all():
                        continue
                    s = max(1, np.abs(B).max()*np.abs(r[0]).max())
                    if not np.allclose(eff, w, rtol=1e-5, atol=1e-6*s):
                        return "allowed voltages %s: effects %s, not %s" % (
                            r[0], eff, w)
                setp(p0)
        return None
    finally:
        es.cvxopt, P.cvxopt = old


def fb(r):
    out = []
    for size in SIZES:
        for k in range(4):
            g = gen(r)
            if k == 1 and size[0] > 1:
                g["b0"] = 0.
            if k == 2 and size[0] > 1:
                g.update({"B%d0" % i: 1.*(i == 0) for i in range(3)})
                g["b1"] = g["b2"] = 0.
            out.append(case("optimize", size)(g))
            for x in (None, "unset", "set") if size[0] > 1 else (None,):
                out.append(case("shims", size, x)(g))
    return out


if __name__ == "__main__":
    harness.main("C21", __file__, body, replay,
                 bounds="1-3 objectives on 1-4 electrodes with independent "
                 "effects (all entries for up to 2 objectives; 4 free "
                 "entries for 3), any proportions, all voltages",
                 outside="the linear program solver and the pseudoinverse "
                 "(exact right inverse here), more objectives than "
                 "electrodes",
                 fallback=fb)
