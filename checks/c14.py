"""C14: conversion of a harmonic derivative tensor to real spherical
harmonics: the coefficients reproduce the potential term of that order."""
from fractions import Fraction as Fr
from math import factorial, comb
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract


def comps(l):
    return ["c%d_%d_%d" % (l, i, k) for k in range(2) for i in range(2*l+1)]


def gen(r):
    return {q: r.uniform(-1, 1) for l in range(6) for q in comps(l)}


def case(l):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(order=l, env=e)
    return f


def solid(l, m):
    """Real solid harmonic r^l P_l^|m| (cos or sin)(|m| phi) with the
    Condon-Shortley phase: {(i, j, k): rational}; and the rational part s of
    its normalization sqrt(s/pi)."""
    a = abs(m)
    # (x + i y)^a, real or imaginary part
    xy = {}
    for k in range(a+1):
        if (m >= 0) == (k % 2 == 0):
            xy[(a-k, k)] = comb(a, k)*(-1)**(k//2)
    # d^a/dz^a of r^(l) P_l(z/r): sum over k
    p = {}
    for k in range((l-a)//2 + 1):
        co = Fr((-1)**k*factorial(2*l-2*k), 2**l*factorial(k)*factorial(l-k)
                * factorial(l-2*k-a))
        e = l - 2*k - a
        for i, j in itertools.product(range(k+1), repeat=2):
            if i+j > k:
                continue
            mult = Fr(factorial(k), factorial(i)*factorial(j)
                      * factorial(k-i-j))
            q = (2*i, 2*j, e + 2*(k-i-j))
            p[q] = p.get(q, 0) + co*mult
    out = {}
    for (i, j), u in xy.items():
        for (pi, pj, pk), w in p.items():
            q = (i+pi, j+pj, pk)
            out[q] = out.get(q, 0) + u*w*(-1)**a
    s = Fr(2*l+1, 4)*Fr(factorial(l-a), factorial(l+a))*(2 if m else 1)
    return {q: v for q, v in out.items() if v}, s


def oracle(l):
    """Rows: a_m as rational combinations of the stored components, where
    the order-l term is sum_m a_m (solid harmonic m), and s_m."""
    ind = abstract.NAMES[l]
    basis = [solid(l, m) for m in range(-l, l+1)]
    # derivative tensor of each solid harmonic, in stored components
    col = []
    for p, s in basis:
        col.append([p.get(tuple(q.count(a) for a in "xyz"), Fr(0))
                    * factorial(q.count("x"))*factorial(q.count("y"))
                    * factorial(q.count("z")) for q in ind])
    n = 2*l+1
    # solve sum_m a_m col[m] = c for all c: invert
    M = [[col[j][i] for j in range(n)] + [Fr(i == k) for k in range(n)]
         for i in range(n)]
    for i in range(n):
        p = next(k for k in range(i, n) if M[k][i])
        M[i], M[p] = M[p], M[i]
        M[i] = [x/M[i][i] for x in M[i]]
        for k in range(n):
            if k != i and M[k][i]:
                M[k] = [x - M[k][i]*y for x, y in zip(M[k], M[i])]
    return [row[n:] for row in M], [s for p, s in basis]


def body(c):
    import numpy, npshim
    pkg = load.Pkg()

    def exact(old):
        # square roots of numbers stay exact
        def f(a, *r, **k):
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                return S.sqrt(S.lift(a))
            return old(a, *r, **k)
        return f
    pkg.np.sqrt, pkg.math.sqrt = exact(pkg.np.sqrt), exact(pkg.math.sqrt)
    u = pkg["utils"]
    c.encoded("utils.cartesian_to_spherical_harmonics")
    for l in range(6):
        n = 2*l+1
        for pts in (None, 2):
            a = numpy.empty((n,) if pts is None else (n, pts), object)
            for j in numpy.ndindex(*a.shape):
                a[j] = S.var("c%d_%d_%d" % ((l,) + (j + (0,))[:2]))
            a = npshim.oarr(a)
            rows, s = oracle(l)
            items = []
            for pc, d, exc in c.explore(
                    lambda: u.cartesian_to_spherical_harmonics(a)):
                tag = "order %d%s" % (l, "" if pts is None else " two points")
                ok = exc is None and tuple(d.shape) == a.shape
                c.fact("%s: shape (%r)" % (tag, exc), ok, case(l))
                if not ok:
                    continue
                for j in numpy.ndindex(*a.shape):
                    w = sum((S.const(x)*a[(i,) + j[1:]] for i, x in
                             enumerate(rows[j[0]])), S.ZERO)
                    # d sqrt(s/pi) = w, squared and by sign
                    items.append(("%s component %d %s squared" % (
                        tag, j[0]-l, j[1:]),
                        d[j]**2*S.const(s[j[0]]) - w**2*S.PI, pc, case(l),
                        gen))
                    nb = [S.bnot(S.cmp_("==", w, S.ZERO))]
                    # proportional with a positive factor: compare at a
                    # symbolic scale of one component
                    i = next(i for i, x in enumerate(rows[j[0]]) if x)
                    z = {a[(k,) + j[1:]]: S.ZERO for k in range(n) if k != i}
                    t = a[(i,) + j[1:]]
                    c.holds("%s component %d %s sign" % (tag, j[0]-l, j[1:]),
                            S.cmp_("<", S.ZERO, S.subst(d[j], z)
                                   * S.subst(w, z)),
                            pc + [S.bnot(S.cmp_("==", t, S.ZERO))],
                            case=case(l), gen=gen)
            c.zeros(items)


def replay(case):
    import numpy as np
    from electrode import utils as u
    l, e = case["order"], case["env"]
    rows, s = oracle(l)
    a = np.array([[e["c%d_%d_%d" % (l, i, k)] for k in range(2)]
                  for i in range(2*l+1)])
    w = np.dot(np.array(rows, float), a)/np.sqrt(
        np.array(s, float)/np.pi)[:, None]
    for x, y in ((a, w), (a[:, 1], w[:, 1])):
        d = u.cartesian_to_spherical_harmonics(x)
        if d.shape != y.shape:
            return "shape %s" % (d.shape,)
        if abs(d - y).max() > 1e-9*(1+abs(y).max()):
            i = abs(d-y).argmax()
            return "order %d: coefficients %s, expected %s" % (
                l, d.tolist(), y.tolist())
    return None


if __name__ == "__main__":
    harness.main("C14", __file__, body, replay,
                 bounds="derivative orders 0-5, any components, one set or "
                 "two in parallel", outside="",
                 fallback=lambda r: [case(n)(gen(r)) for n in range(6)])
