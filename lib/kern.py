"""Shared pieces of the kernel checks."""
import symx as S
from symx import var, const, ONE, ZERO
import npshim

# order of the reduced components (documented, observable output layout)
NAMES = [[""], "x y z".split(), "xx xy xz yy yz".split(),
         "xxy xxz yyz xyy xzz yzz xyz".split(),
         "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz".split(),
         "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz "
         "yyzzz".split()]

X, Y, Z = var("x"), var("y"), var("z")


def routes(n, name):
    """(lower component index, axis) pairs whose derivative is `name`."""
    r = []
    for k in range(3):
        c = "xyz"[k]
        if c in name:
            lo = name.replace(c, "", 1)
            if lo in NAMES[n]:
                r.append((NAMES[n].index(lo), k))
    return r


def xsym():
    return npshim.oarr([[X, Y, Z]])


def grad(es):
    """d/dx, d/dy, d/dz of a list of terms."""
    return [S.diff(list(es), {v: ONE}) for v in (X, Y, Z)]


def edge_syms():
    return [var(i) for i in ("ax", "ay", "bx", "by", "v")]


def edge_electrode(el, **kw):
    """One directed edge a -> b at voltage v (polygonal mesh with one edge)."""
    ax, ay, bx, by, v = edge_syms()
    return el.MeshPixelElectrode(
        points=npshim.oarr([[ax, ay], [bx, by]]), edges=[[0, 1]],
        polygons=[0], potentials=npshim.oarr([v]), **kw)


def origin(e):
    """Observation point over the origin (in-plane translation, see C05)."""
    return S.subst(e, {X: ZERO, Y: ZERO})


def edge_gen(r):
    d = {k: r.uniform(-1, 1) for k in
         ("x", "y", "ax", "ay", "bx", "by", "cx", "cy", "dx", "dy")}
    d.update(z=r.choice([-1, 1])*r.uniform(.3, 1), v=r.uniform(.5, 2))
    return d


def exact(e, n=4, gen=edge_gen):
    """Numerically zero at random points? (selects candidate identities; z3
    decides them)"""
    import random
    rng = random.Random(5)
    for _ in range(n):
        if abs(S.evalf(e, gen(rng))) > 1e-6:
            return False
    return True


def loop_term01(v, px, py):
    """Vertex term by which a single edge's order-1 entry and the gradient of
    its order-0 entry differ; it cancels around every closed path."""
    r = S.sqrt((X-px)**2 + (Y-py)**2 + Z**2)
    w = v/(2*S.PI)*Z/(abs(Z)*r*(r+abs(Z)))
    return -(Y-py)*w, (X-px)*w, ZERO


def order01(T0, T1):
    """Three terms that vanish iff order 1 is the gradient of order 0 around
    every closed path."""
    ax, ay, bx, by, v = edge_syms()
    g = grad(T0)
    fa, fb = loop_term01(v, ax, ay), loop_term01(v, bx, by)
    return [origin(g[k][0] - T1[k] - fb[k] + fa[k]) for k in range(3)]


OFF = [S.bnot(S.cmp_("==", Z, ZERO))]


def atan_args(e):
    """(p, q) of the single atan2(p, q) or atan(p/q) in e, and the
    coefficient in front of it."""
    at = [n for n in S.topo(e) if isinstance(n, S.E) and n.op == "f"
          and n.val in ("atan", "atan2")]
    if len(at) != 1:
        raise S.Unsupported("expected one arctangent")
    n = at[0]
    m = var("atan!")
    f = S.subst(e, {n: m})
    c = S.diff([f], {m: ONE})[0]
    if S.normalize(f - c*m) is not ZERO:
        raise S.Unsupported("not linear in the arctangent")
    if n.val == "atan2":
        return n.args[0], n.args[1], c
    u = n.args[0]
    if u.op == "/":
        return u.args[0], u.args[1], c
    return u, ONE, c


def as_atan(e):
    """atan2(p, q) written as atan(p/q) (valid for q > 0, proved apart)."""
    m = {}
    for n in S.topo(e):
        if isinstance(n, S.E) and n.op == "f" and n.val == "atan2":
            m[n] = S.fn("atan", S.subst(n.args[0], m)/S.subst(n.args[1], m))
    return S.subst(e, m) if m else e


def unify_atan(e, assume=(), gen=edge_gen):
    """Merge arctangents whose arguments are equal or opposite (candidates
    from evaluation at random points, each merge decided by z3)."""
    import random
    import prove
    rng = random.Random(11)
    ens = [gen(rng) for _ in range(3)]
    at = [n for n in S.topo(e) if isinstance(n, S.E) and n.op == "f"
          and n.val == "atan"]
    reps, m = [], {}
    for n in at:
        u = n.args[0]
        key = [S.evalf(u, en) for en in ens]
        for rk, rn in reps:
            for sg in (1, -1):
                if all(abs(a-sg*b) < 1e-9*(abs(a)+1e-30)
                       for a, b in zip(key, rk)) and prove.prove_zero(
                           u - sg*rn.args[0], assume)[0] == "unsat":
                    m[n] = sg*rn
                    break
            else:
                continue
            break
        else:
            reps.append((key, n))
    return S.lincollect(S.normalize(S.subst(e, m)))


# -- concrete side ---------------------------------------------------------
def fd(f, x, k, h=2e-3):
    """5-point central difference of f (vector valued) along axis k."""
    import numpy as np
    x = np.array(x, float)
    def at(t):
        y = x.copy()
        y[k] += t*h
        return np.array(f(y), float)
    return (at(-2) - 8*at(-1) + 8*at(1) - at(2))/(12*h)


def gradient_defect(pot, x, n, name=None, tol=2e-6):
    """First component of order n+1 that differs from the numerical gradient
    of order n along any route, or None."""
    import numpy as np
    lo = [fd(lambda p: pot(p, n), x, k) for k in range(3)]
    hi = np.array(pot(np.array(x, float), n+1))
    scale = max(1e-12, max(np.abs(l).max() for l in lo), np.abs(hi).max())
    for i, nm in enumerate(NAMES[n+1]):
        for j, k in routes(n, nm):
            if abs(lo[k][j] - hi[i]) > tol*scale:
                return "order %d component %s = %.9g, d/d%s of %s = %.9g at %s" \
                    % (n+1, nm, hi[i], "xyz"[k], NAMES[n][j] or "phi",
                       lo[k][j], list(map(float, x)))
    if n == 1:
        zz = lo[2][2]
        tr = hi[0] + hi[3] + zz
        if abs(tr) > tol*scale:
            return "trace %.9g of the second derivatives at %s" % (
                tr, list(map(float, x)))
    return None
