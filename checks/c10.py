"""C10: the pseudopotential is |coefficient times rf field|^2 and its
derivatives up to fourth order."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

EL = ["e0", "e1"]
X = [S.var(q) for q in "xyz"]
PAR = ["m", "q", "l", "o"]


def gen(r):
    d = abstract.units(r, EL)
    d.update({k: r.uniform(-2, 2) for k in ("rf0", "rf1", "dc0", "dc1",
                                            "x", "y", "z")})
    d.update({k: r.uniform(.3, 2) for k in PAR})
    return d


def case(n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(order=n, env=e)
    return f


def oracle(F, n, c2):
    """Leibniz rule on c2 sum_i phi_i phi_i; F[k] = full tensor order k."""
    for ix in itertools.product(range(3), repeat=n):
        t = []
        for mask in range(2**n):
            a = tuple(q for b, q in enumerate(ix) if mask >> b & 1)
            b = tuple(q for b, q in enumerate(ix) if not mask >> b & 1)
            for i in range(3):
                t.append(F[len(a)+1][(i,)+a]*F[len(b)+1][(i,)+b])
        yield ix, c2*sum(t[1:], t[0])


def body(c):
    import npshim
    pkg = load.Pkg()
    c.encoded("system.System.pseudo_potential", "system.System.rf_scale",
              "system.System.electrical_potential", "utils.expand_tensor")
    A = abstract.electrode_class(pkg)
    v = S.var
    s = pkg["system"].System([A(name=e, dc=v("dc%d" % i), rf=v("rf%d" % i))
                              for i, e in enumerate(EL)])
    m, q, l, o = map(v, PAR)
    pos = [S.cmp_("<", S.ZERO, w) for w in (m, q, l, o)]
    nz = [S.bnot(S.cmp_("==", v(w), S.ZERO)) for w in ("rf0", "rf1")]
    for pc, got, exc in c.explore(lambda: s.rf_scale(m, q, l, o), pos):
        c.fact("coefficient: no exception (%s)" % exc, exc is None, case(0))
        c.zero("the coefficient returned is the one used", got - s.rf_coeff,
               pc, case=case(0), gen=gen)
        c.zero("the coefficient is sqrt(q/m)/(2 l Omega)",
               got**2*(4*m*l**2*o**2) - q, pc, case=case(0), gen=gen)
        c.holds("the coefficient is positive", S.cmp_("<", S.ZERO, got), pc,
                case=case(0), gen=gen)
    k = v("k")
    s.rf_coeff = k
    u = {e: [abstract.unit(e, X, n) for n in range(6)] for e in EL}
    F = [abstract.full([v("rf0")*a + v("rf1")*b for a, b in
                        zip(u["e0"][n], u["e1"][n])], n) for n in range(6)]
    for n in range(5):
        x = npshim.oarr([X])
        items = []
        for pc, r, exc in c.explore(lambda: s.pseudo_potential(x, n), nz):
            c.fact("order %d: no exception (%s)" % (n, exc), exc is None,
                   case(n))
            c.fact("order %d: shape" % n, exc is None and
                   tuple(r.shape) == (1,) + (3,)*n, case(n))
            for ix, w in oracle(F, n, k**2):
                items.append(("order %d %s" % (n, ix),
                              r[(0,)+ix] - w, pc, case(n), gen))
        c.zeros(items)


def replay(case):
    import numpy as np
    from electrode import System
    e, n = case["env"], case["order"]
    if min(abs(e[w]) for w in PAR) < 1e-3 or min(e[w] for w in PAR) < 0:
        return None
    T = abstract.table_electrode(e)
    s = System([T(name=w, dc=e["dc%d" % i], rf=e["rf%d" % i])
                for i, w in enumerate(EL)])
    k = s.rf_scale(e["m"], e["q"], e["l"], e["o"])
    w = np.sqrt(e["q"]/e["m"])/(2*e["l"]*e["o"])
    if not np.allclose(k, w) or not np.allclose(s.rf_coeff, w):
        return "rf coefficient %s, expected %s" % (k, w)
    F = [abstract.full([e["rf0"]*e[abstract.unit_name("e0", j, 0, i)]
                        + e["rf1"]*e[abstract.unit_name("e1", j, 0, i)]
                        for i in range(2*j+1)], j) for j in range(6)]
    r = s.pseudo_potential(np.array([[e["x"], e["y"], e["z"]]]), n)[0]
    if r.shape != (3,)*n:
        return "shape %s" % (r.shape,)
    for ix, w in oracle(F, n, s.rf_coeff**2):
        if not np.allclose(r[ix], w, rtol=1e-9,
                           atol=1e-9*(1+s.rf_coeff**2)):
            return "pseudopotential order %d %s is %s, derivative of the " \
                "squared field %s" % (n, ix, r[ix], w)
    return None


if __name__ == "__main__":
    harness.main("C10", __file__, body, replay,
                 bounds="two electrodes with arbitrary harmonic potentials "
                 "(every component of orders 1-5 a free variable), any rf "
                 "and dc voltages, one point; derivative orders 0-4",
                 outside="what the electrodes return (C01-C07)",
                 fallback=lambda r: [case(n)(gen(r)) for n in range(5)])
