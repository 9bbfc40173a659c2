"""C11: the combined potential is the dc part plus the pseudopotential, for
every derivative order, point and choice of part."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
from harness import load, S
import abstract
from c10 import oracle

EL = ["e0", "e1", "e2"]
X = [[S.var(q+str(j)) for q in "xyz"] for j in range(2)]
VOLT = ["%s%d" % (k, i) for k in ("rf", "dc") for i in range(3)]


def gen(r):
    d = abstract.units(r, EL, 2)
    d.update({k: r.uniform(-2, 2) for k in VOLT})
    for k in VOLT:
        if r.random() < .2:
            d[k] = 0.
    d.update({q+str(j): r.uniform(-1, 1) for q in "xyz" for j in range(2)})
    d["k"] = r.uniform(.5, 2)
    return d


def case(n, typ="tot"):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(order=n, typ=typ, env=e)
    return f


def expected(get, n, j, k, typ):
    def lin(t, o):
        return abstract.full([sum((get("%s%d" % (t, m))*u for m, u in enumerate(
            get(("u", e, o, j, i)) for e in EL)), 0*k)
            for i in range(2*o+1)], o)
    dc = lin("dc", n)
    rf = dict(oracle([lin("rf", o) for o in range(n+2)], n, k**2)) \
        if typ != "dc" else None
    for ix in dc:
        yield ix, {"dc": lambda: dc[ix], "rf": lambda: rf[ix],
                   "tot": lambda: dc[ix] + rf[ix]}[typ]()


def body(c):
    import npshim
    pkg = load.Pkg()
    c.encoded("system.System.potential", "system.System.pseudo_potential",
              "system.System.electrical_potential", "utils.expand_tensor")
    A = abstract.electrode_class(pkg)
    v = S.var
    s = pkg["system"].System([A(name=e, dc=v("dc%d" % i), rf=v("rf%d" % i))
                              for i, e in enumerate(EL)])
    k = v("k")
    s.rf_coeff = k
    for x in X:
        abstract.point_id(x)

    def get(q):
        return v(q) if isinstance(q, str) else v(abstract.unit_name(*q[1:]))
    nz = [S.bnot(S.cmp_("==", v(q), S.ZERO)) for q in VOLT]
    for n in range(5 if harness.THOROUGH else 4):
        x = npshim.oarr(X)
        items = []
        for typ in ("tot", "dc", "rf"):
            want = [list(expected(get, n, j, k, typ)) for j in range(2)]

            def run():
                if typ == "tot":
                    return (s.potential(x, n), s.potential(x, n, "tot"),
                            s.potential(X[1], n))
                return (s.potential(x, n, typ), s.potential(x, n, typ=typ),
                        s.potential(X[1], n, typ))
            # low orders: every pattern of zero voltages
            for pc, r, exc in c.explore(run, nz if n > 1 else ()):
                c.fact("%s order %d: no exception (%s)" % (typ, n, exc),
                       exc is None, case(n, typ))
                if exc:
                    continue
                c.fact("%s order %d: shapes" % (typ, n), [
                    tuple(q.shape) for q in r] == [
                        (2,) + (3,)*n]*2 + [(1,) + (3,)*n], case(n, typ))
                for m, q in enumerate(r):
                    for j in range(len(q)):
                        for ix, w in want[1 if m == 2 else j]:
                            e = harness.under(pc, q[(j,)+ix] - w)
                            items.append(("%s order %d point %d %s" % (
                                typ, n, j, ix), e, pc, case(n, typ), gen))
        c.zeros(items)
        for bad in ("", "DC", "total", "rfdc", None):
            ok = []
            for pc, r, exc in c.explore(lambda: s.potential(x, n, bad), nz):
                ok.append(isinstance(exc, ValueError))
            c.fact("order %d: part %r is refused" % (n, bad), all(ok),
                   case(n, bad))


def replay(case):
    import numpy as np
    from electrode import System
    e, n, typ = case["env"], case["order"], case["typ"]
    T = abstract.table_electrode(e, 2)
    s = System([T(name=w, dc=e["dc%d" % i], rf=e["rf%d" % i])
                for i, w in enumerate(EL)])
    s.rf_coeff = e["k"]
    x = np.array([[e[q+str(j)] for q in "xyz"] for j in range(2)])
    if typ not in ("tot", "dc", "rf"):
        try:
            s.potential(x, n, typ)
        except ValueError:
            return None
        return "part %r is accepted" % typ

    def get(q):
        return e[q] if isinstance(q, str) else e[abstract.unit_name(*q[1:])]
    for r in [s.potential(x, n, typ)] + [s.potential(x, n)]*(typ == "tot"):
        for j in range(2):
            if r.shape != (2,) + (3,)*n:
                return "shape %s" % (r.shape,)
            for ix, w in expected(get, n, j, e["k"], typ):
                if not np.allclose(r[(j,)+ix], w, rtol=1e-9, atol=1e-8):
                    return "%s potential order %d point %d %s is %s, " \
                        "expected %s" % (typ, n, j, ix, r[(j,)+ix], w)
    return None


if __name__ == "__main__":
    harness.main("C11", __file__, body, replay,
                 bounds="three electrodes with arbitrary harmonic potentials,"
                 " any dc and rf voltages and coefficient, two points; "
                 "orders 0-3 (thorough 4); parts tot, dc, rf and five "
                 "invalid ones; zero voltages in every pattern up to order 1",
                 outside="what the electrodes return (C01-C07)",
                 fallback=lambda r: [case(n, t)(gen(r)) for n in range(5)
                                     for t in ("tot", "dc", "rf", "x")])
