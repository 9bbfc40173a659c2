"""C18: the searches for minima and saddle points work on the potential: the
value, gradient and curvature handed to the optimizer belong together, for
any coordinate system and any set of varied axes, and the point returned is
the optimizer's."""
import types
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

DEG = dict(d=3, r=2)
AXES = [(0, 1, 2), (1, 2), (2, 0), (1,), [2]]
STARTS = ["array", "list", "int", "intarray", "zero"]
SKIP = object()


def gen(r):
    d = {q: r.uniform(-1, 1) for e, n in DEG.items()
         for q in abstract.poly_names(e, n)}
    d.update({"o%d%d" % (i, j): r.uniform(-1, 1) for i in range(3)
              for j in range(3)})
    d.update({"%s%d" % (q, i): r.uniform(-1, 1) for q in "stuvw"
              for i in range(3)})
    d.update(dc=r.uniform(.5, 1), rf=r.uniform(.5, 1), k=r.uniform(.5, 1))
    d.update(ok=True)
    return d


def case(what, axis, start, rot):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(what=what, axis=list(axis), start=start, rot=rot, env=e)
    return f


def start(get, kind, arr):
    if kind == "int":
        return [1, 0, 2]
    if kind == "intarray":
        import numpy
        return numpy.array([1, 0, 2])
    if kind == "zero":
        return (0., 0., 1.)
    x = [get("s%d" % i) for i in range(3)]
    return arr(x) if kind == "array" else x


class Recorder(object):
    """Stands for the optimizer: asks for values, gradients and curvatures
    at different points in turn and reports an end point."""

    def __init__(self, get, n, arr, ok):
        self.pts = [arr([get("%s%d" % (q, i)) for i in range(n)])
                    for q in "tuvw"]
        self.ok = ok
        self.n = n
        self.arr = arr

    def minimize(self, fun=None, x0=None, args=(), jac=None, hess=None,
                 **kw):
        t, u, v, w = self.pts
        self.x0, self.kw = list(x0), kw
        self.f = [fun(t)]
        if callable(jac):
            self.g = [list(jac(u))]
            self.f.append(fun(u))
            self.g.append(list(jac(t)))
        if callable(hess):
            self.h = [[list(q) for q in hess(v)]]
        self.f.append(fun(v))
        self.f.append(fun(t))
        self.at = "tuvt"
        self.gat = "ut"
        self.hat = "v"
        r = types.SimpleNamespace(x=w, success=self.ok, message="m",
                                  status=0)
        return r

    def rfo(self, fun, grad, x0, args=(), h=None, **kw):
        t, u, v, w = self.pts
        self.x0, self.kw = list(x0), kw
        self.f = [fun(t)]
        self.g = [list(grad(u))]
        self.h = [[list(q) for q in h]]
        self.f += [fun(u)]
        self.g += [list(grad(t))]
        # the last evaluations are at the point returned (C19)
        self.f += [fun(w)]
        self.g += [list(grad(w))]
        self.at, self.gat, self.hat = "tuw", "utw", "s"
        return w, self.f[-1], self.ret


def run(s, what, axis, st, coord, rec, set_rfo):
    kw = {} if coord is None else dict(coord=coord)
    if what == "minimum":
        return s.minimum(st, axis=axis, method=rec.method,
                         options=dict(a=7), **kw)
    set_rfo(rec.rfo)
    return s.saddle(st, axis=axis, maxiter=33, **kw)


def local(get, axis, start_, q):
    """The full trial point in the rotated system."""
    x = list(start_)
    for k, a in enumerate(axis):
        x[a] = get("%s%d" % (q, k)) if q != "s" else x[a]
    return x


def body(c):
    import numpy, npshim
    cell = {}
    fake = types.ModuleType("scipy.optimize")
    import scipy, scipy.optimize as so
    fake.__dict__.update({k: v for k, v in so.__dict__.items()
                          if not k.startswith("__")})

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, **kw):
        cell["method"] = method
        return cell["rec"].minimize(fun=fun, x0=x0, jac=jac, hess=hess, **kw)
    fake.minimize = minimize
    sc = types.ModuleType("scipy")
    sc.__dict__.update(scipy.__dict__)
    sc.optimize = fake
    sad = types.ModuleType("electrode.saddle")
    sad.rfo = lambda *a, **k: cell["rfo"](*a, **k)
    pkg = load.Pkg(overrides={"scipy.optimize": fake, "saddle": sad,
                              "scipy": sc})
    c.encoded("system.System.minimum", "system.System.saddle",
              "system.System.potential", "system.System.pseudo_potential",
              "system.System.electrical_potential", "utils.rotate_tensor",
              "utils.expand_tensor")
    v = S.var
    Base = pkg["electrode"].Electrode
    sysm = pkg["system"].System
    zeros = pkg.np.zeros
    els = [abstract.poly_class(Base, v, DEG[e], zeros)(
        name=e, dc=v("dc") if e == "d" else 0,
        rf=v("rf") if e == "r" else 0) for e in "dr"]
    s = sysm(els)
    s.rf_coeff = v("k")
    nz = [S.bnot(S.cmp_("==", v(q), S.ZERO)) for q in ("dc", "rf")]
    rot = npshim.oarr([[v("o%d%d" % (i, j)) for j in range(3)]
                       for i in range(3)])
    X = [v(q) for q in "xyz"]

    def V(p):
        """Reference: dc part plus squared rf field."""
        d = abstract.poly_comps(v, "d", DEG["d"], p, 0)[0]
        g = abstract.poly_comps(v, "r", DEG["r"], p, 1)
        return v("dc")*d + (v("k")*v("rf"))**2*sum(
            (q*q for q in g[1:]), g[0]*g[0])
    plan = [("minimum", a, st, r) for a, st, r in [
        (AXES[0], "array", True), (AXES[1], "int", True),
        (AXES[2], "list", True), (AXES[3], "zero", True),
        (AXES[4], "intarray", True), (AXES[0], "int", False),
        (AXES[1], "array", False)]]
    plan += [("saddle",) + p[1:] for p in plan]
    for what, axis, st, rt in plan:
        tag = "%s axes %s start %s%s" % (what, list(axis), st,
                                         " rotated" if rt else "")
        ca = case(what, axis, st, rt)
        x0 = start(v, st, npshim.oarr)
        keep = list(x0)

        def go():
            ok = bool(S.bvar("ok"))
            rec = Recorder(v, len(axis), npshim.oarr, ok)
            rec.method = "m"
            rec.ret = "xtol" if ok else "iter"
            cell["rec"] = rec
            r = run(s, what, axis, x0, rot if rt else None, rec,
                    lambda f: cell.update(rfo=f))
            return rec, r, ok
        items = []
        pt = [S.need(q) for q in keep]

        def value(q):
            loc = local(v, axis, pt, q)
            R = [[v("o%d%d" % (i, j)) if rt else S.const(int(i == j))
                  for j in range(3)] for i in range(3)]
            return V([R[i][0]*loc[0] + R[i][1]*loc[1] + R[i][2]*loc[2]
                      for i in range(3)])

        def d(e, q, k):
            if q == "s":
                # curvature at the start: vary it there
                e1 = value_s
                return S.subst(S.diff([e1 if e is None else e],
                                      {sv[k]: S.ONE})[0],
                               dict(zip(sv, (pt[a] for a in axis))))
            return S.diff([e], {v("%s%d" % (q, k)): S.ONE})[0]
        seen_ok = seen_bad = 0
        for pc, r, exc in c.explore(go, nz):
            good = any(q is S.bvar("ok") for q in pc)
            if not good:
                c.fact("%s: failure is reported" % tag,
                       isinstance(exc, ValueError), fail(ca))
                seen_bad += 1
                continue
            seen_ok += 1
            c.fact("%s: no exception (%r)" % (tag, exc), exc is None, ca)
            if exc:
                continue
            rec, r, ok = r
            n = len(axis)
            c.fact("%s: start is not changed" % tag, all(
                a is b or (not isinstance(a, S.E) and a == b)
                for a, b in zip(x0, keep)), ca)
            xr = r if what == "minimum" else r[0]
            c.fact("%s: start point of the search" % tag, len(rec.x0) == n,
                   ca)
            c.fact("%s: a point is returned" % tag, len(xr) == 3, ca)
            for k, a in enumerate(axis):
                items.append(("%s: start of axis %d" % (tag, a),
                              S.need(rec.x0[k]) - pt[a], pc, ca, gen))
            w = local(v, axis, pt, "w")
            for a in range(3):
                items.append(("%s: returned coordinate %d" % (tag, a),
                              S.need(xr[a]) - w[a], pc, ca, gen))
            if what == "minimum":
                c.fact("%s: options are passed on" % tag,
                       cell["method"] == "m" and
                       rec.kw.get("options") == dict(a=7), ca)
            else:
                c.fact("%s: options are passed on" % tag,
                       rec.kw.get("maxiter") == 33, ca)
                items.append(("%s: returned value" % tag,
                              S.need(r[1]) - value("w"), pc, ca, gen))
            for f, q in zip(rec.f, rec.at):
                items.append(("%s: value at %s" % (tag, q),
                              S.need(f) - value(q), pc, ca, gen))
            for g, q in zip(rec.g, rec.gat):
                for k in range(n):
                    items.append(("%s: gradient %d at %s" % (tag, k, q),
                                  S.need(g[k]) - d(value(q), q, k), pc, ca,
                                  gen))
            for h, q in zip(rec.h, rec.hat):
                if q == "s":
                    # curvature at the start point
                    R = "z"
                    zz = [v("%s%d" % (R, k)) for k in range(n)]
                    val = value(R)
                    at = dict(zip(zz, (pt[a] for a in axis)))
                else:
                    R, val, at = q, value(q), {}
                for k in range(n):
                    for l in range(n):
                        e = S.diff(S.diff([val], {
                            v("%s%d" % (R, k)): S.ONE}), {
                            v("%s%d" % (R, l)): S.ONE})[0]
                        items.append((
                            "%s: curvature %d%d at %s" % (tag, k, l, q),
                            S.need(h[k][l]) - (S.subst(e, at) if at else e),
                            pc, ca, gen))
        c.fact("%s: both ends explored" % tag, seen_ok and seen_bad)
        c.zeros(items)


def fail(ca):
    def f(en):
        return ca(dict(en, ok=False))
    return f


def replay(case):
    import numpy as np
    import electrode.system as es
    from electrode import System
    from electrode.electrode import Electrode
    e = case["env"]
    what, axis, rt = case["what"], case["axis"], case["rot"]
    s = System([abstract.poly_class(Electrode, e.get, DEG[q], np.zeros)(
        name=q, dc=e["dc"] if q == "d" else 0, rf=e["rf"] if q == "r" else 0)
        for q in "dr"])
    s.rf_coeff = e["k"]
    x0 = start(e.get, case["start"], np.array)
    pt = list(map(float, x0))
    n = len(axis)
    rec = Recorder(e.get, n, np.array, bool(e.get("ok", True)))
    rec.ret = "ftol" if rec.ok else "iter"
    got = {}

    def method(fun, x0, args=(), **kw):
        got["a"] = kw.pop("a", None)
        return rec.minimize(fun=fun, x0=x0, **kw)
    rec.method = method
    R = np.array([[e["o%d%d" % (i, j)] for j in range(3)]
                  for i in range(3)]) if rt else np.eye(3)
    old = es.rfo
    try:
        r = run(s, what, axis, x0, R if rt else None, rec,
                lambda f: setattr(es, "rfo", f))
    except ValueError as ex:
        return None if not rec.ok else "raised %r" % ex
    finally:
        es.rfo = old
    if not rec.ok:
        return "failure of the search is not reported"

    def full(q):
        return np.dot(R, local(e.get, axis, pt, q))

    def V(x, k):
        T = [np.array(abstract.poly_comps(e.get, "d", 3, list(x), m))
             for m in range(3)]
        d = {0: T[0][0], 1: T[1]}.get(k)
        if k == 2:
            d = np.zeros((3, 3))
            for ix, w in abstract.full(T[2], 2).items():
                d[ix] = w
        g = np.array(abstract.poly_comps(e.get, "r", 2, list(x), 1))
        H = np.zeros((3, 3))
        for ix, w in abstract.full(np.array(abstract.poly_comps(
                e.get, "r", 2, list(x), 2)), 2).items():
            H[ix] = w
        c = (e["k"]*e["rf"])**2
        return e["dc"]*d + c*(np.dot(g, g), 2*np.dot(H, g),
                              2*np.dot(H, H))[k]
    if list(map(float, x0)) != pt:
        return "the start point was changed"
    close = lambda a, b: np.allclose(a, b, rtol=1e-8, atol=1e-9)
    if not close(rec.x0, [pt[a] for a in axis]):
        return "search started at %s, not %s" % (rec.x0, [
            pt[a] for a in axis])
    for f, q in zip(rec.f, rec.at):
        if not close(f, V(full(q), 0)):
            return "value %s at %s, potential is %s" % (
                f, full(q), V(full(q), 0))
    for g, q in zip(rec.g, rec.gat):
        w = np.dot(V(full(q), 1), R)[axis]
        if not close(g, w):
            return "gradient %s at %s, expected %s" % (g, full(q), w)
    for h, q in zip(rec.h, rec.hat):
        w = np.dot(R.T, np.dot(V(full(q), 2), R))[axis][:, axis]
        if not close(h, w):
            return "curvature %s at %s, expected %s" % (h, full(q), w)
    xr = r if what == "minimum" else r[0]
    if not close(xr, local(e.get, axis, pt, "w")):
        return "returned %s, the optimizer ended at %s" % (
            xr, local(e.get, axis, pt, "w"))
    if what == "saddle" and not close(r[1], V(full("w"), 0)):
        return "returned value %s, potential there is %s" % (
            r[1], V(full("w"), 0))
    if what == "minimum" and got["a"] != 7 or what == "saddle" and \
            rec.kw.get("maxiter") != 33:
        return "options are not passed on"
    return None


def fb(r):
    out = []
    for what in ("minimum", "saddle"):
        for axis in AXES:
            for st in STARTS:
                g = gen(r)
                g["ok"] = r.random() < .8
                out.append(case(what, axis, st, r.random() < .7)(g))
    return out


if __name__ == "__main__":
    harness.main("C18", __file__, body, replay,
                 bounds="any harmonic dc potential up to third degree and rf "
                 "potential up to second degree, any coordinate matrix, five "
                 "sets of varied axes, any trial points in changing order, "
                 "float and integer start points; the optimizer is replaced "
                 "by a recorder that succeeds or fails",
                 outside="convergence of the optimizer",
                 fallback=fb)
