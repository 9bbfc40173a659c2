"""C31: Adjust: the proposed voltage changes move the minimum by the distance
asked for along the eigen-axis asked for, and whatever is proposed, accepted
and declined, voltages, minima and curvatures are those of the last accepted
step."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

ELS = ["a", "b", "c", "e", "r"]
CONF = [["a"], ["b", "c"], ["e"]]
ORDERS = list(itertools.permutations(range(3)))
STEPS = 4
# histories: propose force/position, accept, decline, own changes accepted,
# own changes tried and declined, accept without proposal, some voltages set
# and saved (s, u: different electrodes)
HIST = ["pa", "pd", "o", "t", "pdpa", "papa", "papd", "od", "opa", "pdo",
        "tpa", "pdd", "Pa", "Pdpa", "ppa", "x", "pax", "pdx",
        "su", "sspa", "usd"]


def hist():
    if harness.THOROUGH:
        return HIST + ["".join(q) for q in itertools.product(
            ["pa", "pd", "o", "t"], repeat=3)]
    return HIST


def gen(r):
    d = abstract.units(r, ELS, points=8, orders=3)
    for e in ELS:
        for k in "dh":
            d[k + e] = r.uniform(-1, 1)
    d.update(rf=r.uniform(.3, 1), k=r.uniform(.3, 1), l=r.uniform(.5, 2),
             s=r.uniform(.5, 2)*r.choice([-1, 1]))
    for i in range(3):
        d["x%d" % i] = r.uniform(-1, 1)
        d["y%d" % i] = r.uniform(-1, 1)
        for j in range(3):
            d["v%d%d" % (i, j)] = r.uniform(-1, 1)
        for n in range(STEPS + 2):
            d["e%d_%d" % (n, i)] = r.uniform(.1, 2)
            d["m%d_%d" % (n, i)] = r.uniform(-1, 1)
            d["o%d_%d" % (n, i)] = r.uniform(-1, 1)
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


class Book(object):
    """What a run produced: equations and facts."""

    def __init__(self):
        self.eqs, self.les, self.facts = [], [], []

    def eq(self, tag, a, b):
        self.eqs.append((tag, a, b))

    def vec(self, tag, a, b):
        a, b = list(a), list(b)
        self.fact("%s: length" % tag, len(a) == len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            self.eq("%s %d" % (tag, i), p, q)

    def le(self, tag, a, b):
        self.les.append((tag, a, b))

    def fact(self, tag, ok):
        self.facts.append((tag, bool(ok)))


def world(get, arr, mods, El):
    """A system with known minima and modes that records its voltages."""
    system, adjust = mods

    class Sys(system.System):
        count = 0
        calls = []
        given = None

        def minimum(self, x0, *a, **k):
            n = self.count
            self.count = n + 1
            self.calls.append([e.dc for e in self])
            return arr([get("m%d_%d" % (n, i)) for i in range(3)])

        def modes(self, x, *a, **k):
            self.calls.append([e.dc for e in self])
            n = self.count
            ev = arr([get("e%d_%d" % (n, i)) for i in range(3)])
            if self.given:
                V = arr([[get("v%d%d" % (i, j)) for j in range(3)]
                         for i in range(3)])
            else:
                V = arr([[[.25, -.5, .75], [1., 2., -1.], [3., .5, 4.]],
                         [[-.5, .25, .125], [2., 1., 5.], [.5, 3., 2.]]][
                             n % 2])
            return ev, V
    s = Sys([El(name=q, dc=get("d"+q)) for q in ELS])
    s.calls = []
    s.rf_coeff = get("k")
    s["r"].rf = get("rf")
    return s, adjust.Adjust(s)


def run_init(get, arr, mods, El, given, order, form):
    b = Book()
    s, a = world(get, arr, mods, El)
    s.given = True
    xm = [get("x%d" % i) for i in range(3)] if given else None
    if given and form == "array":
        xm = arr(xm)
    kw = {} if order is None else dict(axis_order=list(order))
    r = a.set_move_init(CONF, xm, **kw) if xm is not None else \
        a.set_move_init(CONF, **kw)
    want = [get("x%d" % i) for i in range(3)] if given else [
        get("m0_%d" % i) for i in range(3)]
    b.vec("minimum", a.xms[-1], want)
    b.vec("returned minimum", r[0], want)
    b.fact("one minimum and curvature", len(a.xms) == len(a.curves) == 1)
    b.fact("configuration", a.E_config == CONF)
    b.fact("labels", [q[0] for q in r[1]] == "axial radial1 radial2".split())
    n = s.count
    ev = [get("e%d_%d" % (n, i)) for i in range(3)]
    V = [[get("v%d%d" % (i, j)) for i in range(3)] for j in range(3)]
    used = []
    for k in range(3):
        row = list(a.basis[k])
        b.vec("label %d" % k, list(r[1][k][1]), row)
        if order is not None:
            j = order[k]
        else:
            js = [j for j in range(3) if all(
                p is q or (isinstance(p, float) and p == q)
                for p, q in zip(map(plain, row), map(plain, V[j])))]
            b.fact("axis %d is a mode" % k, js)
            if not js:
                continue
            j = js[0]
        used.append(j)
        b.vec("axis %d" % k, row, V[j])
        b.eq("curvature %d" % k, a.curves[0][k], ev[j])
    b.fact("every mode once", sorted(used) == [0, 1, 2])
    if order is None:
        for k in (0, 1):
            b.le("order %d" % k, a.basis[k+1][0], a.basis[k][0])
    return b


def plain(q):
    """For identity comparisons."""
    r = S.lift(q)
    return r if r is not None and r.op != "c" else float(q)


def run_volts(get, arr, mods, El, axis, method, same, unit):
    b = Book()
    s, a = world(get, arr, mods, El)
    x = [get("x%d" % i) for i in range(3)]
    a.E_config = [list(q) for q in CONF]
    a.basis = arr([[get("v%d%d" % (i, j)) for j in range(3)]
                   for i in range(3)])
    a.curves = [arr([get("e%d_%d" % (n, i)) for i in range(3)])
                for n in (0, 1)]
    a.xms = [arr([get("y%d" % i) for i in range(3)]), arr(x)]
    l, dis = get("l"), get("s")
    kw = dict(axis=axis, l=l, dis=dis)
    if method != "force":
        kw["method"] = method
    if same:
        kw["same_scale"] = True
    dv = a.volt_change(**kw)
    b.fact("three changes", len(dv) == 3)
    e = [get("v%d%d" % (axis, j)) for j in range(3)]
    xe = x if method == "force" else [p + dis/l*q for p, q in zip(x, e)]
    g = {q: unit(q, xe, 1) for q in ELS}
    add = [sum((g[el][i]*dv[k] for k in range(3) for el in CONF[k]), 0*l)
           for i in range(3)]
    if method == "force":
        cu = get("e%d_%d" % (0 if same else 1, axis))
        for i in range(3):
            b.eq("gradient %d" % i, add[i], -cu*dis/l*e[i])
    else:
        # the total potential is stationary at the new place
        h = abstract.full(unit("r", xe, 2), 2)
        k, rf = get("k"), get("rf")
        for i in range(3):
            t = sum((g[q][i]*get("d"+q) for q in ELS), 0*l)
            t = t + 2*k*k*rf*rf*sum((g["r"][j]*h[j, i] for j in range(3)),
                                    0*l)
            b.eq("gradient %d" % i, add[i] + t, 0*l)
    for q in ELS:
        b.eq("voltage %s untouched" % q, s[q].dc, get("d"+q))
    return b


def run_history(get, arr, mods, El, h):
    import warnings
    b = Book()
    s, a = world(get, arr, mods, El)
    last = {q: get("h"+q) for q in ELS}
    a.set_volts(dict(last), save=True)
    b.vec("initial voltages", [s[q].dc for q in ELS],
          [last[q] for q in ELS])
    x = [get("x%d" % i) for i in range(3)]
    a.set_move_init([list(q) for q in CONF], arr(x), axis_order=[2, 0, 1])
    first = list(a.curves[0])
    basis = [list(q) for q in a.basis]
    xs, cs = [x], [first]
    n = 1
    pend = None
    known = {q: 1 for q in ELS}

    def moved(dv):
        w = dict(last)
        for q, d in zip(CONF, dv):
            for el in q:
                w[el] = last[el] + d
        return w

    def tried(tag, dv, nm):
        """Voltages are applied and the minimum is searched with them."""
        w = moved(dv)
        b.vec(tag + ": applied", [s[q].dc for q in ELS],
              [w[q] for q in ELS])
        for k, c in enumerate(s.calls[-2:]):
            b.vec("%s: voltages in use %d" % (tag, k), c,
                  [w[q] for q in ELS])
        return [get("m%d_%d" % (nm, i)) for i in range(3)]

    def sortmodes(nm):
        """Modes after search number nm, first component descending."""
        V = [[[.25, -.5, .75], [1., 2., -1.], [3., .5, 4.]],
             [[-.5, .25, .125], [2., 1., 5.], [.5, 3., 2.]]][(nm + 1) % 2]
        o = sorted(range(3), key=lambda j: -V[0][j])
        return [get("e%d_%d" % (nm + 1, j)) for j in o], [
            [V[i][j] for i in range(3)] for j in o]

    for i, op in enumerate(h):
        tag = "%s step %d" % (h, i)
        nm = s.count
        if op in "pP":
            kw = dict(axis=2) if op == "P" else {}
            r = a.propose_move(l=get("l"), dis=get("s"), **kw)
            dv, (xn, off), fc, vc = r
            dv = list(dv)
            w = tried(tag, dv, nm)
            ev, V = sortmodes(nm)
            b.vec(tag + ": new minimum", xn, w)
            b.vec(tag + ": offset", [p + q for p, q in zip(off, xs[-1])], w)
            for k in range(3):
                # f + sqrt(first) = sqrt(new)
                f = fc[k] + first[k]**.5
                b.eq("%s: frequency %d" % (tag, k), f*f, ev[k])
                b.vec("%s: vectors %d" % (tag, k), vc[k],
                      [p - q for p, q in zip(V[k], basis[k])])
            pend = dv, w, ev
        elif op in "ot":
            dv = [get("o%d_%d" % (i, k)) for k in range(3)]
            if op == "o":
                a.next_step(deltaV=arr(dv))
                ev, V = sortmodes(nm)
                last = moved(dv)
                for q in ELS:
                    known[q] += 1
                xs.append([get("m%d_%d" % (nm, k)) for k in range(3)])
                cs.append(ev)
                pend = None
            else:
                a.xm_freq_change(arr(dv))
                tried(tag, dv, nm)
                a.next_step(accept=False, deltaV=arr(dv))
                pend = None
        elif op in "su":
            for k, q in enumerate("ar" if op == "s" else "b"):
                last[q] = get("o%d_%d" % (i, k)) + last[q]
            a.set_volts({q: last[q] for q in ("ar" if op == "s" else "b")},
                        save=True)
            for q in ELS:
                known[q] += 1
            pend = None
        elif op == "x" or pend is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    a.next_step()
                    b.fact(tag + ": nothing proposed", False)
                except AttributeError:
                    b.fact(tag + ": nothing proposed", True)
        elif op == "a":
            a.next_step()
            last = moved(pend[0])
            for q in ELS:
                known[q] += 1
            xs.append(pend[1])
            cs.append(pend[2])
            pend = None
        elif op == "d":
            a.next_step(accept=False)
            pend = None
        if pend is None:
            b.vec(tag + ": voltages", [s[q].dc for q in ELS],
                  [last[q] for q in ELS])
        for q in ELS:
            b.fact("%s: saved voltages of %s" % (tag, q),
                   len(a.volts[q]) == known[q])
            if a.volts[q]:
                b.eq("%s: last voltage of %s" % (tag, q), a.volts[q][-1],
                     last[q])
        b.fact(tag + ": books", len(a.xms) == len(xs) and
               len(a.curves) == len(cs))
        b.vec(tag + ": last minimum", a.xms[-1], xs[-1])
        b.vec(tag + ": last curvature", a.curves[-1], cs[-1])
    return b


def body(c):
    import npshim, numpy, types
    m = types.ModuleType("scipy.linalg")
    m.solve = lambda a, b, **k: pkg.np.linalg.solve(
        npshim.oarr(a), npshim.oarr(b))
    pkg = load.Pkg(overrides={"scipy.linalg": m})
    b_ = pkg.builtins
    b_.print = lambda *a, **k: None
    El = abstract.electrode_class(pkg)
    mods = pkg["system"], pkg["adjust"]
    c.encoded(*["adjust.Adjust." + q for q in (
        "__init__", "set_move_init", "construct_config", "set_volts",
        "volt_change", "xm_freq_change", "propose_move", "next_step")])
    v, arr = S.var, npshim.oarr
    lift = lambda q: S.need(S.lift(q))
    # points in a fixed order for the replay
    x = [v("x%d" % i) for i in range(3)]
    pts = [x] + [[p + v("s")/v("l")*v("v%d%d" % (a, i))
                  for i, p in enumerate(x)] for a in range(3)]
    for p in pts:
        abstract.point_id(p)
    pos = [S.cmp_("<", S.ZERO, v(q)) for q in ("l", "k")]
    pos += [S.cmp_("<", S.ZERO, v("e%d_%d" % (n, i)))
            for n in range(STEPS + 2) for i in range(3)]
    zs, hs = [], []

    def go(tag, ca, f, *a, **k):
        assume = k.pop("assume", pos)
        for pc, r, exc in c.explore(lambda: f(v, arr, mods, El, *a, **k),
                                    assume):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            for t, ok in r.facts:
                c.fact("%s: %s" % (tag, t), ok, ca)
            for t, p, q in r.eqs:
                zs.append(("%s: %s" % (tag, t), lift(p) - lift(q), pc, ca,
                           gen))
            for t, p, q in r.les:
                hs.append(("%s: %s" % (tag, t), S.cmp_(
                    "<=", lift(p), lift(q)), pc, ca, gen))

    for given, order, form in [(1, None, "array"), (0, None, "array"),
                               (1, None, "list")] + [
            (1, o, "array") for o in ORDERS]:
        go("init %s %s %s" % (given, order, form),
           case("init", given=given, order=order, form=form), run_init,
           given, order, form)
    # the electrodes' fields must be independent
    for axis in range(3):
        for method in ("force", "position"):
            for same in ((False, True) if method == "force" else (False,)):
                xe = pts[0] if method == "force" else pts[1 + axis]
                M = [[sum((abstract.unit(e, xe, 1)[i] for e in q), S.ZERO)
                      for q in CONF] for i in range(3)]
                d = npshim._det(M)
                go("change %s %d %s" % (method, axis, same),
                   case("volts", axis=axis, method=method, same=same),
                   run_volts, axis, method, same, abstract.unit,
                   assume=pos + [S.bnot(S.cmp_("==", d, S.ZERO))])
    for h in hist():
        go("history", case("history", h=h), run_history, h)
    c.zeros(zs)
    c.holds_all(hs)


def replay(case):
    import numpy as np
    import builtins
    import electrode.system as sy, electrode.adjust as ad
    import electrode.electrode as el
    e, what = case["env"], case["what"]
    if not (e["l"] > 1e-3 and e["k"] > 0 and all(
            e["e%d_%d" % (n, i)] > 0 for n in range(STEPS+2)
            for i in range(3))):
        return None
    get = e.__getitem__
    arr = lambda q: np.array(q, float)
    x = [e["x%d" % i] for i in range(3)]
    pts = [x] + [[p + e["s"]/e["l"]*e["v%d%d" % (a, i)]
                  for i, p in enumerate(x)] for a in range(3)]

    def which(row):
        d = [max(abs(p-q) for p, q in zip(row, w)) for w in pts]
        if what == "volts" and case["method"] == "position":
            j = 1 + case["axis"]
            return j if d[j] < 1e-9 else 7
        j = d.index(min(d))
        return j if d[j] < 1e-9 else 7

    class El(el.Electrode):
        def potential(self, x, derivative=0, potential=1., out=None):
            n = derivative
            if out is None:
                out = np.zeros((len(x), 2*n+1))
            for j, row in enumerate(x):
                out[j] += potential*np.array(unit(self.name, row, n))
            return out

    def unit(name, row, n):
        p = which(row)
        return [e[abstract.unit_name(name, n, p, i)] for i in range(2*n+1)]
    old = getattr(ad, "print", None)
    ad.print = lambda *a, **k: None
    try:
        if what == "init":
            b = run_init(get, arr, (sy, ad), El, case["given"],
                         case["order"], case["form"])
        elif what == "volts":
            xe = pts[0] if case["method"] == "force" else \
                pts[1 + case["axis"]]
            M = np.array([np.sum([unit(q, xe, 1) for q in g], 0)
                          for g in CONF])
            if abs(np.linalg.det(M)) < 1e-3:
                return None
            b = run_volts(get, arr, (sy, ad), El, case["axis"],
                          case["method"], case["same"], unit)
        else:
            M = np.array([np.sum([unit(q, x, 1) for q in g], 0)
                          for g in CONF])
            if abs(np.linalg.det(M)) < 1e-3:
                return None
            b = run_history(get, arr, (sy, ad), El, case["h"])
    finally:
        del ad.print
    for t, ok in b.facts:
        if not ok:
            return t
    for t, p, q in b.eqs:
        if not abs(p-q) <= 1e-6*max(1, abs(p), abs(q)):
            return "%s: %g instead of %g" % (t, p, q)
    for t, p, q in b.les:
        if not p <= q + 1e-9:
            return "%s: %g > %g" % (t, p, q)
    return None


def fb(r):
    return [case("init", given=g, order=o, form=f)(gen(r)) for g, o, f in [
        (1, None, "array"), (0, None, "array"), (1, None, "list")] + [
            (1, o, "array") for o in ORDERS]] + [
        case("volts", axis=a, method=m, same=s)(gen(r)) for a in range(3)
        for m, s in (("force", False), ("force", True),
                     ("position", False))] + [
        case("history", h=h)(gen(r)) for h in HIST]


if __name__ == "__main__":
    harness.main("C31", __file__, body, replay,
                 bounds="five electrodes in a 1-2-1 configuration with any "
                 "potentials, voltages, curvatures, axes and displacements; "
                 "18 histories of up to four steps (thorough: all of three "
                 "decisions)",
                 outside="the searches for minima and modes (C18, C20), "
                 "other configurations", fallback=fb)
