"""C32: contour and voltage plots show the potentials and voltages of the
system: what is handed to matplotlib, for every slice, grid and voltages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract
import itertools

DEG = {"d": 1, "r": 2}
TYPES = ("tot", "dc", "rf")
OTHER = {"x": (1, 2), "y": (0, 2), "z": (0, 1)}
SHAPE = {"x": (3, 2, 2), "y": (2, 4, 2), "z": (2, 2, 1)}
FLAT = {"x": (2, 3, 1), "y": (3, 2, 1), "z": (1, 3, 5)}
EL = ["p", "q", "s"]


def gen(r):
    d = {q: r.uniform(-1, 1) for e, n in DEG.items()
         for q in abstract.poly_names(e, n)}
    for i in range(3):
        d["c%d" % i] = r.uniform(-1, 1)
        d["h%d" % i] = r.uniform(.3, 1)
        d["u%d" % i] = r.choice([0, r.uniform(-1, 1)])
        d["w%d" % i] = r.uniform(-1, 1)
    d.update(at=r.uniform(-1, 1), dc=r.uniform(.5, 1), rf=r.uniform(.5, 1),
             k=r.uniform(.5, 1), um=r.uniform(.5, 2))
    d.update({"l%d" % i: r.uniform(-1, 1) for i in range(3)})
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(k, what=what, env=e)
    return f


class Book(object):
    def __init__(self):
        self.eqs, self.les, self.facts, self.ones = [], [], [], []

    def eq(self, tag, a, b):
        self.eqs.append((tag, a, b))

    def le(self, tag, a, b):
        self.les.append((tag, a, b))

    def one(self, tag, a, bs):
        self.ones.append((tag, a, list(bs)))

    def fact(self, tag, ok):
        self.facts.append((tag, bool(ok)))


class Axes(object):
    """Records what is drawn."""

    def __init__(self):
        self.drawn, self.labels = [], {}

    def contour(self, *a, **k):
        self.drawn.append((False, a, k))
        return self.drawn

    def contourf(self, *a, **k):
        self.drawn.append((True, a, k))
        return self.drawn

    def set_xlabel(self, text, *a, **k):
        self.labels["x"] = text

    def set_ylabel(self, text, *a, **k):
        self.labels["y"] = text

    def set(self, **k):
        for q in "xy":
            if q + "label" in k:
                self.labels[q] = k[q + "label"]


def value(get, x, typ):
    dc = get("dc")*abstract.poly_comps(get, "d", DEG["d"], x, 0)[0]
    g = abstract.poly_comps(get, "r", DEG["r"], x, 1)
    rf = sum((q*q for q in g[1:]), g[0]*g[0])*get("rf")**2*get("k")**2
    return dict(tot=dc + rf, dc=dc, rf=rf)[typ]


def run_contour(get, arr, mods, El, slc, typ, given, fill, num, div, shape,
                levels):
    b = Book()
    system, grid = mods
    s = system.System([El(name="d", dc=get("dc")),
                       El(name="r", rf=get("rf"))])
    s.rf_coeff = get("k")
    ctr, step = [[get("%s%d" % (q, i)) for i in range(3)] for q in "ch"]
    kw = dict(typ=typ, slc=slc, slc_at=get("at"))
    lo = None
    if given:
        kw["grid"] = grid.Grid(center=arr(ctr), step=arr(step), shape=shape)
    else:
        # the grid of the first electrode, c is its origin
        import numpy
        s[0].origin, s[0].spacing = arr(ctr), arr(step)
        s[0].data = [numpy.zeros(tuple(shape) + (1,)),
                     numpy.zeros(tuple(shape) + (3,))]
    if fill:
        kw["fill"] = True
    if num:
        kw["line_num"] = num
    if div:
        kw["divide_max"] = div
    if levels:
        kw["levels"] = [get("l%d" % i) for i in range(3)]
        kw["alpha"] = .5
    ax = Axes()
    r = s.plot_contour(ax, **kw)
    b.fact("one drawing", len(ax.drawn) == 1)
    if len(ax.drawn) != 1:
        return b
    filled, a, k = ax.drawn[0]
    b.fact("filled or not", filled == bool(fill))
    b.fact("drawing returned", len(r) == 2 and r[0] is ax.drawn
           and len(r[1]) == 2)
    i, j = OTHER[slc]
    b.fact("labels", str(ax.labels.get("x", "")).startswith("xyz"[i]) and
           str(ax.labels.get("y", "")).startswith("xyz"[j]))
    b.fact("three arrays", len(a) == 3 and len(a[0]) == shape[i] and
           len(a[1]) == shape[j] and len(a[2]) == shape[j] and all(
               len(q) == shape[i] for q in a[2]))
    if not b.facts[-1][1]:
        return b

    def coord(m, n):
        return ctr[m] + step[m]*(n if not given else (
            2*n - (shape[m]-1))/S.Fraction(2))
    vals = []
    for n in range(shape[i]):
        b.eq("abscissa %d" % n, a[0][n], coord(i, n))
    for m in range(shape[j]):
        b.eq("ordinate %d" % m, a[1][m], coord(j, m))
        for n in range(shape[i]):
            x = [get("at")]*3
            x[i], x[j] = coord(i, n), coord(j, m)
            vals.append(value(get, x, typ))
            b.eq("value %d %d" % (m, n), a[2][m][n], vals[-1])
    maxp, minp = r[1]
    drawn = [q for row in a[2] for q in row]
    for n, q in enumerate(drawn):
        b.le("largest %d" % n, q, maxp)
        b.le("smallest %d" % n, minp, q)
    b.one("largest", maxp, drawn)
    b.one("smallest", minp, drawn)
    lv = k.get("levels")
    if levels:
        b.fact("given levels", lv is not None and len(lv) == 3 and
               k.get("alpha") == .5)
        if b.facts[-1][1]:
            for n in range(3):
                b.eq("given level %d" % n, lv[n], get("l%d" % n))
        return b
    n = num or 50
    b.fact("levels", lv is not None and len(lv) == n)
    if b.facts[-1][1]:
        top = maxp/S.Fraction(div or 8) if not isinstance(maxp, float) \
            else maxp/(div or 8)
        if top <= minp:
            top = (maxp + minp)/2
        for q in range(n):
            b.eq("level %d" % q, lv[q]*(n-1), minp*(n-1-q) + top*q)
    return b


def run_volts(get, arr, mods, Rec, given, um, zero):
    b = Book()
    system = mods[0]
    out = []
    es = [Rec(name=q, dc=0 if zero else get("u%d" % i))
          for i, q in enumerate(EL)]
    for e in es:
        e.log = out
    s = system.System(es)
    u = [0 if zero else get("u%d" % i) for i in range(3)]
    kw = {}
    if given:
        u = [0 if zero else get("w%d" % i) for i in range(3)]
        kw["u"] = arr(u)
    if um:
        kw["um"] = get("um")
    ax = Axes()
    s.plot_voltages(ax, cmap=lambda q: ("colour", q), alpha=.25, **kw)
    b.fact("every electrode once, in order", [q[0] for q in out] == EL)
    if not b.facts[-1][1]:
        return b
    b.fact("axes and options", all(q[1] is ax and q[3].get("alpha") == .25
                                   for q in out))
    b.fact("colours", all(isinstance(q[2], tuple) and q[2][0] == "colour"
                          for q in out))
    if not b.facts[-1][1]:
        return b
    m = get("um") if um else None
    if m is None:
        for q in u:
            q = q if q >= 0 else -q
            if m is None or q > m:
                m = q
        if m == 0:
            m = 1
    for q, (n, _, col, k) in zip(u, out):
        b.eq("colour of " + n, (2*col[1] - 1)*m, q)
    return b


def contours():
    o = []
    for slc, typ in itertools.product("xyz", TYPES):
        o.append(dict(slc=slc, typ=typ, given=typ != "dc", fill=0, num=3,
                      div=None, shape=FLAT[slc], levels=1))
    for slc in "xyz":
        o.append(dict(slc=slc, typ="dc", given=1, fill=1, num=4, div=None,
                      shape=FLAT[slc], levels=0))
        o.append(dict(slc=slc, typ="dc", given=0, fill=0, num=None, div=3,
                      shape=FLAT[slc], levels=0))
        o.append(dict(slc=slc, typ="dc", given=slc == "x", fill=0, num=3,
                      div=None, shape=SHAPE[slc], levels=1))
    if harness.THOROUGH:
        for slc, typ in itertools.product("xyz", ("tot", "rf")):
            o.append(dict(slc=slc, typ=typ, given=1, fill=0, num=3, div=None,
                          shape=SHAPE[slc], levels=0))
    return o


VOLTS = [dict(given=g, um=u, zero=z) for g in (0, 1) for u in (0, 1)
         for z in (0, 1)]


def body(c):
    import npshim, numpy
    pkg = load.Pkg()
    pkg.builtins.print = lambda *a, **k: None
    system, grid = pkg["system"], pkg["grid"]
    c.encoded("system.System.plot_contour", "system.System.plot_voltages",
              "system.System.potential", "grid.Grid.to_xyz")
    v, arr = S.var, npshim.oarr
    lift = lambda q: S.need(S.lift(q))
    Base = pkg["electrode"].Electrode

    class El(Base):
        def potential(self, x, derivative=0, potential=1., out=None):
            if out is None:
                out = npshim.oarr(numpy.full((len(x), 2*derivative+1),
                                             S.ZERO, object))
            for j, row in enumerate(x):
                q = abstract.poly_comps(v, self.name, DEG[self.name],
                                        list(row), derivative) \
                    if derivative <= DEG[self.name] else [
                        S.ZERO]*(2*derivative+1)
                for i, u in enumerate(q):
                    out[j, i] = out[j, i] + potential*u
            return out

    class Rec(Base):
        def plot(self, ax, label=None, color=None, **kw):
            self.log.append((self.name, ax, color, kw))
    pos = [S.cmp_("<", S.ZERO, v(q)) for q in
           ["k", "um", "dc", "rf"] + ["h%d" % i for i in range(3)]]
    zs, hs = [], []

    def go(tag, ca, f, *a, **k):
        for pc, r, exc in c.explore(lambda: f(v, arr, (system, grid), *a,
                                              **k), pos):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            for t, ok in r.facts:
                if ok:
                    c.fact("%s: %s" % (tag, t), True, ca)
                else:
                    hs.append(("%s: %s" % (tag, t), S.FALSE, pc, ca, gen))
            for t, p, q in r.eqs:
                zs.append(("%s: %s" % (tag, t), lift(p) - lift(q), pc, ca,
                           gen))
            for t, p, qs in r.ones:
                d = [S.normalize(lift(p) - lift(q)) for q in qs]
                ok = any(q.op == "c" and q.val == 0 for q in d)
                if ok:
                    c.fact("%s: %s" % (tag, t), True, ca)
                else:
                    e = d[0]
                    for q in d[1:]:
                        e = e*q
                    zs.append(("%s: %s" % (tag, t), e, pc, ca, gen))
            for t, p, q in r.les:
                hs.append(("%s: %s" % (tag, t), S.cmp_(
                    "<=", lift(p), lift(q)), pc, ca, gen))
    for k in contours():
        go("contour %(slc)s %(typ)s" % k, case("contour", **k), run_contour,
           El, **k)
    for k in VOLTS:
        go("voltages %(given)d %(um)d %(zero)d" % k, case("volts", **k),
           run_volts, Rec, **k)
    c.zeros(zs)
    c.holds_all(hs)


def replay(case):
    import warnings
    import numpy as np
    import electrode.system as sy, electrode.grid as gr
    import electrode.electrode as el
    e, what = case["env"], case["what"]
    if min(e[q] for q in ("k", "um", "dc", "rf", "h0", "h1", "h2")) < 1e-3:
        return None
    get = lambda q: float(e[q])
    arr = lambda q: np.array(q, float)
    El = abstract.poly_class(el.Electrode, None, 0, None)

    class El(el.Electrode):
        def potential(self, x, derivative=0, potential=1., out=None):
            if out is None:
                out = np.zeros((len(x), 2*derivative+1))
            for j, row in enumerate(x):
                if derivative <= DEG[self.name]:
                    out[j] += potential*np.array(abstract.poly_comps(
                        get, self.name, DEG[self.name], list(row),
                        derivative), float)
            return out

    class Rec(el.Electrode):
        def plot(self, ax, label=None, color=None, **kw):
            self.log.append((self.name, ax, color, kw))
    k = {q: p for q, p in case.items() if q not in (
        "env", "what", "property", "claim")}
    if "shape" in k:
        k["shape"] = tuple(k["shape"])
    sy.print = lambda *a, **k: None
    S.Fraction, keep = float, S.Fraction
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b = run_contour(get, arr, (sy, gr), El, **k) \
                if what == "contour" else run_volts(get, arr, (sy, gr), Rec,
                                                    **k)
    finally:
        del sy.print
        S.Fraction = keep
    for t, ok in b.facts:
        if not ok:
            return t
    for t, p, q in b.eqs:
        if not abs(p-q) <= 1e-7*max(1, abs(p), abs(q)):
            return "%s: %g instead of %g" % (t, p, q)
    for t, p, q in b.les:
        if not p <= q + 1e-9:
            return "%s: %g > %g" % (t, p, q)
    for t, p, q in b.ones:
        if not min(abs(p-i) for i in q) <= 1e-9:
            return "%s: %g is none of the values" % (t, p)
    return None


def fb(r):
    return [case("contour", **k)(gen(r)) for k in contours()] + [
        case("volts", **k)(gen(r)) for k in VOLTS]


if __name__ == "__main__":
    harness.main("C32", __file__, body, replay,
                 bounds="slices of 2-5 points (3-8 for the potential alone) "
                 "of any regular grid through any harmonic dc potential of "
                 "first and rf potential of second degree, any voltages; "
                 "three electrodes with any voltages and scales",
                 outside="matplotlib, sizes of text and colour limits",
                 fallback=fb)
