"""C29: electrode outlines keep their shape: converting between systems and
polygons, removing overlaps, merging, restricting, shrinking and filtering."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import fakegeo

# outlines: number of vertices of the exterior, of the holes, 3d vertices
SHAPES = {"single": [("a", [(4, (3,), 0)], False)],
          "3d": [("a", [(3, (3,), 1)], False)],
          "multi": [("a", [(3, (), 0), (4, (3,), 0)], True)],
          "two": [("b", [(3, (3, 4), 0)], False),
                  ("a", [(5, (), 0)], True)],
          "none": [("b", [], True), ("a", [(3, (), 0)], True)]}
# signs of the areas of an electrode's rings, 0: any
RINGS = {"two": (0, 0), "two in one": (-1, 1, -1), "one in two": (1, -1, 1),
         "two in two": (1, -1, 1, -1), "three in one": (-1, -1, 1, -1),
         "one in three": (1, 1, -1, 1)}
BITS = ["p0", "p1", "p2", "p3"]
EPS = 2.**-23


def eachring(spec):
    n = 0
    for name, polys, multi in spec:
        for ext, holes, d3 in polys:
            for m in (ext,) + tuple(holes):
                yield n, m
                n += 1


def gen(r):
    import math
    d = {}
    for n in range(8):
        # convex outlines of either orientation
        s = r.choice([-1, 1])
        for i in range(5):
            a = s*2*math.pi*(i + r.uniform(-.3, .3))/5
            R = r.uniform(.5, 2)
            d["x%d_%d" % (n, i)] = 5*n + R*math.cos(a)
            d["y%d_%d" % (n, i)] = R*math.sin(a)
            d["z%d_%d" % (n, i)] = r.uniform(-1, 1)
        d["A%d" % n] = r.choice([0., 1., 1., 1.])*r.uniform(.003, .02)
        for q in "vtuw":
            d["%s%d" % (q, n)] = r.random() < .75
        d["a%d" % n] = r.uniform(.2, 2)*r.choice([-1, 1])
    for i in range(4):
        for j in range(4):
            d["c%d_%d" % (i, j)] = r.random() < .6
            d["v%d_%d" % (i, j)] = r.random() < .8
    for n in (2, 3, 4):
        for k in itertools.product("01", repeat=n):
            d["area_" + "".join(k)] = r.choice(
                [0., 1., 1., 1e-9, 3e-8, 2e-7])*r.uniform(.3, 2)
    d.update(g=r.uniform(.01, .4), e=r.uniform(1, 9))
    return d


def case(what, **k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        for n in (2, 3, 4):
            for t in itertools.product("01", repeat=n):
                # cells the model does not mention, and the one it names
                q = "area_" + "".join(t)
                if q not in en and (q not in e or n < 4):
                    e[q] = .5 + len(e) % 7*.1
                if q not in en and all("p%d" % i in en and bool(
                        en["p%d" % i]) == (t[i] == "1") for i in range(n)):
                    e[q] = .7
        return dict(k, what=what, env=e)
    return f


class Book(object):
    def __init__(self):
        self.les, self.facts, self.regs, self.eqs = [], [], [], []

    def fact(self, t, ok):
        self.facts.append((t, bool(ok)))

    def le(self, t, a, b):
        self.les.append((t, a, b))

    def eq(self, t, a, b):
        self.eqs.append((t, a, b))

    def same(self, t, a, b):
        self.regs.append((t, a, b))

    def names(self, got, want):
        self.fact("names", [n for n, p in got] == list(want))


def geoms(p):
    return list(p.geoms) if hasattr(p, "geoms") else [p]


# -- polygons -> system
class ShapeWorld(object):
    def __init__(self, get):
        self.get, self.polys = get, []

    def idx(self, p):
        return [i for i, q in enumerate(self.polys) if q is p][0]

    def valid(self, p):
        return self.get("v%d" % self.idx(p), bool)

    def area(self, p):
        return self.get("A%d" % self.idx(p))


def ring(get, n, m, d3=False):
    return [tuple(get("%s%d_%d" % (q, n, i)) for q in ("xyz" if d3 else
                                                       "xy"))
            for i in range(m)]


def run_to(get, arr, mods, patch, shape):
    b = Book()
    w = ShapeWorld(get)
    geo, ops = patch(*fakegeo.rings(w))
    n, items, want = 0, [], []
    for name, polys, multi in SHAPES[shape]:
        ps = []
        for ext, holes, d3 in polys:
            rs = [ring(get, n + i, m, d3)
                  for i, m in enumerate((ext,) + holes)]
            n += len(rs)
            p = geo.Polygon([q for q in rs[0]], rs[1:])
            w.polys.append(p)
            ps.append((p, rs))
        items.append((name, geo.MultiPolygon([p for p, r in ps])
                      if multi else ps[0][0]))
        want.append((name, ps))
    s = mods["polygons"].Polygons(items).to_system()
    b.fact("system", isinstance(s, mods["system"].System))
    b.fact("names", [e.name for e in s] == [q for q, ps in want])
    for e, (name, ps) in zip(s, want):
        b.fact("kind", isinstance(
            e, mods["electrode"].PolygonPixelElectrode))
        rs = [(r, 1 if not i else -1) for p, rr in ps
              if w.valid(p) and w.area(p) for i, r in enumerate(rr)]
        b.fact("%s: rings" % name, len(rs) == len(e.paths))
        for k, (got, (r, sign)) in enumerate(zip(e.paths, rs)):
            got = [tuple(q) for q in got]
            r = [q[:2] for q in r]
            ok = len(got) == len(r) and any(all(
                len(p) == 2 and fakegeo.same(p[0], q[0]) and
                fakegeo.same(p[1], q[1]) for p, q in zip(got, rot))
                for d in (r, r[::-1]) for i in range(len(r))
                for rot in [d[i:] + d[:i]])
            b.fact("%s: vertices of ring %d" % (name, k), ok)
            b.le("%s: orientation of ring %d" % (name, k), 0*sign,
                 sign*fakegeo.shoelace(got))
    return b


# -- system -> polygons
class NestWorld(object):
    def __init__(self, get, thin):
        self.get, self.thin = get, thin

    def idx(self, r):
        x = S.lift(r.coords[0][0])
        return int(round(float(x.val)))//10

    def key(self, p):
        return self.idx(p.exterior), sorted(self.idx(i)
                                            for i in p.interiors)

    def valid(self, p):
        e, h = self.key(p)
        return e == 6 or self.get("v%d_%d" % (e, len(h)), bool)

    def area(self, p):
        e, h = self.key(p)
        if not self.thin or e == 6:
            return 1.
        f = lambda k: abs(self.get("a%d" % k))
        return sum((-f(k) for k in h), f(e))

    def contains(self, p, r):
        if not hasattr(r, "coords"):
            r = r.exterior
        return self.get("c%d_%d" % (self.idx(p.exterior), self.idx(r)),
                        bool)


def run_from(get, arr, mods, patch, signs):
    b = Book()
    w = NestWorld(get, signs == "two")
    geo, ops = patch(*fakegeo.rings(w))
    el = mods["electrode"]

    def rect(k, a):
        x = 10.*k
        return arr([[x, 0.], [x + a, 0.], [x + a, 1.], [x, 1.]])
    n = len(RINGS[signs])
    e = el.PolygonPixelElectrode(name="e")
    e.paths = [rect(k, get("a%d" % k)) for k in range(n)]
    h = el.PolygonPixelElectrode(name="holes only")
    h.paths = [rect(7, -1.)]
    f = el.PolygonPixelElectrode(name="f")
    f.paths = [rect(6, 1.)]
    p = mods["polygons"].Polygons.from_system(mods["system"].System(
        [el.PointPixelElectrode(name="points"), h, e, f]))
    a = [get("a%d" % k) for k in range(n)]
    exts = [k for k in range(n) if a[k] > 0]
    holes = [k for k in range(n) if k not in exts]
    b.names(p, (["e"] if exts else []) + ["f"])
    if not exts:
        return b
    got = {}
    for g in geoms(p[0][1]):
        k, hs = w.key(g)
        b.fact("outline once", k not in got)
        got[k] = hs
    size = {k: abs(a[k]) for k in range(n)}
    owner = {}
    for q in holes:
        for k in exts:
            if size[k] > size[q] and w.get("c%d_%d" % (k, q), bool) and (
                    q not in owner or size[k] < size[owner[q]]):
                owner[q] = k
    want = {}
    for k in exts:
        hs = sorted(q for q in holes if owner.get(q) == k)
        if w.get("v%d_%d" % (k, len(hs)), bool) and \
                (not w.thin or sum((-size[q] for q in hs), size[k]) > 0):
            want[k] = hs
    b.fact("each hole in the smallest outline around it: %r for %r" % (
        got, want), got == want)
    return b


# -- set operations
class RegionWorld(object):
    shapes = None

    def valid(self, p):
        return True

    def region(self, o):
        return o.f

    def rebuilt(self, *a):
        pass


def run_overlap(reg, geo, mods, n):
    b = Book()
    ps = [("q%d" % i, reg(i)) for i in range(n)]
    p = mods["polygons"].Polygons(ps).remove_overlaps()
    b.names(p, [q for q, _ in ps])
    for i in range(min(n, len(p))):
        out, src = p[i][1], ps[i][1]
        b.same("%d within its source" % i, out.union(src), src)
        rest = src
        for j in range(i):
            b.le("overlap of %d and %d" % (i, j),
                 out.intersection(p[j][1]).area, EPS)
            rest = rest.difference(ps[j][1])
        b.same("%d keeps what no earlier one covers" % i,
               rest.union(out), out)
    return b


def run_unify(reg, geo, mods, names):
    b = Book()
    ps = list(zip(names, map(reg, range(len(names)))))
    P = mods["polygons"].Polygons
    p = P(ps).unify_by_name()
    ns = sorted(set(names))
    b.fact("each name once", sorted(n for n, q in p) == ns)
    for n, q in p:
        want = None
        for m, r in ps:
            if m == n:
                want = r if want is None else want.union(r)
        if want is not None:
            b.same("union of %s" % n, q, want)
    # polygons of one electrode
    p = P([("x", geo.MultiPolygon([reg(0), reg(1)]) if geo.fake else
            Both(reg(0), reg(1))), ("y", reg(2))]).unify()
    b.names(p, "xy")
    b.same("union of one electrode", p[0][1], reg(0).union(reg(1)))
    b.same("single polygon", p[1][1], reg(2))
    return b


class Both(object):
    """Overlapping polygons, which shapely would not combine."""

    def __init__(self, *g):
        self.geoms = list(g)

    def __iter__(self):
        return iter(self.geoms)

    def __len__(self):
        return len(self.geoms)


def run_restrict(reg, geo, mods):
    b = Book()
    ps = [("q%d" % i, reg(i)) for i in range(2)]
    p = mods["polygons"].Polygons(ps).restrict(reg(2))
    b.names(p, ["q0", "q1"])
    for i in range(min(2, len(p))):
        b.same("restricted %d" % i, p[i][1], reg(i).intersection(reg(2)))
    return b


# -- shrinking, simplifying, validating
class Rec(object):
    """Notes what is done to it."""
    is_empty = False
    area = 1.

    def __init__(self, get, k, how=None):
        self.get, self.k, self.how = get, k, how

    @property
    def is_valid(self):
        q = {None: "v", "buffer": "t", "simplify": "u"}[
            self.how and self.how[0]]
        return self.get("%s%d" % (q, self.k), bool)

    def buffer(self, d, *a, **k):
        return Rec(self.get, self.k, ("buffer", d, self))

    def simplify(self, d, preserve_topology=True):
        return Rec(self.get, self.k, ("simplify", d, self,
                                      preserve_topology))


def run_shrink(get, arr, mods, patch, op):
    b = Book()
    patch(*fakegeo.rings(ShapeWorld(get)))
    rs = [("r%d" % k, Rec(get, k)) for k in range(3)]
    P = mods["polygons"].Polygons(rs)
    g = get("g")
    if op == "validate":
        ok = True
        for n, r in rs:
            ok = ok and bool(r.is_valid)
        try:
            P.validate()
            raised = False
        except ValueError:
            raised = True
        b.fact("an exception exactly when one is invalid", raised != ok)
        return b
    if op == "gaps":
        p = P.add_gaps(g)
    elif op == "simplify":
        p = P.simplify(g)
    elif op == "preserve":
        p = P.simplify(buffer=g, preserve_topology=True)
    else:
        p = P.simplify()
    b.names(p, ["r0", "r1", "r2"])
    for k, (n, r) in enumerate(p):
        if op in ("gaps", "zero"):
            if get("t%d" % k, bool):
                b.fact("%d buffered" % k, r.how and r.how[0] == "buffer" and
                       r.how[2] is rs[k][1])
                if r.how:
                    b.eq("%d buffered by" % k, r.how[1],
                         -g/2 if op == "gaps" else 0*g)
            else:
                b.fact("%d kept" % k, r is rs[k][1])
        else:
            b.fact("%d simplified" % k, r.how and r.how[0] == "simplify" and
                   r.how[2] is rs[k][1] and
                   r.how[3] == (op == "preserve"))
            if r.how:
                b.eq("%d simplified by" % k, r.how[1], g)
    return b


def run_within(get, arr, mods, patch, default):
    b = Book()
    seen = []

    class W(ShapeWorld):
        def intersection(self, p, o):
            seen.append(o)
            return p
    geo, ops = patch(*fakegeo.rings(W(get)))
    e = 50. if default else get("e")
    P = mods["polygons"].Polygons(
        [("a", geo.Polygon(ring(get, 0, 3))),
         ("b", geo.Polygon(ring(get, 1, 4)))])
    p = P.within() if default else P.within(e)
    b.names(p, "ab")
    b.fact("both cut", len(seen) == 2)
    for o in seen:
        pts = o.exterior.coords[:-1]
        b.fact("four corners", len(pts) == 4 and not o.interiors)
        for i, (x, y) in enumerate(pts):
            b.eq("corner %d x" % i, x*x, e*e/4)
            b.eq("corner %d y" % i, y*y, e*e/4)
        b.eq("the whole square", fakegeo.shoelace(pts)**2, e**4)
    return b


# -- filter
class FilterWorld(object):
    def __init__(self, get):
        self.get, self.rings, self.polys = get, [], []

    def valid(self, p):
        return True

    def ring_area(self, r):
        return self.get("A%d" % [i for i, q in enumerate(self.rings)
                                 if q is r][0])

    def area(self, p):
        # of what is left: holes are taken out
        return sum((-self.ring_area(i) for i in p.interiors),
                   self.ring_area(p.exterior))


def run_filter(get, arr, mods, patch, mode):
    b = Book()
    w = FilterWorld(get)
    geo, ops = patch(*fakegeo.rings(w))
    items, want = [], []
    n = 0
    calls = []
    for name, polys, multi in [("a", [(2,), (1,)], True), ("b", [(0,)], 0),
                               ("c", [(0,)], True)]:
        ps = []
        for (holes,) in polys:
            rs = [geo.LinearRing(ring(get, n + i, 3))
                  for i in range(1 + holes)]
            n += len(rs)
            w.rings.extend(rs)
            ps.append(geo.Polygon(rs[0], rs[1:]))
            w.polys.append(ps[-1])
        items.append((name, geo.MultiPolygon(ps) if multi else ps[0]))
        want.append((name, ps))
    P = mods["polygons"].Polygons(items)
    rid = lambda r: [i for i, q in enumerate(w.rings) if q is r]
    pid = lambda r: [i for i, q in enumerate(w.polys) if q is r]

    def test(name, g):
        k = rid(g) or pid(g)
        calls.append(name)
        return get("w%d" % k[0], bool)

    def keep(g):
        k = rid(g) or pid(g)
        if "default" in mode:
            # area above 1e-2
            return abs(w.ring_area(g) if rid(g) else w.area(g)) > 1e-2
        return get("w%d" % k[0], bool)
    if mode == "deep":
        p = P.filter(test)
    elif mode == "shallow":
        p = P.filter(test, deep=False)
    elif mode == "default":
        p = P.filter()
    else:
        p = P.filter(deep=False)
    exp = []
    for name, ps in want:
        l = []
        for q in ps:
            if "shallow" in mode:
                if keep(q):
                    l.append((rid(q.exterior)[0],
                              [rid(i)[0] for i in q.interiors]))
            elif keep(q.exterior):
                l.append((rid(q.exterior)[0], [
                    rid(i)[0] for i in q.interiors if keep(i)]))
        if l:
            exp.append((name, l))
    got = [(name, [((rid(q.exterior) or [-1])[0],
                    [(rid(i) or [-1])[0] for i in q.interiors])
                   for q in geoms(mp)]) for name, mp in p]
    b.fact("kept %r for %r" % (got, exp), got == exp)
    return b


RUNS = {"to": run_to, "from": run_from, "shrink": run_shrink,
        "within": run_within, "filter": run_filter}
SETS = {"overlap": run_overlap, "unify": run_unify,
        "restrict": run_restrict}


def todo():
    out = [("to", dict(shape=q)) for q in SHAPES]
    out += [("from", dict(signs=q)) for q in (
        RINGS if harness.THOROUGH else list(RINGS)[:3])]
    out += [("shrink", dict(op=q)) for q in (
        "gaps", "zero", "simplify", "preserve", "validate")]
    out += [("within", dict(default=q)) for q in (False, True)]
    out += [("filter", dict(mode=q)) for q in (
        "deep", "shallow", "default", "shallow default")]
    out += [("overlap", dict(n=q)) for q in (
        (2, 3, 4) if harness.THOROUGH else (2, 3))]
    out += [("unify", dict(names=q)) for q in ("aab", "aba", "abc", "aaa")]
    out += [("restrict", {})]
    return out


def body(c):
    import npshim
    import logging
    logging.disable(logging.CRITICAL)
    pkg = load.Pkg(overrides=dict(fakegeo.as_shapely(
        *fakegeo.rings(None))))
    pl = pkg["polygons"]
    mods = {q: pkg[q] for q in ("polygons", "system", "electrode")}
    c.encoded(*["polygons.Polygons." + q for q in (
        "from_system", "to_system", "remove_overlaps", "add_gaps", "simplify",
        "unify", "unify_by_name", "filter", "restrict", "within",
        "validate")])
    arr, lift = npshim.oarr, lambda q: S.need(S.lift(q))

    def get(n, kind=None):
        return S.bvar(n) if kind is bool else S.var(n)

    def patch(geo, ops):
        pl.geometry, pl.ops = geo, ops
        return geo, ops
    zs, hs = [], []

    def use(tag, ca, f, assume, region=None):
        for pc, r, exc in c.explore(f, assume):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            for t, ok in r.facts:
                if ok:
                    c.fact("%s: %s" % (tag, t), ok, ca)
                else:
                    hs.append(("%s: %s" % (tag, t), S.FALSE, pc, ca, gen))
            for t, p, q in r.eqs:
                zs.append(("%s: %s" % (tag, t), lift(p) - lift(q), pc, ca,
                           gen))
            for t, p, q in r.les:
                hs.append(("%s: %s" % (tag, t), S.cmp_(
                    "<=", lift(p), lift(q)), pc, ca, gen))
            for t, p, q in r.regs:
                # the same points, whatever they are
                p, q = p.f, q.f
                hs.append(("%s: %s" % (tag, t), S.bor(
                    S.band(p, q), S.band(S.bnot(p), S.bnot(q))), pc, ca,
                    gen))
    pos = [S.cmp_("<=", S.ZERO, S.var("area_" + "".join(k)))
           for n in (2, 3, 4) for k in itertools.product("01", repeat=n)] + [
        S.cmp_("<", S.ZERO, S.var(q)) for q in "ge"]
    nz = lambda e: S.bnot(S.cmp_("==", e, S.ZERO))
    for what, kw in todo():
        tag = what + " " + " ".join(map(str, kw.values()))
        ca = case(what, **kw)
        if what in SETS:
            bits = BITS[:kw.get("n", 3)]
            geo, ops = fakegeo.regions(RegionWorld(), bits)
            geo.fake = True
            patch(geo, ops)
            reg = lambda i: geo.Region.of(S.bvar(bits[i]))
            use(tag, ca, lambda: SETS[what](reg, geo, mods, **kw), pos)
            continue
        assume = list(pos[-2:])
        if what == "to":
            for n, m in eachring(SHAPES[kw["shape"]]):
                assume.append(nz(fakegeo.shoelace(ring(get, n, m))))
            assume += [S.cmp_("<=", S.ZERO, S.var("A%d" % k))
                       for k in range(3)]
        elif what == "from":
            sg = RINGS[kw["signs"]]
            a = [S.var("a%d" % k) for k in range(len(sg))]
            assume += [nz(q) for q in a]
            assume += [S.cmp_("<", S.ZERO, q*s) for q, s in zip(a, sg) if s]
            assume += [nz(p*p - q*q) for p, q in itertools.combinations(a, 2)]
        elif what == "filter":
            assume += [S.cmp_("<=", S.ZERO, S.var("A%d" % k))
                       for k in range(8)]
        use(tag, ca, lambda: RUNS[what](get, arr, mods, patch, **kw), assume)
    c.zeros(zs)
    c.holds_all(hs)


def cells(e, bits):
    """Real regions with the given areas of the cells of the diagram."""
    from shapely import geometry
    x, out = 0., [[] for b in bits]
    for k in itertools.product([0, 1], repeat=len(bits)):
        a = max(0., e.get("area_" + "".join(map(str, k)), 0.))
        if not any(k) or not a:
            continue
        s = a**.5
        for i, q in enumerate(k):
            if q:
                out[i].append(geometry.box(x, 0, x + s, s))
        x += s + 1
    return [geometry.MultiPolygon(q) for q in out]


def replay(case):
    import numpy as np
    from shapely import geometry, ops
    import electrode.polygons as pl, electrode.system as sy
    import electrode.electrode as el
    e, what = case["env"], case["what"]
    kw = {k: case[k] for k in ("shape", "signs", "op", "default", "mode",
                               "n", "names") if k in case}
    mods = dict(polygons=pl, system=sy, electrode=el)
    old = pl.geometry, pl.ops
    if not (e["g"] > 0 and e["e"] > 0):
        return None

    def get(n, kind=None):
        return bool(e.get(n, False)) if kind is bool else e[n]

    def patch(geo, o):
        pl.geometry, pl.ops = geo, o
        return geo, o
    import logging
    logging.disable(logging.CRITICAL)
    try:
        if what == "real":
            return real(pl, sy, el, case)
        if what in SETS:
            bits = BITS[:kw.get("n", 3)]
            rs = cells(e, bits)
            geometry.fake = False
            b = SETS[what](lambda i: rs[i], geometry, mods, **kw)
        else:
            if what == "to":
                for n, m in eachring(SHAPES[kw["shape"]]):
                    if abs(fakegeo.shoelace(ring(get, n, m))) < 1e-6:
                        return None
            if what == "from":
                a = [e["a%d" % k] for k, s in enumerate(
                    RINGS[kw["signs"]])]
                if min(map(abs, a)) < 1e-6 or any(
                        s*q < 0 for s, q in zip(RINGS[kw["signs"]], a)) or \
                        any(abs(abs(p) - abs(q)) < 1e-6 for p, q in
                            itertools.combinations(a, 2)):
                    return None
            if what in ("to", "filter") and any(
                    e["A%d" % k] < 0 or abs(e["A%d" % k] - .01) < 1e-9
                    for k in range(8)):
                return None
            b = RUNS[what](get, np.array, mods, patch, **kw)
    finally:
        pl.geometry, pl.ops = old
        logging.disable(logging.NOTSET)
    for t, ok in b.facts:
        if not ok:
            return t
    for t, p, q in b.eqs:
        if not abs(p-q) <= 1e-9*max(1, abs(p), abs(q)):
            return "%s: %g instead of %g" % (t, p, q)
    for t, p, q in b.les:
        if not p <= q*(1 + 1e-6) + 1e-12:
            return "%s: %g > %g" % (t, p, q)
    for t, p, q in b.regs:
        if not p.symmetric_difference(q).area <= 1e-6*min(
                [1.] + [g.area for o in (p, q) for g in geoms(o)
                        if g.area]):
            return "%s: %s instead of %s" % (t, p, q)
    return None


def real(pl, sy, el, case):
    """Nested squares, with shapely itself."""
    import numpy as np
    import random
    r = random.Random(case["seed"])

    def square(x, y, a, s):
        p = [[x-a, y-a], [x+a, y-a], [x+a, y+a], [x-a, y+a]]
        k = r.randrange(4)
        p = p[k:] + p[:k]
        return np.array(p[::s])
    es, areas = [], {}
    for n in "ab":
        paths, area = [], 0
        for i in range(r.randint(1, 3)):
            x, y = 20*i + 100*(n == "b"), 0
            a = 4.
            for lev in range(r.randint(1, 4)):
                paths.append(square(x, y, a, 1 if lev % 2 == 0 else -1))
                area += (1 if lev % 2 == 0 else -1)*4*a*a
                a *= r.uniform(.5, .9)
        r.shuffle(paths)
        es.append(el.PolygonPixelElectrode(name=n, paths=paths))
        areas[n] = area
    s = sy.System(es)
    p = pl.Polygons.from_system(s)
    if [n for n, q in p] != ["a", "b"]:
        return "names %r" % [n for n, q in p]
    for n, q in p:
        if abs(q.area - areas[n]) > 1e-9*areas[n]:
            return "area of %s: %g instead of %g" % (n, q.area, areas[n])
    t = p.to_system()
    x = np.array([[r.uniform(-5, 50), r.uniform(-5, 5), r.uniform(.5, 5)]
                  for i in range(4)])
    for a, b in zip(s, t):
        u, v = a.potential(x, 0), b.potential(x, 0)
        if a.name != b.name or not np.allclose(u, v, rtol=1e-8, atol=1e-12):
            return "potential of %s after the round trip" % a.name
    g = r.uniform(.05, .3)
    q = pl.Polygons([("l", pl.geometry.box(0, 0, 1, 1)),
                     ("r", pl.geometry.box(1, 0, 2, 1))]).add_gaps(g)
    if abs(q[0][1].distance(q[1][1]) - g) > 1e-9:
        return "gap %g instead of %g" % (q[0][1].distance(q[1][1]), g)
    w = pl.Polygons([("l", pl.geometry.box(0, 0, 4, 4))]).within(2*g)
    if abs(w[0][1].area - g*g) > 1e-9:
        return "square cut to %g instead of %g" % (w[0][1].area, g*g)
    return None


def fb(r):
    out = [case(what, **kw)(gen(r)) for what, kw in todo()
           for i in range(3)]
    out += [case("real", seed=r.random())(gen(r)) for i in range(6)]
    return out


if __name__ == "__main__":
    harness.main("C29", __file__, body, replay,
                 bounds="up to three (thorough: four) overlapping outlines "
                 "of any areas, outlines of up to five vertices with up to "
                 "two holes, any orientation, electrodes of up to four "
                 "nested rings in any containment relation",
                 outside="the geometric predicates and operations of "
                 "shapely/GEOS, which are assumed correct; equal ring "
                 "areas", fallback=fb)
