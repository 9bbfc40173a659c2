"""C30: pad, GDS and XIC data: what is written or read is the geometry given,
in the units, on the layers and under the names asked for."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import fakegeo

# electrodes: name, polygons as (vertices, holes, is empty), several?
LAYOUT = [("a", [(3, (3,), 0)], False), ("", [(4, (), 0)], False),
          ("b", [(3, (), 0), (3, (), 1), (4, (3, 3), 0)], True)]
GDS = {"default": {}, "layers": dict(poly_layer=(7, 3), gap_layer=(9, 2),
                                     text_layer=(5, 4)),
       "no gaps": dict(gap_layer=None), "no text": dict(text_layer=None),
       "gaps only": dict(poly_layer=None, text_layer=None),
       "width": dict(gap_width=1), "edge": dict(edge=1)}
READ = {"default": {}, "polys": dict(poly_layers=[(7, 3), (1, 0)]),
        "gaps": dict(gap_layers=[(9, 2)]),
        "routes": dict(gap_layers=[(9, 2), (9, 3)], route_layers=[(4, 1)],
                       bridge_layers=[(4, 2), (2, 9)]),
        "names": dict(name_layers=[5, 8])}
DATA = [dict(gaps=g, routes=r, bridges=q, polys=n, names=m)
        for g in (0, 1) for r, q in ((0, 0), (1, 0), (1, 1))
        for n in (0, 1, 2) for m in (0, 2)]
BITS = ["s", "g", "r", "q", "p0", "p1"]
XIC = ["P x x;", "P x x\n x x\n x x\n x x;",
       "L NM;\n\nP x x\n x x\n x x;\n( note )\nP x x\n x x;\n",
       "DS 1 1 1;\n9 cell;\nP x x\n  x   x \n x x;\n   \nDF;\nE"]
COUNTS = [1, 2, 3, 4, 5]


def gen(r):
    d = {}
    for n in range(16):
        for i in range(5):
            d["x%d_%d" % (n, i)] = r.uniform(-3, 3)
            d["y%d_%d" % (n, i)] = r.uniform(-3, 3)
        for j in range(8):
            d["h%d_%d" % (n, j)] = r.random() < .4
        d["w%d" % n] = r.uniform(-200, 200)
        for q in "ld":
            d["%s%d" % (q, n)] = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 0])
    d.update(scale=r.uniform(1e-6, 2e-4), unit=r.choice([1e-9, 5e-9, 1e-10]),
             width=r.uniform(0, .2), edge=r.uniform(1, 50),
             step=r.uniform(.5, 12), f=r.choice([0., r.uniform(.1, .9)]),
             buffer=1e-10)
    for b in BITS:
        d[b] = r.random() < .5
    return d


def case(what, **kw):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(what=what, env=e, kw=kw)
    return f


class Book(object):
    def __init__(self):
        self.les, self.facts, self.regs, self.eqs = [], [], [], []

    def fact(self, t, ok):
        self.facts.append((t, bool(ok)))

    def le(self, t, a, b):
        self.les.append((t, a, b))

    def eq(self, t, a, b):
        self.eqs.append((t, a, b))

    def same(self, t, a, b):
        self.regs.append((t, a, b))

    def close(self, t, a, b, tol):
        self.le(t + " below", b - tol, a)
        self.le(t + " above", a, b + tol)


def ring(get, n, m):
    p = [(get("x%d_%d" % (n, i)), get("y%d_%d" % (n, i))) for i in range(m)]
    return p + p[:1]


class World(object):
    """Clipping to the field gives other polygons."""

    def __init__(self, get):
        self.get, self.fields, self.clipped = get, [], {}

    def valid(self, p):
        return True

    def area(self, p):
        return 1.

    def intersection(self, p, o):
        self.fields.append(o)
        return self.clipped[id(p)]


def layout(get, geo, w):
    """The polygons and, per electrode, what should come out."""
    items, want, n = [], [], 0
    for name, polys, multi in LAYOUT:
        ps, rs = [], []
        for m, holes, empty in polys:
            r = [ring(get, n, m)] + [ring(get, n + 1 + i, q)
                                     for i, q in enumerate(holes)]
            p = geo.Polygon(r[0], r[1:])
            p.is_empty = bool(empty)
            q = [ring(get, 8 + n % 8, 3)]
            w.clipped[id(p)] = geo.Polygon(q[0])
            n += 1 + len(holes)
            ps.append(p)
            if not empty:
                rs.append((r, q))
        items.append((name, geo.MultiPolygon(ps) if multi else ps[0]))
        want.append((name, rs))
    return items, want


def integer(x):
    import npshim
    import numpy as np
    x = np.asarray(x)
    if x.dtype.kind in "iu":
        return True
    return x.dtype == object and all(
        isinstance(q, (int, np.integer)) or
        S.lift(q) is not None and npshim.integral(q) for q in x.flat)


def run_write(get, arr, mods, patch, how):
    from gdsii import elements
    b = Book()
    w = World(get)
    geo, ops = patch(*fakegeo.rings(w))
    items, want = layout(get, geo, w)
    kw = dict(GDS[how])
    scale, unit = get("scale"), get("unit")
    if kw.get("gap_width"):
        kw["gap_width"] = get("width")
    if kw.get("edge"):
        kw["edge"] = get("edge")
    lib = mods["polygons"].Polygons(items).to_gds(
        scale=scale, phys_unit=unit, **kw)
    b.eq("physical unit", lib.physical_unit, unit)
    b.fact("one structure", len(lib) == 1)
    pl_, gl, tl = (kw.get(q, d) for q, d in (
        ("poly_layer", (0, 0)), ("gap_layer", (1, 0)),
        ("text_layer", (0, 0))))
    kinds = {k: [] for k in ("Boundary", "Path", "Text")}
    for e in lib[0]:
        kinds[type(e).__name__].append(e)
    clip = "edge" in kw
    edges = [(name, q if clip else r) for name, rs in want for r, q in rs]

    def pts(tag, xy, want):
        b.fact(tag + ": integers", integer(xy))
        b.fact(tag + ": points", len(xy) == len(want))
        for i, (p, q) in enumerate(zip(xy, want)):
            for a, u, v in zip("xy", p, q):
                b.close("%s: %s%d" % (tag, a, i), u*unit, v*scale, unit/2)

    def props(e):
        return dict(e.properties or [])
    attr = mods["polygons"].Polygons._attr_name
    ee = edges if pl_ else []
    b.fact("outlines", len(kinds["Boundary"]) == len(ee))
    for k, (e, (name, r)) in enumerate(zip(kinds["Boundary"], ee)):
        pts("outline %d" % k, e.xy, r[0])
        b.fact("outline %d layer" % k, (e.layer, e.data_type) == pl_)
        b.fact("outline %d name" % k, props(e) == (
            {attr: name.encode()} if name else {}))
    ee = [q for q in edges if q[0]] if tl else []
    b.fact("texts", len(kinds["Text"]) == len(ee))
    for k, (e, (name, r)) in enumerate(zip(kinds["Text"], ee)):
        pts("text %d" % k, e.xy, r[0][:1])
        b.fact("text %d layer" % k, (e.layer, e.text_type) == tl)
        b.fact("text %d name" % k, e.string == name.encode())
    ee = [q for name, r in edges for q in r] if gl else []
    b.fact("gaps", len(kinds["Path"]) == len(ee))
    for k, (e, r) in enumerate(zip(kinds["Path"], ee)):
        pts("gap %d" % k, e.xy, r)
        b.fact("gap %d layer" % k, (e.layer, e.data_type) == gl)
        b.fact("gap %d width integer" % k, integer([e.width]))
        g = kw.get("gap_width", 0)
        b.le("gap %d width above" % k, e.width*unit, g*scale)
        b.le("gap %d width below" % k, g*scale, e.width*unit + unit)
    if clip:
        b.fact("every polygon clipped", len(w.fields) >= len(edges))
        for o in w.fields:
            field(b, o.exterior.coords[:-1], kw["edge"])
    return b


def field(b, pts, e):
    b.fact("four corners", len(pts) == 4)
    for i, (x, y) in enumerate(pts):
        b.eq("corner %d x" % i, x*x, e*e/4)
        b.eq("corner %d y" % i, y*y, e*e/4)
    b.eq("the whole square", fakegeo.shoelace(pts)**2, e**4)


def run_round(get, arr, mods, patch, how, through):
    """What to_gds() writes from_gds() reads."""
    b = Book()
    w = World(get)
    geo, ops = patch(*fakegeo.rings(w))
    items, want = layout(get, geo, w)
    kw = dict(GDS[how])
    scale, unit = get("scale"), get("unit")
    P = mods["polygons"].Polygons
    lib = P(items).to_gds(scale=scale, phys_unit=unit, **kw)
    got = {}

    class Q(P):
        @classmethod
        def from_data(cls, polys, gaps, routes, bridges, names, **k):
            got.update(polys=polys, gaps=gaps, routes=routes,
                       bridges=bridges, names=names, k=k)
            return "done"
    pl_, gl, tl = (kw.get(q, d) for q, d in (
        ("poly_layer", (0, 0)), ("gap_layer", (1, 0)),
        ("text_layer", (0, 0))))
    r = Q.from_gds(through(lib), scale=scale, edge=12., name=None,
                   poly_layers=[pl_], gap_layers=[gl],
                   name_layers=[tl[0]] if tl else [])
    b.fact("result handed on", r == "done" and got["k"] == dict(edge=12.))
    tol = unit/scale*.501

    def pts(tag, p, q):
        b.fact(tag + ": points", len(p) == len(q))
        for i, (u, v) in enumerate(zip(p, q)):
            for a, x, y in zip("xy", u, v):
                b.close("%s: %s%d" % (tag, a, i), x, y, tol)
    edges = [(name, r) for name, rs in want for r, q in rs]
    b.fact("polygons", [n for n, p in got["polys"]] == [
        n for n, r in edges if pl_])
    for k, ((n, p), (m, r)) in enumerate(zip(got["polys"], edges)):
        pts("polygon %d" % k, p, r[0])
    rr = [q for n, r in edges for q in r] if gl else []
    b.fact("gaps", len(got["gaps"]) == len(rr))
    for k, (p, q) in enumerate(zip(got["gaps"], rr)):
        pts("gap %d" % k, p, q)
    ee = [q for q in edges if q[0]] if tl else []
    b.fact("names", [n for n, p in got["names"]] == [n for n, r in ee])
    for k, ((n, p), (m, r)) in enumerate(zip(got["names"], ee)):
        pts("name %d" % k, [p], r[0][:1])
    b.fact("no routes", not got["routes"] and not got["bridges"])
    return b


def run_read(get, arr, mods, patch, how, through):
    """Elements on any layers."""
    from gdsii import library, structure, elements
    b = Book()
    unit, scale = get("unit"), get("scale")
    lib = library.Library(version=5, name=b"lib", physical_unit=unit,
                          logical_unit=1e-3)
    other = structure.Structure(name=b"other")
    other.append(elements.Boundary(layer=7, data_type=3,
                                   xy=[(0, 0), (9, 9), (9, 0), (0, 0)]))
    st = structure.Structure(name=b"cell")
    lib.append(other)
    lib.append(st)
    num = lambda q: get(q, int)
    name = mods["polygons"].Polygons._attr_name
    for k in range(2):
        e = elements.Boundary(layer=num("l%d" % k), data_type=num("d%d" % k),
                              xy=[(k, 1), (4, 2 + k), (5, 6), (k, 1)])
        e.properties = [(name, b"n%d" % k)] if k else []
        st.append(e)
    for k in (2, 3):
        e = elements.Path(layer=num("l%d" % k), data_type=num("d%d" % k),
                          xy=[(k, 1), (4, 2 + k)])
        st.append(e)
    st.append(elements.Path(layer=9, data_type=2, xy=[(3, 3)]))
    for k in (4,):
        e = elements.Text(layer=num("l%d" % k), text_type=0, xy=[(k, 2)],
                          string=b"t%d" % k)
        st.append(e)
    got = {}

    class Q(mods["polygons"].Polygons):
        @classmethod
        def from_data(cls, polys, gaps, routes, bridges, names, **k):
            got.update(polys=polys, gaps=gaps, routes=routes,
                       bridges=bridges, names=names)
    kw = READ[how]
    Q.from_gds(through(lib), scale, "cell", **kw)

    def on(k, key):
        if kw.get(key) is None:
            return key in ("poly_layers", "gap_layers")
        return any(num("l%d" % k) == l and num("d%d" % k) == d
                   for l, d in kw[key])
    want = {q: [] for q in ("polys", "gaps", "routes", "bridges", "names")}
    for k in range(2):
        if on(k, "poly_layers"):
            want["polys"].append((k, ["", "n1"][k]))
    for k in (2, 3):
        if on(k, "gap_layers"):
            want["gaps"].append((k, None))
        elif on(k, "route_layers"):
            want["routes"].append((k, None))
        elif on(k, "bridge_layers"):
            want["bridges"].append((k, None))
    if kw.get("name_layers") is None or any(
            num("l4") == l for l in kw["name_layers"]):
        want["names"].append((4, "t4"))
    for q in want:
        b.fact("%s: %d read" % (q, len(want[q])),
               len(got[q]) == len(want[q]))
        for i, ((k, n), g) in enumerate(zip(want[q], got[q])):
            if n is not None:
                b.fact("%s: name" % q, g[0] == n)
                g = g[1]
            x = g if q == "names" else g[0]
            b.eq("%s %d: first x" % (q, i), x[0], k*unit/scale)
            if q != "names":
                b.eq("%s %d: second y" % (q, i), g[1][1],
                     (2 + k)*unit/scale)
    return b


# -- pads
def run_assign(get, arr, mods, patch, pads, polys):
    b = Book()

    class W(World):
        def intersects(self, p, o):
            if not hasattr(p, "x"):
                p, o = o, p
            k = [i for i, q in enumerate(self.ps) if q is o][0]
            n = int(round(float(p.x)))
            assert float(p.y) == n + 50, (p.x, p.y)
            return get("h%d_%d" % (n, k), bool)
    w = W(get)
    geo, ops = patch(*fakegeo.rings(w))
    w.ps = [geo.Polygon(ring(get, k, 3)) for k in range(polys)]
    P = mods["polygons"].Polygons([("p%d" % k, p)
                                   for k, p in enumerate(w.ps)])
    got = list(P.assign_to_pad([(float(n), n + 50.) for n in range(pads)]))
    b.fact("every polygon once", sorted(j for i, j in got) ==
           list(range(polys)))
    free, want = list(range(polys)), {}
    for n in range(pads):
        for k in free:
            if get("h%d_%d" % (n, k), bool):
                want[k] = n
                free.remove(k)
                break
    b.fact("first free polygon under the pad: %r for %r" % (got, want),
           {j: i for i, j in got if i is not None} == want)
    return b


def run_pads(get, arr, mods, patch, odd, corner, k):
    b = Book()
    step = get("step")
    edge = (k + get("f"))*step
    kw = dict(odd=True) if odd else {}
    if corner:
        kw["start_corner"] = corner
    xy = mods["polygons"].square_pads(step, edge, **kw)
    n = len(xy)//4
    b.fact("shape", len(xy) == 4*n and all(len(p) == 2 for p in xy))
    b.fact("number", n % 2 == 1 and n >= k if odd else n == k)
    q = (edge - step)/2
    for e in range(4):
        side = (e + corner) % 4
        for i in range(n):
            x, y = xy[e*n + i]
            # left down, bottom right, right up, top left
            along = ((n - 1)/2. - i)*step
            wx, wy = [(-q, along), (-along, -q), (q, -along),
                      (along, q)][side]
            b.eq("edge %d pad %d x" % (e, i), x, wx)
            b.eq("edge %d pad %d y" % (e, i), y, wy)
    return b


def run_xic(get, arr, mods, patch, k, tok):
    b = Book()
    n, lines, want = 0, [], []
    for line in XIC[k].split("\n"):
        out, vals = "", []
        for part in line.split("x"):
            out += part
            vals.append(part)
        if line.startswith(("P", " ")) and "x" in line:
            out, m = "", line.count("x")
            for i, part in enumerate(line.split("x")):
                out += part
                if i < m:
                    out += tok("w%d" % n)
                    if line[0] == "P" and i == 0:
                        want.append([])
                    if i == 0:
                        want[-1].append([])
                    want[-1][-1].append(get("w%d" % n))
                    n += 1
        lines.append(out + "\n")
    # a polygon ends with ";" on a continuation line
    got = mods["xic"].xic_to_list(lines)
    want = [p for p in want if len(p) > 1]
    b.fact("polygons", len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        b.fact("polygon %d: points" % i, len(g) == len(w))
        for j, (u, v) in enumerate(zip(g, w)):
            for a, x, y in zip("xy", u, v):
                b.eq("polygon %d: %s%d" % (i, a, j), x, y*1e-8)
    return b


# -- fragments
class Lines(object):
    def __init__(self, w, what):
        self.w, self.what = w, what

    def buffer(self, d, *a, **k):
        self.w.widths.append(d)
        return self.w.geo.Region.of(self.w.bit(
            {"gaps": "g", "routes": "r"}[self.what]))

    def union(self, o):
        return Lines(self.w, "+".join(sorted([self.what, o.what])))


class FragmentWorld(object):
    def __init__(self, get):
        self.get, self.widths, self.fields, self.rings = get, [], [], []
        self.frags = []

    def bit(self, n):
        return S.bvar(n)

    def valid(self, p):
        return True

    def region(self, o):
        return o.f

    def rebuilt(self, m, holes):
        self.rings.append(m.k == 0 and [h.k for h in holes] == [1] and
                          all(h.owner is m.owner for h in holes))

    def shape(self, pts):
        self.fields.append(pts)
        return self.bit("s")

    def hit(self, xy, o):
        n = int(round(float(xy[0])))
        assert float(xy[1]) == n + 50
        k = [i for i, q in enumerate(self.frags) if q is o.f]
        if not k:
            self.frags.append(o.f)
            k = [len(self.frags) - 1]
        return self.get("h%d_%d" % (n, k[0]), bool)

    def polygonize(self, arg):
        if isinstance(arg, Lines):
            return [self.geo.Region.of(self.bit(
                {"bridges+routes": "q"}[arg.what]))]
        return [self.geo.Region.of(self.bit(q)) for q in arg]


def run_data(get, arr, mods, patch, gaps, routes, bridges, polys, names):
    b = Book()
    w = FragmentWorld(get)
    geo, ops = fakegeo.regions(w, BITS)
    w.geo = geo
    geo.MultiLineString = lambda q: Lines(w, q[0])
    ops.polygonize = w.polygonize
    patch(geo, ops)
    edge = get("edge")
    kw = {}
    for q, on in (("gaps", gaps), ("routes", routes), ("bridges", bridges)):
        if on:
            kw[q] = [q]
    if names:
        kw["names"] = [("pad%d" % n, (float(n), n + 50.))
                       for n in range(names)]
    p = mods["polygons"].Polygons.from_data(
        polys=[("n%d" % k, "p%d" % k) for k in range(polys)], edge=edge,
        **kw)
    for pts in w.fields:
        field(b, pts, edge)
    b.fact("rings put together", all(w.rings))
    for d in w.widths:
        b.eq("width of the gaps", d, 1e-10)
    v = {q: w.bit(q) for q in BITS}
    want = [("n%d" % k, S.band(v["p%d" % k], v["s"])) for k in range(polys)]
    if gaps or routes:
        f = v["s"]
        if gaps:
            f = S.band(f, S.bnot(v["g"]))
        if routes and bridges:
            f = S.bor(f, S.band(v["q"], v["s"]))
        for k in range(polys):
            f = S.band(f, S.bnot(v["p%d" % k]))
        if routes:
            f = S.band(f, S.bnot(v["r"]))
        want.append(("", f))
    if names:
        # the first fragment still free under each pad
        free, order = list(range(len(want))), []
        for n in range(names):
            for k in free:
                # fragments are numbered as they are met
                m = [i for i, q in enumerate(w.frags)
                     if equivalent(q, want[k][1])]
                if not m:
                    b.fact("fragment %d not looked at" % k, False)
                elif get("h%d_%d" % (n, m[0]), bool):
                    order.append(("pad%d" % n, want[k][1]))
                    free.remove(k)
                    break
        want = order + [want[k] for k in free]
    b.fact("names: %r for %r" % ([n for n, q in p], [n for n, q in want]),
           [n for n, q in p] == [n for n, q in want])
    for k, ((n, q), (m, f)) in enumerate(zip(p, want)):
        b.same("fragment %d" % k, q, geo.Region.of(f))
    return b


def equivalent(p, q):
    """The same region (for telling the fragments apart)?"""
    if p is q:
        return True
    ids = [S.bvar(n).id for n in BITS]
    return all(fakegeo.truth(p, dict(zip(ids, k))) ==
               fakegeo.truth(q, dict(zip(ids, k)))
               for k in itertools.product([False, True], repeat=len(BITS)))


RUNS = {"write": run_write, "round": run_round, "read": run_read,
        "assign": run_assign, "pads": run_pads, "xic": run_xic,
        "data": run_data}


def todo():
    out = [("write", dict(how=q)) for q in GDS]
    out += [("round", dict(how=q)) for q in ("default", "layers")]
    out += [("read", dict(how=q)) for q in READ]
    out += [("assign", dict(pads=p, polys=q)) for p, q in (
        (1, 3), (2, 2), (2, 3), (3, 2)) + (
            ((3, 3), (4, 3)) if harness.THOROUGH else ())]
    out += [("pads", dict(odd=o, corner=q, k=n)) for o in (False, True)
            for q in range(4) for n in COUNTS]
    out += [("xic", dict(k=k)) for k in range(len(XIC))]
    out += [("data", q) for q in DATA]
    return out


def body(c):
    import npshim, types
    import logging
    logging.disable(logging.CRITICAL)
    pkg = load.Pkg(overrides=dict(fakegeo.as_shapely(
        *fakegeo.rings(None))))
    pl = pkg["polygons"]
    mods = {q: pkg[q] for q in ("polygons", "system", "electrode", "xic")}
    c.encoded(*["polygons." + q for q in (
        "Polygons.to_gds", "Polygons.from_gds", "Polygons.from_data",
        "Polygons.assign_to_pad", "square_pads")] + ["xic.xic_to_list"])
    arr, lift = npshim.oarr, lambda q: S.need(S.lift(q))
    real_int, mode = int, ["term"]

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_int)

    class Int(metaclass=Meta):
        def __new__(cls, *a):
            x = a[0] if a else 0
            if not isinstance(x, S.E):
                return real_int(*a)
            if mode[0] == "term":
                return npshim.trunc(x)
            for k in range(12):
                if x < k + 1:
                    return k
            raise S.Unsupported("int() beyond the bounds")
    pl.__dict__["int"] = Int
    around = pkg.np.around
    pkg.np.around = lambda a, *r, **k: a if hasattr(a, "owner") else \
        around(a, *r, **k)
    astype = npshim._isint
    npshim._isint = lambda t: t is Int or astype(t)
    from gdsii import library as glib

    class Lib(glib.Library):
        @classmethod
        def load(cls, f):
            for st in f:
                for q in st:
                    # as read from a file
                    if q.properties is None:
                        q.properties = []
            return f
    pl.library = types.SimpleNamespace(Library=Lib)

    class Tok(str):
        pass
    import builtins

    def tofloat(s):
        return S.var(s.strip()) if isinstance(s, str) and \
            s.strip().startswith("w") else builtins.float(s)
    mods["xic"].float = tofloat

    def get(n, kind=None):
        return S.bvar(n) if kind is bool else S.var(n)

    def patch(geo, ops):
        pl.geometry, pl.ops = geo, ops
        return geo, ops
    zs, hs = [], []
    pos = [S.cmp_("<", S.ZERO, S.var(q)) for q in (
        "scale", "unit", "edge", "step")] + [
        S.cmp_("<=", S.ZERO, S.var("width")),
        S.cmp_("<=", S.ZERO, S.var("f")), S.cmp_("<", S.var("f"), S.ONE)]
    for what, kw in todo():
        tag = what + " " + " ".join(map(str, kw.values()))
        ca = case(what, **kw)
        ex = dict(kw)
        mode[0] = "number" if what == "pads" else "term"
        if what in ("round", "read"):
            ex["through"] = lambda lib: lib
        if what == "xic":
            ex["tok"] = lambda q: q
        for pc, r, exc in c.explore(
                lambda: RUNS[what](get, arr, mods, patch, **ex), pos):
            c.fact("%s: no exception %r" % (tag, exc), exc is None, ca)
            if exc:
                continue
            for t, ok in r.facts:
                if ok:
                    c.fact("%s: %s" % (tag, t), ok, ca)
                else:
                    hs.append(("%s: %s" % (tag, t), S.FALSE, pc, ca, gen))
            for t, p, q in r.eqs:
                zs.append(("%s: %s" % (tag, t), lift(p) - lift(q), pc, ca,
                           gen))
            for t, p, q in r.les:
                hs.append(("%s: %s" % (tag, t), S.cmp_(
                    "<=", lift(p), lift(q)), pc, ca, gen))
            for t, p, q in r.regs:
                p, q = p.f, q.f
                hs.append(("%s: %s" % (tag, t), S.bor(
                    S.band(p, q), S.band(S.bnot(p), S.bnot(q))), pc, ca,
                    gen))
    c.zeros(zs)
    c.holds_all(hs)


def replay(case):
    import io, logging, struct
    import numpy as np
    from gdsii import library
    import electrode.polygons as pl, electrode.system as sy
    import electrode.electrode as el, electrode.xic as xic
    e, what = case["env"], case["what"]
    kw = dict(case["kw"])
    mods = dict(polygons=pl, system=sy, electrode=el, xic=xic)
    old = pl.geometry, pl.ops, pl.np
    if not (min(e["scale"], e["unit"], e["edge"], e["step"]) > 0 and
            e["width"] >= 0 and 0 <= e["f"] < 1):
        return None

    def get(n, kind=None):
        if kind is bool:
            return bool(e.get(n, False))
        return int(e[n]) if kind is int else e[n]

    def patch(geo, o):
        pl.geometry, pl.ops = geo, o
        return geo, o

    class Failed(Exception):
        pass

    def through(lib):
        f = io.BytesIO()
        try:
            lib.save(f)
        except (struct.error, TypeError) as x:
            raise Failed("library cannot be saved: %r" % x)
        f.seek(0)
        return f
    logging.disable(logging.CRITICAL)
    if what in ("write", "round", "read"):
        # keep within 32 bits
        u = e["unit"] = min(max(e["unit"], 1e-12), 1.)
        big = max(abs(e[k]) for k in e if k[0] in "xy" and "_" in k) + 1
        e["scale"] = min(max(e["scale"], u/100), 1e9*u/big)
        for k in range(16):
            for q in "ld":
                e["%s%d" % (q, k)] = int(min(max(e["%s%d" % (q, k)], 0),
                                             30000))
    try:
        if what == "real":
            return real(pl, case)
        if what == "pads" and not (1e-6 < e["f"] < 1 - 1e-6):
            e["f"] = .25
        if what in ("round", "read"):
            kw["through"] = through
        if what == "xic":
            kw["tok"] = lambda q: repr(float(e[q]))
        if what == "data":
            class NP(object):
                def __getattr__(self, n):
                    return getattr(np, n)

                def around(self, a, *r):
                    return a if hasattr(a, "owner") else np.around(a, *r)
            pl.np = NP()
        b = RUNS[what](get, np.array, mods, patch, **kw)
    except Failed as x:
        return str(x)
    finally:
        pl.geometry, pl.ops, pl.np = old
        logging.disable(logging.NOTSET)
    for t, ok in b.facts:
        if not ok:
            return t
    for t, p, q in b.eqs:
        if not abs(p-q) <= 1e-9*max(abs(p), abs(q)) + 1e-30:
            return "%s: %g instead of %g" % (t, p, q)
    for t, p, q in b.les:
        if not p <= q + 1e-7*max(abs(p), abs(q)):
            return "%s: %g > %g" % (t, p, q)
    for t, p, q in b.regs:
        if not equivalent(p.f, q.f):
            return "%s: %s instead of %s" % (t, p.f, q.f)
    return None


def real(pl, case):
    """shapely and a GDS file."""
    import io, random
    import numpy as np
    from shapely import geometry as g
    r = random.Random(case["kw"]["seed"])
    s = r.uniform(1, 3)
    ps = pl.Polygons([("a", g.box(0, 0, s, 2)), ("b", g.MultiPolygon(
        [g.box(4, 0, 5, s), g.box(6, 0, 7, 1)]))])
    f = io.BytesIO()
    ps.to_gds(scale=1e-4, phys_unit=1e-9).save(f)
    f.seek(0)
    q = pl.Polygons.from_gds(f, scale=1e-4, poly_layers=[(0, 0)],
                             gap_layers=[(5, 5)], name_layers=[6], edge=40.)
    got = {}
    for n, p in q:
        got[n] = got.get(n, 0) + p.area
    if set(got) != {"a", "b"} or abs(got["a"] - 2*s) > 1e-3 or \
            abs(got["b"] - s - 1) > 1e-3:
        return "areas %r after a round trip" % got
    # fragments fill the field
    x, y = r.uniform(-8, 8), r.uniform(-8, 8)
    q = pl.Polygons.from_data(
        polys=[("a", np.array([(x, y), (x+1, y), (x+1, y+1), (x, y+1),
                               (x, y)]))],
        gaps=[[(x-1, -30), (x-1, 30)], [(-30, y-1), (30, y-1)]], edge=20.)
    t = sum(p.area for n, p in q)
    if abs(t - 400) > 1e-6 or len(q) != 5 or \
            abs(q[0][1].area - 1) > 1e-9 or q[0][0] != "a":
        return "fragments %r" % [(n, p.area) for n, p in q]
    for i in range(5):
        for j in range(i):
            if q[i][1].intersection(q[j][1]).area > 1e-6:
                return "fragments overlap"
    return None


def fb(r):
    out = [case(what, **kw)(gen(r)) for what, kw in todo()
           for i in range(2)]
    return out + [case("real", seed=r.random())(gen(r)) for i in range(4)]


if __name__ == "__main__":
    harness.main("C30", __file__, body, replay,
                 bounds="layouts of three electrodes with up to four "
                 "outlines and any coordinates, units and scales; GDS "
                 "elements on any layers; one to five pads per edge; up to "
                 "three (thorough: four) pads over three polygons; any set "
                 "of gaps, routes and bridges with up to two polygons",
                 outside="the geometric operations of shapely/GEOS and the "
                 "GDS file encoding of gdsii, which are assumed correct",
                 fallback=fb)
