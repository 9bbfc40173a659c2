"""Stand-ins for shapely.

`rings(world)`: polygons made of rings of (symbolic) vertices. Validity,
containment and areas of polygons are answered by `world`.

`regions(world)`: a region is the formula that says whether a generic point
of the plane lies in it, over the membership bits of the input regions; its
area is the sum of the areas of the cells of the Venn diagram it covers."""
import itertools
import types

import symx as S


def module(**k):
    m = types.ModuleType("shapely.geometry")
    m.__dict__.update(k)
    return m


def as_shapely(geometry, ops):
    """Modules to put in the place of shapely's."""
    sh = types.ModuleType("shapely")
    sh.geometry, sh.ops = geometry, ops
    return {"shapely": sh, "shapely.geometry": geometry, "shapely.ops": ops}


class Coords(list):
    @property
    def xy(self):
        return [p[0] for p in self], [p[1] for p in self]


def same(a, b):
    a, b = S.lift(a), S.lift(b)
    return a is b


def shoelace(pts):
    n = len(pts)
    s = None
    for i in range(n):
        (a, b), (c, d) = pts[i][:2], pts[(i+1) % n][:2]
        t = a*d - c*b
        s = t if s is None else s + t
    return s/2


def rings(world):
    class Geom(object):
        is_empty = False

    class LinearRing(Geom):
        is_valid = is_ring = True
        geom_type = "LinearRing"

        def __init__(self, coords=()):
            if hasattr(coords, "coords"):
                coords = coords.coords
            pts = [tuple(p) for p in coords]
            self.source = coords
            if not all(same(a, b) for a, b in zip(pts[0], pts[-1])):
                pts.append(pts[0])
            self.coords = Coords(pts)

        @property
        def is_ccw(self):
            return shoelace(self.coords[:-1]) > 0

        @property
        def area(self):
            return 0.

    class Polygon(Geom):
        geom_type = "Polygon"

        def __init__(self, shell=None, holes=None):
            if isinstance(shell, Polygon):
                holes = holes or shell.interiors
                shell = shell.exterior
            self.exterior = shell if isinstance(shell, LinearRing) else \
                LinearRing(shell)
            self.interiors = [i if isinstance(i, LinearRing) else
                              LinearRing(i) for i in holes or []]

        @property
        def is_valid(self):
            return world.valid(self)

        @property
        def area(self):
            return world.area(self)

        def contains(self, other):
            return world.contains(self, other)

        def intersection(self, other):
            return world.intersection(self, other)

        def intersects(self, other):
            return world.intersects(self, other)

        covers = contains

        @property
        def boundary(self):
            return Multi([self.exterior] + self.interiors) if \
                self.interiors else self.exterior

    class Multi(Geom):
        geom_type = "MultiPolygon"

        def __init__(self, geoms=()):
            self.geoms = list(getattr(geoms, "geoms", geoms))

        def __iter__(self):
            return iter(self.geoms)

        def __len__(self):
            return len(self.geoms)

        def __getitem__(self, i):
            return self.geoms[i]

        @property
        def is_valid(self):
            return all(g.is_valid for g in self.geoms)

        @property
        def is_empty(self):
            return not self.geoms

        @property
        def area(self):
            return sum((g.area for g in self.geoms), 0.)

        def intersects(self, other):
            return world.intersects(self, other)

    class MultiLineString(Multi):
        geom_type = "MultiLineString"

    class Point(Geom):
        geom_type = "Point"

        def __init__(self, *xy):
            if len(xy) == 1:
                xy = tuple(xy[0])
            self.xy = tuple(xy)
            self.x, self.y = xy[:2] if xy else (None, None)
            self.coords = Coords([self.xy])

        def intersects(self, other):
            return world.intersects(self, other)

        within = intersects

    def orient(p, sign=1.):
        def turn(r, up):
            r = r.coords
            return LinearRing(r if bool(shoelace(r[:-1]) > 0) == up
                              else r[::-1])
        return Polygon(turn(p.exterior, sign > 0),
                       [turn(i, sign < 0) for i in p.interiors])

    def union(gs):
        out = []
        for g in gs:
            out.extend(getattr(g, "geoms", [g]))
        return Multi(out)
    geometry = module(
        Polygon=Polygon, LinearRing=LinearRing, MultiPolygon=Multi,
        Point=Point, GeometryCollection=Multi, LineString=LinearRing,
        MultiLineString=MultiLineString,
        polygon=module(orient=orient, Polygon=Polygon,
                       LinearRing=LinearRing))
    ops = module(unary_union=union, cascaded_union=union)
    return geometry, ops


def regions(world, bits):
    """bits: names of the membership bits."""
    cells = list(itertools.product([False, True], repeat=len(bits)))

    def area(f):
        out = S.ZERO
        m0 = [S.bvar(b) for b in bits]
        for c in cells:
            if not any(c):
                continue
            r = truth(f, dict(zip([b.id for b in m0], c)))
            if r:
                out = out + S.var("area_" + "".join("01"[i] for i in c))
        return out

    class Region(object):
        geom_type = "Polygon"

        def __init__(self, shell=None, holes=None):
            if isinstance(shell, Marker):
                # all rings of one region put together again
                self.f = shell.owner.f
                world.rebuilt(shell, holes or [])
            elif shell is None:
                self.f = S.FALSE
            elif isinstance(shell, Region):
                self.f = shell.f
            else:
                self.f = world.shape(shell)

        @classmethod
        def of(cls, f):
            r = cls.__new__(cls)
            r.f = f
            return r

        def intersection(self, o):
            return Region.of(S.band(self.f, world.region(o)))

        def union(self, o):
            return Region.of(S.bor(self.f, world.region(o)))

        def difference(self, o):
            return Region.of(S.band(self.f, S.bnot(world.region(o))))

        def symmetric_difference(self, o):
            return self.union(o).difference(self.intersection(o))
        __and__, __or__, __sub__ = intersection, union, difference

        def buffer(self, d, *a, **k):
            return world.buffer(self, d, *a, **k)

        def simplify(self, d, preserve_topology=True):
            return world.simplify(self, d, preserve_topology)

        def intersects(self, o):
            return self.intersection(o).area > 0

        def disjoint(self, o):
            return not self.intersects(o)

        @property
        def area(self):
            return area(self.f)

        @property
        def is_valid(self):
            return world.valid(self)

        @property
        def is_empty(self):
            return not self.area

        @property
        def exterior(self):
            return Marker(self, 0)

        @property
        def interiors(self):
            return [Marker(self, 1)]

        @property
        def boundary(self):
            return world.boundary(self)

    class Marker(object):
        """A ring of a region."""

        def __init__(self, owner, k):
            self.owner, self.k = owner, k
            self.coords = self

    class Multi(Region):
        geom_type = "MultiPolygon"

        def __init__(self, geoms=()):
            self.geoms = list(getattr(geoms, "geoms", geoms))

        @property
        def f(self):
            return S.bor(*[g.f for g in self.geoms])

        def __iter__(self):
            return iter(self.geoms)

        def __len__(self):
            return len(self.geoms)

        def __getitem__(self, i):
            return self.geoms[i]

    class Point(Region):
        def __init__(self, *xy):
            self.xy = xy
            self.f = S.FALSE

        def intersects(self, o):
            return world.hit(self.xy, o)

    def union(gs):
        return Region.of(S.bor(*[g.f for g in gs]))
    geometry = module(
        Polygon=Region, MultiPolygon=Multi, Point=Point,
        GeometryCollection=Multi, polygon=module(
            orient=lambda p, sign=1.: p, Polygon=Region))
    ops = module(unary_union=union, cascaded_union=union)
    geometry.Region, geometry.Marker, geometry.area = Region, Marker, area
    return geometry, ops


def truth(f, m):
    """Value of a propositional formula over boolean variables."""
    if f.op == "true":
        return True
    if f.op == "false":
        return False
    if f.op == "bv":
        return m[f.id]
    a = [truth(x, m) for x in f.args]
    if f.op == "not":
        return not a[0]
    if f.op == "and":
        return all(a)
    if f.op == "or":
        return any(a)
    raise S.Unsupported("region " + f.op)
