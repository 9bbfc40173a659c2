"""C16: temporary voltages are in force inside the block and undone after it,
however the block ends; voltages, names and electrodes are what was set."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

N = 3
EL = ["ab1", "ab", "a"]
KINDS = ("list", "tuple", "array", "gen")
SW = ["d1", "r1", "d2", "r2", "nest", "early", "late", "inner", "change"]


class Boom(Exception):
    pass


def gen(r):
    d = {"%s%d" % (k, i): r.uniform(-2, 2)
         for k in ("dc", "rf", "d1_", "r1_", "d2_", "r2_", "ch")
         for i in range(N)}
    d.update({q: r.uniform(-1, 1) for q in "xyz"})
    d.update({q: r.random() < .5 for q in SW})
    d["early"] = d["early"] and r.random() < .5
    d.update(abstract.units(r, EL, 1, 2))
    return d


def case(kind):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(kind=kind, env=e)
    return f


def scenario(s, get, on, kind, arr, x):
    """Runs blocks with the given switches; yields (what, got, expected)."""
    out = []

    def vals(p):
        v = [get("%s%d" % (p, i)) for i in range(N)]
        return {"list": list, "tuple": tuple, "array": arr,
                "gen": lambda u: (q for q in u)}[kind](v), v

    def look(tag, d, r):
        for i, e in enumerate(s):
            out.append((tag + " dc%d" % i, e.dc, d[i]))
            out.append((tag + " rf%d" % i, e.rf, r[i]))
        for i, (p, q) in enumerate(zip(s.dcs, s.rfs)):
            out.append((tag + " dcs%d" % i, p, d[i]))
            out.append((tag + " rfs%d" % i, q, r[i]))
        for typ, w in (("dc", d), ("rf", r)):
            p = s.electrical_potential(x, 0, typ, expand=True)[0]
            out.append(("%s %s potential" % (tag, typ), p, sum(
                (get(abstract.unit_name(EL[i], 0, 0, 0))*w[i]
                 for i in range(1, N)),
                get(abstract.unit_name(EL[0], 0, 0, 0))*w[0])))

    d0, r0 = vals("dc")[1], vals("rf")[1]
    d1 = d0
    r1 = r0
    ret = None
    try:
        kw = {}
        if on("d1"):
            kw["dcs"], d1 = vals("d1_")
        if on("r1"):
            kw["rfs"], r1 = vals("r1_")
        with s.with_voltages(**kw):
            look("inside", d1, r1)
            if on("early"):
                raise Boom
            if on("nest"):
                try:
                    kw, d2, r2 = {}, d1, r1
                    if on("d2"):
                        kw["dcs"], d2 = vals("d2_")
                    if on("r2"):
                        kw["rfs"], r2 = vals("r2_")
                    with s.with_voltages(**kw):
                        look("nested", d2, r2)
                        if on("inner"):
                            raise Boom
                except Boom:
                    out.append(("inner exception passed on", on("inner"),
                                True))
                look("after nested", d1, r1)
            if on("change"):
                if on("d1"):
                    s.dcs = [get("ch%d" % i) for i in range(N)]
                if on("r1"):
                    for i, e in enumerate(s):
                        e.rf = get("ch%d" % i)
            if on("late"):
                raise Boom
        ret = "end"
    except Boom:
        ret = "raised"
    out.append(("way out", ret, "raised" if on("early") or on("late")
                else "end"))
    look("after", d0, r0)
    return out


def accessors(s, El, get, arr):
    """(what, got, expected) for setters and lookups."""
    out = []
    es = list(s)
    for k in range(-N, N):
        out.append(("index %d" % k, s[k], es[k]))
        out.append(("electrode %d" % k, s.electrode(k), es[k]))
    for k, e in zip(EL, es):
        out.append(("name " + k, s[k], e))
        out.append(("electrode " + k, s.electrode(k), e))
    for k in ("d", "", "A", "b", "ab2", None):
        out.append(("no %r" % (k,), s[k] if k is not None else None, None))
    for k in (N, -N-1, 7):
        try:
            s[k]
            out.append(("index %d" % k, "no error", "IndexError"))
        except IndexError:
            pass
    out.append(("names", list(s.names), EL))
    s.names = ["p", "q", "p"]
    out.append(("set names", [e.name for e in es], ["p", "q", "p"]))
    out.append(("first of a name", s["p"], es[0]))
    out.append(("old name", s["a"], None))
    s.names = EL
    out.append(("length", len(s), N))
    for p in ("dc", "rf"):
        for kind in ("list", "array"):
            v = [get("%s%d" % (p, i)) for i in range(N)][::-1]
            setattr(s, p+"s", arr(v) if kind == "array" else v)
            for i in range(N):
                out.append(("set %ss %d" % (p, i), getattr(es[i], p), v[i]))
                out.append(("get %ss %d" % (p, i), getattr(s, p+"s")[i],
                            v[i]))
    # a system is a list of the electrodes it was given
    t = type(s)(es[:2])
    out.append(("own list", [len(t), t[0], t[1]], [2, es[0], es[1]]))
    t.append(es[2])
    out.append(("copy", [len(t), len(s)], [3, 3]))
    out.append(("empty", len(type(s)()), 0))
    return out


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or (isinstance(a, (str, int, bool))
                      and type(a) is type(b) and a == b)


def body(c):
    import npshim
    pkg = load.Pkg()
    A = abstract.electrode_class(pkg)
    Sys = pkg["system"].System
    c.encoded("system.System.with_voltages", "system.System.dcs",
              "system.System.rfs", "system.System.names",
              "system.System.__getitem__", "system.System.__init__",
              "system.System.electrical_potential")
    v = S.var
    X = [v(q) for q in "xyz"]
    abstract.point_id(X)
    x = npshim.oarr([X])

    def fresh():
        return Sys([A(name=e, dc=v("dc%d" % i), rf=v("rf%d" % i))
                    for i, e in enumerate(EL)])
    nz = [S.bnot(S.cmp_("==", v("%s%d" % (k, i)), S.ZERO))
          for k in ("dc", "rf", "d1_", "r1_", "d2_", "r2_", "ch")
          for i in range(N)]

    def add(items, tag, r, pc, ca):
        for what, got, want in r:
            nm = "%s: %s" % (tag, what)
            g, w = S.lift(got) if got is not None else None, None
            if g is not None and not isinstance(got, (bool, int)):
                w = S.lift(want)
            if w is not None:
                items.append((nm, g - w, pc, ca, gen))
            else:
                c.fact(nm, same(got, want), ca)
    for kind in KINDS:
        def run():
            return scenario(fresh(), v, lambda q: (
                kind == "list" or q in ("d1", "r1", "late")) and
                bool(S.bvar(q)), kind, npshim.oarr, x)
        items = []
        for k, (pc, r, exc) in enumerate(c.explore(run, nz)):
            c.fact("%s: no exception (%r)" % (kind, exc), exc is None,
                   case(kind))
            add(items, kind, r or (), pc, case(kind))
        c.zeros(items)
    items = []
    for pc, r, exc in c.explore(
            lambda: accessors(fresh(), A, v, npshim.oarr), nz):
        c.fact("accessors: no exception (%r)" % exc, exc is None,
               case("access"))
        add(items, "accessors", r or (), pc, case("access"))
    c.zeros(items)


def replay(case):
    import numpy as np
    from electrode import System
    e = case["env"]
    T = abstract.table_electrode(e)
    s = System([T(name=w, dc=e["dc%d" % i], rf=e["rf%d" % i])
                for i, w in enumerate(EL)])
    x = np.array([[e[q] for q in "xyz"]])
    if case["kind"] == "access":
        r = accessors(s, T, e.get, np.array)
    else:
        r = scenario(s, e.get, lambda q: e[q], case["kind"], np.array, x)
    for what, got, want in r:
        ok = abs(got - want) < 1e-9 if isinstance(
            want, float) and got is not None else same(got, want)
        if not ok:
            return "%s: %r, expected %r" % (what, got, want)
    return None


if __name__ == "__main__":
    harness.main("C16", __file__, body, replay,
                 bounds="three electrodes, any voltages before, inside and "
                 "in nested blocks, any subset of dc and rf given, as list, "
                 "tuple, array or iterator, exceptions before, in or after "
                 "the nested block, voltages overwritten inside",
                 outside="nonzero voltages (zero ones: C07); more than two "
                 "nested blocks; concurrent use",
                 fallback=lambda r: [case(k)(gen(r)) for k in
                                     KINDS + ("access",) for j in range(8)])
