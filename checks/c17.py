"""C17: grouping electrodes by voltage is a partition into the bins."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

NE = 4
PATHS = [2, 1, 1, 0]        # paths of each electrode


def gen(r):
    d = {"%s%d" % (k, i): r.uniform(-1, 1) for k in ("dc", "rf", "u")
         for i in range(NE)}
    d.update({"t%d" % i: q for i, q in enumerate(sorted(
        r.uniform(-1, 1) for i in range(3)))})
    d.update({q: r.uniform(-1, 1) for i in range(NE) for k in range(2)
              for q in pt(i, k)})
    for k in "dc", "u":
        if r.random() < .5:
            d[k+"1"] = d["t1"]
        if r.random() < .5:
            d[k+"2"] = d["t2"]
        if r.random() < .3:
            d[k+"0"] = d[k+"2"]
    return d


def pt(i, k):
    return ["p%d_%d_%d" % (i, k, j) for j in range(6)]


# number of thresholds (-1: None), voltages (None, list or array)
CASES = [(1, None), (0, None), (2, None), (3, "array"), (1, "list"),
         (2, "array"), (-1, None), (-1, "list"), ("default", None)]


def case(nt, vk):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(nt=nt, vk=vk, env=e)
    return f


def setup(get, nt, vk, arr):
    kw = {}
    ts = []
    if nt == -1:
        kw["thresholds"] = None
    elif nt == "default":
        ts = [0*get("dc0")]
    else:
        ts = [get("t%d" % i) for i in range(nt)]
        kw["thresholds"] = arr(ts) if nt == 2 else list(ts)
    vs = [get(("u%d" if vk else "dc%d") % i) for i in range(NE)]
    if vk:
        kw["voltages"] = arr(vs) if vk == "array" else list(vs)
    return ts, vs, kw


def path(get, i, k):
    q = [get(n) for n in pt(i, k)]
    return [q[:2], q[2:4], q[4:]]


def body(c):
    import npshim
    pkg = load.Pkg()
    el, Sys = pkg["electrode"], pkg["system"].System
    c.encoded("system.System.group", "system.System.dcs",
              "electrode.PolygonPixelElectrode.__init__")
    v = S.var
    for nt, vk in CASES:
        m = NE if nt in (0, 1, "default") or harness.THOROUGH and nt != -1 \
            else 3
        ts, vs, kw = setup(v, nt, vk, npshim.oarr)
        vs = vs[:m]
        if "voltages" in kw:
            kw["voltages"] = kw["voltages"][:m]
        up = [S.cmp_("<", a, b) for a, b in zip(ts, ts[1:])]
        ca = case(nt, vk)

        def run():
            s = Sys([el.PolygonPixelElectrode(
                paths=[npshim.oarr(path(v, i, k)) for k in range(PATHS[i])],
                dc=v("dc%d" % i), rf=v("rf%d" % i)) for i in range(m)])
            return s, list(s), s.group(**kw)
        tag0 = "thresholds %s voltages %s" % (nt, vk)
        for pc, r, exc in c.explore(run, up):
            c.fact("%s: no exception (%r)" % (tag0, exc), exc is None, ca)
            if exc:
                continue
            s, old, g = r
            c.fact("%s: a new system" % tag0, isinstance(g, Sys) and
                   g is not s and list(s) == old, ca)
            tt = ts
            if nt == -1:
                # one group per distinct voltage, in ascending order
                tt = distinct(vs, pc, c)
            c.fact("%s: number of groups" % tag0, len(g) == len(tt)+1, ca)
            if len(g) != len(tt)+1:
                continue
            have = {}
            for b, e in enumerate(g):
                for p in e.paths:
                    have.setdefault(
                        tuple(S.need(q).id for q in p.flat), []).append(b)
            for i in range(m):
                ok = all(len(have.get(tuple(
                    q.id for w in path(v, i, k) for q in w), ())) == 1
                    for k in range(PATHS[i]))
                c.fact("%s: every path is in one group" % tag0, ok, ca)
                if not ok:
                    continue
                bins = set(have[tuple(q.id for w in path(v, i, k)
                                      for q in w)][0]
                           for k in range(PATHS[i]))
                for b in bins:
                    lo = tt[b-1] <= vs[i] if b else S.TRUE
                    hi = vs[i] < tt[b] if b < len(tt) else S.TRUE
                    c.holds("%s: electrode %d is in its bin" % (tag0, i),
                            S.band(lo, hi), pc, case=ca, gen=gen)
            c.fact("%s: nothing else" % tag0, sum(
                len(e.paths) for e in g) == sum(PATHS[:m]), ca)
            # mean voltages: decide membership by the path condition
            for b, e in enumerate(g):
                mem = []
                for i in range(m):
                    lo = tt[b-1] <= vs[i] if b else S.TRUE
                    hi = vs[i] < tt[b] if b < len(tt) else S.TRUE
                    if c.P.prove(S.band(lo, hi), pc)[0] == "unsat":
                        mem.append(i)
                if not mem:
                    continue
                for q in ("dc", "rf"):
                    w = sum((v("%s%d" % (q, i)) for i in mem), S.ZERO)
                    c.zero("%s: mean %s of group %d" % (tag0, q, b),
                           S.need(getattr(e, q))*len(mem) - w, pc, case=ca,
                           gen=gen)


def distinct(vs, pc, c):
    """Representatives of the distinct values, ascending, given pc."""
    reps = []
    for a in vs:
        if not any(c.P.prove(S.cmp_("==", a, b), pc)[0] == "unsat"
                   for b in reps):
            reps.append(a)
    out = []
    while reps:
        for a in reps:
            if all(a is b or c.P.prove(S.cmp_("<", a, b), pc)[0] == "unsat"
                   for b in reps):
                out.append(a)
                reps = [b for b in reps if b is not a]
                break
        else:
            raise S.Unsupported("order of the voltages not decided")
    return out


def replay(case):
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    from electrode import PolygonPixelElectrode, System
    e, nt, vk = case["env"], case["nt"], case["vk"]
    ts, vs, kw = setup(e.get, nt, vk, np.array)
    if ts != sorted(set(ts)):
        return None
    if nt == -1:
        ts = sorted(set(vs))
    s = System([PolygonPixelElectrode(
        paths=[path(e.get, i, k) for k in range(PATHS[i])],
        dc=e["dc%d" % i], rf=e["rf%d" % i]) for i in range(NE)])
    g = s.group(**kw)
    if len(g) != len(ts)+1 or len(s) != NE:
        return "%d groups for %d thresholds" % (len(g), len(ts))
    t = [-np.inf] + ts + [np.inf]
    for b, q in enumerate(g):
        mem = [i for i in range(NE) if t[b] <= vs[i] < t[b+1]]
        want = sorted(path(e.get, i, k) for i in mem
                      for k in range(PATHS[i]))
        have = sorted(p.tolist() for p in q.paths)
        if want != have:
            return "group %d of thresholds %s voltages %s: paths %s, " \
                "expected those of electrodes %s" % (b, ts, vs, have, mem)
        for k in ("dc", "rf"):
            if mem and abs(getattr(q, k) - np.mean(
                    [e["%s%d" % (k, i)] for i in mem])) > 1e-12:
                return "%s of group %d: %s" % (k, b, getattr(q, k))
    return None


if __name__ == "__main__":
    harness.main("C17", __file__, body, replay,
                 bounds="four electrodes (three with two thresholds or more, or when they are to be "
                 "found) with up to two paths, any voltages, 0-3 ascending "
                 "thresholds or none given; voltages from the electrodes or "
                 "given as list or array",
                 outside="thresholds out of order; voltages of empty groups "
                 "(undefined); cover settings",
                 fallback=lambda r: [case(*k)(gen(r)) for k in CASES
                                     for j in range(3)])
