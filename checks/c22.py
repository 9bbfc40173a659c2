"""C22: System.solve gives the solver exactly the constraints and objectives
asked for: every set's constraints act on that set's voltages, coefficients
are the electrodes' unit potentials in the rotated frame, voltage derivative
terms are finite differences between sets, and all weighted objectives are
summed."""
import itertools
import types
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract
import fakecvx

NEL = 3
ELS = "abc"
POINTS = [(.1, .2, 1.), (.3, -.4, .9)]
NSET = 6
DERIVS = ["", "x", "z", "xx", "zz", "yx", "zy", "xyz", "zzz", "xxz", "zzxy"]


def gen(r):
    e = abstract.units(r, ELS, points=2, orders=5)
    e.update({"R%d%d" % (i, j): r.uniform(-1, 1) for i in range(3)
              for j in range(3)})
    e.update({"p%d_%d" % (i, j): r.uniform(-1, 1) for i in range(NSET)
              for j in range(NEL)})
    e.update({q: r.uniform(-1, 1) for q in ("o0", "o1", "o2", "v0", "v1",
                                            "lo", "lo2")})
    e.update({q: r.uniform(.1, 1) for q in ("w0", "w1", "w2", "hi", "hi2")})
    e.update(lo=-r.uniform(.1, .5), lo2=-r.uniform(.1, .5), ok=True)
    return e


# -- what is asked for ------------------------------------------------------
class Ask(object):
    """Builds the package's constraint objects and, next to them, what they
    mean: residuals (op, value) of the voltages and an objective."""

    def __init__(self, P, get, arr, comps):
        self.P, self.get, self.arr, self.comps = P, get, arr, comps
        self.res, self.obj = [], 0

    def v(self, q):
        return None if q is None else 0. if q == "0" else self.get(q)

    def row(self, s):
        return [self.get("p%d_%d" % (s, j)) for j in range(NEL)]

    def frame(self, rot):
        """Any matrix; a rotation where the Laplace equation is used."""
        if rot != "proper":
            return [[self.get("R%d%d" % (i, j)) for j in range(3)]
                    for i in range(3)]
        a, b, c, d = [self.get(q) for q in ("R00", "R01", "R02", "R10")]
        n = a*a + b*b + c*c + d*d
        return [[q/n for q in r] for r in [
            [a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
            [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
            [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]]]

    def coef(self, k, d, rot):
        out = []
        R = self.frame(rot)
        for el in ELS:
            c = self.comps(el, k, len(d))
            ix = tuple("xyz".index(a) for a in d)
            if not rot:
                out.append(abstract.entry(c, ix))
                continue
            t = 0
            for i in itertools.product(range(3), repeat=len(d)):
                w = abstract.entry(c, i)
                for a, b in zip(i, ix):
                    w = w*R[a][b]
                t = w + t
            out.append(t)
        return out

    def pot(self, s, k, d, rot=False, **kw):
        o = self.P.PotentialObjective(
            x=POINTS[k], derivative=d, rotation=self.arr(
                self.frame(rot)) if rot else None,
            **{q: self.v(w) for q, w in kw.items()})
        c = self.coef(k, d, rot)
        if s is not None:
            self.single(s, c, **kw)
        o.ref = c
        return o

    def single(self, s, c, offset=None, min=None, max=None, value=None):
        f = sum(a*b for a, b in zip(c, self.row(s)))
        if offset is not None:
            self.res.append(("==", f - self.v(offset)))
        if min is not None:
            self.res.append(("<=", self.v(min) - f))
        if max is not None:
            self.res.append(("<=", f - self.v(max)))

    def multi(self, s, parts, **kw):
        o = [self.pot(None, k, d, rot, value=w) for k, d, rot, w in parts]
        c = [sum(self.v(p[3])*q.ref[j] for p, q in zip(parts, o))
             for j in range(NEL)]
        self.single(s, c, **kw)
        return self.P.MultiPotentialObjective(
            components=o, **{q: self.v(w) for q, w in kw.items()})

    def range(self, sets, index=None, **kw):
        o = self.P.PatternRangeConstraint(
            index=index, **{q: self.v(w) for q, w in kw.items()})
        for s in sets:
            for j, p in enumerate(self.row(s)):
                if index is None or j == index:
                    if kw.get("min") is not None:
                        self.res.append(("<=", self.v(kw["min"]) - p))
                    if kw.get("max") is not None:
                        self.res.append(("<=", p - self.v(kw["max"])))
        return o

    def deriv(self, rows, order, delta=1, smooth=False, norm="one",
              abs=True, weight=None, min=None, max=None, default=False,
              inside=False):
        """rows: sequence of vectors, differenced along the sequence."""
        kw = {} if default else dict(delta=delta, smooth=smooth, norm=norm,
                                     abs=abs)
        o = self.P.VoltageDerivativeConstraint(
            order, weight=self.v(weight) or 0 if weight is None
            else self.v(weight), min=self.v(min), max=self.v(max), **kw)
        seq = [list(r) for r in rows]
        for i in range(order):
            if smooth and i % 2 == 0:
                # mirrored at both ends
                n = len(seq)
                seq = [seq[builtin_abs(j) if j < n else 2*(n-1)-j]
                       for j in range(-delta, n+delta)]
            seq = [[b - a for a, b in zip(seq[j], seq[j+delta])]
                   for j in range(len(seq)-delta)]
        for r in seq:
            r = [q*(1./delta**order) if delta > 1 else q for q in r]
            if abs:
                r = [builtin_abs(q) for q in r]
            f = sum(r[1:], r[0]) if norm == "one" else self.maxf(r)
            if weight is not None:
                self.obj = self.obj + self.v(weight)*f
            if min is not None:
                self.res.append(("<=", self.v(min) - f))
            if max is not None:
                self.res.append(("<=", f - self.v(max)))
        return o


builtin_abs = abs


def scenarios():
    """name -> fn(Ask) -> (local, global)"""
    out = {}
    for d in DERIVS:
        for rot in (False, True):
            if rot and not 0 < len(d) <= 3:
                continue
            if rot and "".join(sorted(d)) not in abstract.NAMES[len(d)]:
                rot = "proper"

            def f(A, d=d, rot=rot):
                return [[A.pot(0, 0, d, rot, offset="o0"),
                         A.pot(0, 1, d, rot, min="lo", max="hi")]], []
            out["derivative '%s'%s" % (d, " rotated" if rot else "")] = f

    def two(A):
        return [[A.pot(0, 0, "x", offset="o0"),
                 A.range([0], min="lo", max="hi")],
                [A.pot(1, 1, "y", True, min="lo", max="hi", offset="o1"),
                 A.range([1], 1, max="hi2")]], [
            A.deriv([A.row(0), A.row(1)], 1, weight="w0", default=True)]
    out["two sets"] = two

    def swapped(A):
        return [[A.range([0], 2, min="lo"), A.pot(0, 1, "z", max="hi")],
                [A.pot(1, 0, "z", min="lo2"), A.range([1], min="lo2")],
                [A.range([2], 0, min="lo", max="hi")]], [
            A.deriv([A.row(i) for i in range(3)], 1, weight="w0",
                    max="hi2", norm="inf")]
    out["three sets"] = swapped

    def zeros(A):
        return [[A.pot(0, 0, "x", offset="0"), A.pot(0, 1, "y", min="0"),
                 A.pot(0, 0, "zz", max="0"), A.range([0], 1, min="0"),
                 A.range([0], 0, max="0", min="lo")],
                [A.range([1], 2, min="0", max="0"),
                 A.range([1], 0, min="hi", max="hi")],
                [A.range([2], min="0", max="hi"),
                 A.pot(2, 1, "", offset="0", min="0", max="0")]], [
            A.deriv([A.row(i) for i in range(3)], 1, weight="w0", max="0",
                    min="0", abs=False)]
    out["limits at zero"] = zeros

    def multi(A):
        p = [(0, "xx", False, "v0"), (1, "yy", False, "v1")]
        q = [(0, "x", True, "w0"), (0, "yz", False, "v1"),
             (1, "", False, "w1")]
        return [[A.multi(0, p, offset="o0"), A.multi(0, q, min="lo")],
                [A.multi(1, q, max="hi"), A.multi(1, p, offset="o2",
                                                  min="lo")]], []
    out["combined potentials"] = multi

    def inside(A):
        # differences between electrodes of one set, weights on both sets
        return [[A.deriv([[q] for q in A.row(s)], 1, weight=w)]
                for s, w in ((0, "w0"), (1, "w1"))], [
            A.deriv([A.row(0), A.row(1)], 1, weight="w2")]
    out["objectives in every set"] = inside

    def none(A):
        return [[A.pot(0, 0, "x", offset="o0")]], []
    out["no objective"] = none

    def several(A):
        r = [A.row(i) for i in range(4)]
        return [[] for i in range(4)], [
            A.deriv(r, 1, weight="w0"),
            A.deriv(r, 2, weight="w1", max="hi"),
            A.deriv(r, 3, weight="w2", abs=False, min="lo", max="hi2")]
    out["several differences"] = several
    for order, delta, smooth, norm, n in [
            (1, 1, True, "one", 3), (2, 1, True, "one", 4),
            (2, 2, True, "inf", 5), (1, 2, False, "one", 4),
            (2, 2, False, "inf", 6), (3, 1, True, "one", 4),
            (3, 2, True, "one", 6), (0, 1, False, "one", 2)]:
        for ab in (True, False):
            def f(A, a=(order, delta, smooth, norm, ab, n)):
                o, de, sm, no, ab, n = a
                r = [A.row(i) for i in range(n)]
                return [[] for i in range(n)], [
                    A.deriv(r, o, de, sm, no, ab, weight="w0", min="lo",
                            max="hi")]
            out["difference %d step %d%s norm %s%s sets %d" % (
                order, delta, " mirrored" if smooth else "", norm,
                "" if ab else " signed", n)] = f
    return out


SC = scenarios()


def case(name):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(scenario=name, env=e)
    return f


def ask(P, name, get, arr, comps, maxf):
    A = Ask(P, get, arr, comps)
    A.maxf = maxf
    loc, glob = SC[name](A)
    return A, loc, glob


def split(rs):
    out = []
    for op, e in rs:
        if op == "==":
            out += [e, -e]
        else:
            out.append(e)
    return out


def smax(r):
    m = r[0]
    for q in r[1:]:
        m = S.ite(S.cmp_("<", m, q), q, m)
    return m


def body(c):
    import npshim, random
    oks = [True]
    fake = fakecvx.Fake(
        lambda k, n: [S.var("p%d_%d" % (k, j)) for j in range(n)],
        npshim.oarr, lambda: oks[0],
        lambda a, b: S.ite(S.cmp_("<", S.need(a), S.need(b)), S.need(b),
                           S.need(a)))
    pkg = load.Pkg(overrides={"cvxopt": fake.cvxopt,
                              "cvxopt.modeling": fake.modeling})
    c.encoded("system.System.solve", "system.System._run_cvxopt",
              "system.System.individual_potential",
              "pattern_constraints.PatternRangeConstraint.constraints",
              "pattern_constraints.SingleValueConstraint.constraints",
              "pattern_constraints.PotentialObjective.get",
              "pattern_constraints.MultiPotentialObjective.get",
              "pattern_constraints.VoltageDerivativeConstraint.get",
              "pattern_constraints.VoltageDerivativeConstraint.coef",
              "utils.expand_tensor", "utils.rotate_tensor",
              "utils.select_tensor", "utils.deriv_to_reduced_idx")
    P = pkg["pattern_constraints"]
    cls = abstract.electrode_class(pkg)
    s = pkg["system"].System([cls(name=q) for q in ELS])

    def comps(el, k, n):
        return abstract.unit(el, [S.need(S.lift(q)) for q in POINTS[k]], n)
    # the points get their numbers in this order
    for k in range(2):
        for n in range(1):
            comps("a", k, n)
    rng = random.Random(5)
    envs = [gen(rng) for i in range(3)]
    items = []
    w = [S.cmp_("<", S.ZERO, S.var(q)) for q in ("w0", "w1", "w2", "hi",
                                                 "hi2")]
    w += [S.cmp_("<", S.var(q), S.ZERO) for q in ("lo", "lo2")]
    for name in SC:
        ca = case(name)

        def go(good=True):
            fake.reset()
            oks[0] = good
            A, loc, glob = ask(P, name, S.var, npshim.oarr, comps, smax)
            u, cost = s.solve(loc, glob, verbose=False, abstol=1)
            return A, loc, u, cost, list(fake.problems)
        for pc, r, exc in c.explore(lambda: go(False), w):
            c.fact("%s: failure is reported" % name,
                   isinstance(exc, ValueError), lambda en: ca(
                       dict(en, ok=False)))
        for pc, r, exc in c.explore(go, w):
            c.fact("%s: no exception (%r)" % (name, exc), exc is None, ca)
            if exc:
                continue
            A, loc, u, cost, problems = r
            c.fact("%s: one problem" % name, len(problems) == 1, ca)
            c.fact("%s: options" % name, fake.cvxopt.solvers.options.get(
                "abstol") == 1 and not fake.cvxopt.solvers.options.get(
                "show_progress"), ca)
            p = problems[0]
            c.fact("%s: shape" % name, tuple(u.shape) == (len(loc), NEL), ca)
            if tuple(u.shape) != (len(loc), NEL):
                continue
            for i in range(len(loc)):
                for j in range(NEL):
                    items.append(("%s: voltage %d %d" % (name, i, j),
                                  S.need(u[i, j]) - S.var("p%d_%d" % (i, j)),
                                  pc, ca, gen))
            items.append(("%s: minimised" % name,
                          S.need(S.lift(p.objective.e[0]))
                          - S.need(S.lift(A.obj)), pc, ca, gen))
            items.append(("%s: value returned" % name, S.need(S.lift(cost))
                          - S.need(S.lift(A.obj)), pc, ca, gen))
            got = [S.need(S.lift(e)) for e in split(
                [(k.op, e) for k in p.ctrs for e in k.res.e])]
            want = [S.need(S.lift(e)) for e in split(A.res)]
            gv = [[S.evalf(e, en) for en in envs] for e in got]
            wv = [[S.evalf(e, en) for en in envs] for e in want]

            def near(a, b):
                return all(abs(x-y) < 1e-9 for x, y in zip(a, b))
            for i, e in enumerate(want):
                m = [j for j in range(len(got)) if near(gv[j], wv[i])]
                if m:
                    items.append(("%s: constraint %d" % (name, i),
                                  got[m[0]] - e, pc, ca, gen))
                else:
                    c.holds("%s: constraint %d" % (name, i),
                            S.cmp_("<=", e, S.ZERO),
                            list(pc) + [S.cmp_("<=", q, S.ZERO)
                                        for q in got], ca, gen)
            for j, e in enumerate(got):
                if not any(near(gv[j], x) for x in wv):
                    c.holds("%s: nothing else asked %d" % (name, j),
                            S.cmp_("<=", e, S.ZERO),
                            list(pc) + [S.cmp_("<=", q, S.ZERO)
                                        for q in want], ca, gen)
    c.zeros(items)


def replay(case):
    import numpy as np
    import electrode.system as es
    import electrode.pattern_constraints as pc
    e = dict(case["env"])
    name = case["scenario"]
    fake = fakecvx.Fake(lambda k, n: [e["p%d_%d" % (k, j)]
                                      for j in range(n)], np.array,
                        lambda: bool(e.get("ok", True)))
    old = es.cvxopt, pc.cvxopt
    es.cvxopt = pc.cvxopt = fake.cvxopt
    try:
        import electrode.electrode as el

        class Table(el.Electrode):
            def potential(self, x, derivative=0, potential=1., out=None):
                n = derivative
                if out is None:
                    out = np.zeros((len(x), 2*n+1))
                for j, q in enumerate(x):
                    k = [k for k, w in enumerate(POINTS)
                         if np.allclose(q, w)][0]
                    for i in range(2*n+1):
                        out[j, i] += potential*e[abstract.unit_name(
                            self.name, n, k, i)]
                return out
        s = es.System([Table(name=q) for q in ELS])

        def comps(q, k, n):
            return [e[abstract.unit_name(q, n, k, i)]
                    for i in range(2*n+1)]

        def go():
            fake.reset()
            A, loc, glob = ask(pc, name, e.get, np.array, comps, max)
            u, cost = s.solve(loc, glob, verbose=False, abstol=1)
            return A, loc, u, cost
        if not e.get("ok", True):
            try:
                go()
            except ValueError:
                return None
            return "an unsolved problem is not reported"
        try:
            A, loc, u, cost = go()
        except Exception as ex:
            return "raised %r" % ex
        if len(fake.problems) != 1:
            return "%d problems solved" % len(fake.problems)
        o = fake.cvxopt.solvers.options
        if o.get("abstol") != 1 or o.get("show_progress"):
            return "solver options %s" % o
        want = np.array([[e["p%d_%d" % (i, j)] for j in range(NEL)]
                         for i in range(len(loc))])
        if np.shape(u) != want.shape or not np.allclose(u, want):
            return "voltages %s, the solver's are %s" % (u, want)
        f = fake.problems[0].objective.e[0]
        if not np.allclose([f, cost], [A.obj]*2):
            return "minimises %s, returns %s, the objectives are %s" % (
                f, cost, A.obj)
        ps = ["p%d_%d" % (i, j) for i in range(len(loc))
              for j in range(NEL)]

        def both():
            A = go()[0]
            got = [(k.op, q) for k in fake.problems[0].ctrs
                   for q in k.res.e]
            return got, A.res
        start = dict(e)
        for way in (0, 1):
            e.update(start)
            # onto the equations of one side
            eqs = lambda: np.array([float(q) for op, q in both()[way]
                                    if op == "=="])
            y = eqs()
            if len(y):
                J = []
                for q in ps:
                    e[q] += 1
                    J.append(eqs() - y)
                    e[q] -= 1
                d = np.linalg.lstsq(np.array(J).T, -y, rcond=1e-10)[0]
                for q, k in zip(ps, d):
                    e[q] += float(k)
            r = both()
            viol = [max([0] + [abs(q) if op == "==" else q
                               for op, q in z]) for z in r]
            if viol[way] < 1e-8 and viol[1-way] > 1e-5:
                return "%s satisfied, %s violated by %s at %s" % (
                    ("what the solver got", "what was asked")[way],
                    ("what the solver got", "what was asked")[1-way],
                    viol[1-way], [e[q] for q in ps])
        # every inequality on its own: the side of random voltages
        rng = np.random.RandomState(1)
        G, W = [], []
        for k in range(4):
            for q in ps:
                e[q] = start[q] if not k else float(rng.uniform(-1, 1))
            a, b = both()
            G.append([float(q) for q in split(a)])
            W.append([float(q) for q in split(b)])
        if case.get("rows", True):
            for q, (a, b) in enumerate(((G, W), (W, G))):
                a, b = np.array(a).T, np.array(b).T
                for row in a:
                    if not any(np.allclose(row, z) for z in b):
                        # not the same form: only a separating point counts
                        for k in range(len(row)):
                            if row[k] > 1e-5 and len(b) and \
                                    max(b[:, k]) <= 0:
                                return "%s %s" % (
                                    ("more than asked for",
                                     "less than asked for")[q], row[k])
        return None
    finally:
        es.cvxopt, pc.cvxopt = old


def fb(r):
    out = []
    for name in SC:
        for k in range(2):
            g = gen(r)
            if k:
                for i in range(NSET):
                    for j in range(NEL):
                        g["p%d_%d" % (i, j)] *= .05
            out.append(case(name)(g))
    out.append(case("two sets")(dict(gen(r), ok=False)))
    return out


if __name__ == "__main__":
    harness.main("C22", __file__, body, replay,
                 bounds="3 electrodes with arbitrary unit potentials, 1-6 "
                 "sets, derivatives of order 0-4 (rotated: 1-3) at two "
                 "points, differences of order 0-3 with steps 1 and 2, "
                 "mirrored or not, both norms; any values, limits, weights "
                 "and any voltages",
                 outside="the linear program solver itself",
                 fallback=fb)
