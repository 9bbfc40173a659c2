"""C13: rotate_tensor transforms every index of a tensor with the given
matrix, for any rank, any matrix and any number of leading axes."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S

R = ["r%d%d" % (i, j) for i in range(3) for j in range(3)]
# (leading axes, rank, pass the rank?)
SHAPES = [((), 1, 1), ((), 2, 1), ((2,), 0, 0), ((2,), 1, 0), ((2,), 2, 0),
          ((2,), 2, 1), ((1,), 3, 0), ((2,), 0, 1), ((2, 2), 1, 1),
          ((3, 3), 2, 1), ((3, 3), 1, 1), ((1,), 4, 0), ((), 3, 1),
          ((1,), 5, 0)]
MORE = [((), 5, 1), ((2,), 5, 1)]


def shapes():
    return SHAPES + (MORE if harness.THOROUGH else [])


def name(j):
    return "c_" + "_".join(map(str, j))


def gen(r):
    d = {q: r.uniform(-1, 1) for q in R}
    for lead, n, g in SHAPES + MORE:
        for j in itertools.product(*map(range, lead + (3,)*n)):
            d[name(j)] = r.uniform(-1, 1)
    return d


def case(k):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(shape=k, env=e)
    return f


def build(np, get, lead, n):
    c = np.empty(lead + (3,)*n, object)
    for j in itertools.product(*map(range, c.shape)):
        c[j] = get(name(j))
    r = np.empty((3, 3), object)
    for q in R:
        r[int(q[1]), int(q[2])] = get(q)
    return c, r


def want(c, r, lead, n):
    """Index by index, without reordering axes."""
    t = {j: c[j] for j in itertools.product(*map(range, c.shape))}
    for a in range(len(lead), len(lead)+n):
        t = {j: sum((t[j[:a] + (k,) + j[a+1:]]*r[k, j[a]]
                     for k in (1, 2)), t[j[:a] + (0,) + j[a+1:]]*r[0, j[a]])
             for j in t}
    return t


def body(c):
    import numpy, npshim
    pkg = load.Pkg()
    u = pkg["utils"]
    c.encoded("utils.rotate_tensor")
    for k, (lead, n, given) in enumerate(shapes()):
        a, r = build(numpy, S.var, lead, n)
        a, r = npshim.oarr(a), npshim.oarr(r)
        a0 = a.copy()

        def run():
            return u.rotate_tensor(a, r, n) if given else \
                u.rotate_tensor(a, r)
        items = []
        for pc, q, exc in c.explore(run):
            tag = "leading %s rank %d%s" % (lead, n, " given"*given)
            ok = exc is None and tuple(q.shape) == a.shape
            c.fact("%s: shape (%r)" % (tag, exc), ok, case(k))
            c.fact("%s: the argument is left alone" % tag, all(
                x is y for x, y in zip(a.flat, a0.flat)), case(k))
            if ok:
                w = want(a, r, lead, n)
                items += [("%s %s" % (tag, j), q[j] - w[j], pc, case(k), gen)
                          for j in w]
        c.zeros(items)


def replay(case):
    import numpy as np
    from electrode import utils as u
    lead, n, given = (SHAPES + MORE)[case["shape"]]
    a, r = build(np, case["env"].get, lead, n)
    a, r = a.astype(float), r.astype(float)
    a0 = a.copy()
    q = u.rotate_tensor(a, r, n) if given else u.rotate_tensor(a, r)
    if q.shape != a.shape:
        return "shape %s" % (q.shape,)
    if (a != a0).any():
        return "the argument was changed"
    w = want(a, r, lead, n)
    for j in w:
        if abs(q[j] - w[j]) > 1e-9:
            return "rotated tensor of rank %d leading %s: entry %s is %g, " \
                "expected %g" % (n, lead, j, q[j], w[j])
    return None


if __name__ == "__main__":
    harness.main("C13", __file__, body, replay,
                 bounds="tensors of rank 0-5 with any entries, "
                 "any 3x3 matrix, with and without leading axes and explicit"
                 " rank",
                 outside="higher ranks",
                 fallback=lambda r: [case(k)(gen(r)) for k in
                                     range(len(SHAPES))])
