"""C12: naming and packing of harmonic derivative tensors: every entry of the
full tensor is recovered from the 2n+1 stored components by symmetry and the
Laplace equation, whatever the number of leading axes."""
import itertools
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import harness
from harness import load, S
import abstract

LEAD = [(), (2,), (1,), (2, 2)]


def comps(n, lead=(2, 2)):
    """names of the stored components of a batch of tensors"""
    return ["c%d_%s_%d" % (n, "_".join(map(str, j)), i)
            for j in itertools.product(*map(range, lead))
            for i in range(2*n+1)]


def gen(r):
    return {q: r.uniform(-1, 1) for n in range(6) for q in comps(n)}


def case(n):
    def f(en):
        e = gen(__import__("random").Random(3))
        e.update(en)
        return dict(order=n, env=e)
    return f


def batches(n, lead, get):
    for j in itertools.product(*map(range, lead)):
        k = (0,)*(2-len(j)) + j
        yield j, [get("c%d_%s_%d" % (n, "_".join(map(str, k)), i))
                  for i in range(2*n+1)]


def claims(u, np, n, get, arr):
    """(name, value that must be zero) or (name, bool)."""
    for lead in LEAD:
        c = np.empty(lead + (2*n+1,), object)
        for j, v in batches(n, lead, get):
            for i in range(2*n+1):
                c[j + (i,)] = v[i]
        c = arr(c)
        for order in (None, n):
            tag = "order %d lead %s%s" % (n, lead, "" if order is None
                                          else " given")
            f = u.expand_tensor(c) if order is None else \
                u.expand_tensor(c, order)
            yield tag + ": full shape", tuple(f.shape) == lead + (3,)*n
            for j, v in batches(n, lead, get):
                for ix, w in abstract.full(v, n).items():
                    yield "%s: entry %s %s" % (tag, j, ix), f[j+ix] - w
                if n >= 2:
                    for a, b in itertools.combinations(range(n), 2):
                        for rest in itertools.product(range(3), repeat=n-2):
                            s = 0
                            for k in range(3):
                                ix = list(rest)
                                ix.insert(a, k)
                                ix.insert(b, k)
                                s = s + f[j+tuple(ix)]
                            yield "%s: trace %d %d %s" % (tag, a, b, rest), s
            if order is None and len(lead) != 1:
                continue
            g = u.select_tensor(f) if order is None else \
                u.select_tensor(f, order)
            # a single value keeps its one-component axis
            ok = tuple(g.shape) == lead + (2*n+1,)
            yield tag + ": reduced shape", ok
            if ok:
                for j, v in batches(n, lead, get):
                    for i in range(2*n+1):
                        yield "%s: select %s %d" % (tag, j, i), \
                            g[j+(i,)] - v[i]
    v = dict(batches(n, (), get))[()]
    names = abstract.NAMES[n]
    for i, q in enumerate(names):
        yield "%s: position" % q, tuple(u.name_to_deriv(q)) == (n, i)
        yield "%s: name" % q, u.deriv_to_name(n, i) == q
        if n:
            (m, k), ax = u.construct_derivative(n, i)
            ok = m == n-1 and 0 <= k < 2*m+1 and ax in (0, 1, 2)
            yield "%s: parent" % q, ok
            if ok:
                ix = tuple("xyz".index(a) for a in abstract.NAMES[m][k])
                yield "%s: derivative of its parent" % q, \
                    v[i] - abstract.entry(v, ix + (ax,))
    for ix in itertools.product(range(3), repeat=n):
        q = "".join("xyz"[a] for a in ix)
        yield "%s: axes" % q, tuple(u.name_to_idx(q)) == ix
        yield "%s: sorted name" % q, u.idx_to_name(ix) == "".join(sorted(q))
        r = u.deriv_to_reduced_idx(q)
        r = list(r) if isinstance(r, (tuple, list)) else r
        w = -v[r[0]] - v[r[1]] if isinstance(r, list) else v[r]
        yield "%s: reduced index" % q, w - abstract.entry(v, ix)
        flat = u.idx_to_nidx(ix)
        yield "%s: flat index" % q, flat == sum(
            a*3**(n-1-b) for b, a in enumerate(ix))
        # pairs of tensors that complete the trace
        for a, b in u.find_laplace(ix):
            yield "%s: Laplace %s %s" % (q, a, b), \
                abstract.entry(v, ix) + abstract.entry(v, tuple(a)) \
                + abstract.entry(v, tuple(b))


def body(c):
    import numpy, npshim
    pkg = load.Pkg()
    u = pkg["utils"]
    c.encoded("utils.expand_tensor", "utils.select_tensor",
              "utils.name_to_deriv", "utils.deriv_to_name",
              "utils.name_to_idx", "utils.idx_to_name", "utils.idx_to_nidx",
              "utils.find_laplace", "utils.construct_derivative",
              "utils.deriv_to_reduced_idx", "utils._populate_maps")
    for n in range(6):
        def run():
            return list(claims(u, numpy, n, S.var, npshim.oarr))
        items = []
        for pc, r, exc in c.explore(run):
            c.fact("order %d: no exception (%r)" % (n, exc), exc is None,
                   case(n))
            for name, e in r or ():
                if isinstance(e, bool):
                    c.fact(name, e, case(n))
                else:
                    items.append((name, e, pc, case(n), gen))
        c.zeros(items)


def replay(case):
    import numpy as np
    from electrode import utils as u
    e = case["env"]
    try:
        for name, x in claims(u, np, case["order"], e.get,
                              lambda a: np.array(a, float)):
            if isinstance(x, (bool, np.bool_)):
                if not x:
                    return "%s is wrong" % name
            elif abs(x) > 1e-9:
                return "%s is off by %g" % (name, x)
    except (IndexError, KeyError, ValueError, TypeError) as ex:
        return "raised %r" % ex
    return None


if __name__ == "__main__":
    harness.main("C12", __file__, body, replay,
                 bounds="derivative orders 0-5; tensors with any components;"
                 " no, one or two leading axes of length 1 or 2; every "
                 "derivative name up to five letters",
                 outside="longer leading axes, orders above 5 (not defined)",
                 fallback=lambda r: [case(n)(gen(r)) for n in range(6)])
