"""z3 decides claims about symx terms."""
import math
import os
import pickle
import random
import select
import signal
import sys
import time
from fractions import Fraction

import symx as S
from symx import E, B, ONE, ZERO, topo, const, var

_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_p)
    try:
        import z3
    finally:
        sys.path.remove(_p)

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0,
         "feasibility": 0, "max_dag": 0}


class Translator(object):
    """E/B -> z3, with side conditions for sqrt, abs, functions."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.n = 0
        self.nonlinear = False
        self.fns = {}
        self.keep = []

    def fresh(self, p):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def __call__(self, root):
        memo = self.memo
        self.keep.append(root)
        for n in topo(root):
            if n.id in memo:
                continue
            a = [memo[x.id] for x in n.args]
            op = n.op
            if isinstance(n, B):
                if op == "true":
                    r = z3.BoolVal(True)
                elif op == "false":
                    r = z3.BoolVal(False)
                elif op == "bv":
                    r = z3.Bool(S._bnames[n.id])
                elif op == "<":
                    r = a[0] < a[1]
                elif op == "<=":
                    r = a[0] <= a[1]
                elif op == "==":
                    r = a[0] == a[1]
                elif op == "not":
                    r = z3.Not(a[0])
                elif op == "and":
                    r = z3.And(*a)
                elif op == "or":
                    r = z3.Or(*a)
            elif op == "c":
                r = z3.RealVal(str(n.val))
            elif op == "v":
                # names starting with "#" are integers
                r = z3.ToReal(z3.Int(n.val)) if n.val[0] == "#" \
                    else z3.Real(n.val)
                self.vars[n.val] = r
                if n.val == "pi":
                    self.side += [r > z3.RealVal("3.14159265358979"),
                                  r < z3.RealVal("3.1415926535898")]
            elif op == "+":
                r = a[0] + a[1]
            elif op == "*":
                r = a[0]*a[1]
                if n.args[0].op != "c" and n.args[1].op != "c":
                    self.nonlinear = True
            elif op == "/":
                # defined divisions only: q*b == a, b != 0
                if n.args[0].op == "c" and n.args[1].op == "c":
                    r = a[0]/a[1]
                else:
                    r = self.fresh("q")
                    self.side += [r*a[1] == a[0], a[1] != 0]
            elif op == "^":
                r = a[0]**n.val
            elif op == "sqrt":
                r = self.fresh("s")
                self.side += [r >= 0, r*r == a[0]]
            elif op == "abs":
                r = z3.If(a[0] >= 0, a[0], -a[0])
            elif op == "ite":
                r = z3.If(a[0], a[1], a[2])
            elif op == "f":
                r = self._fn(n, a)
            else:
                raise S.Unsupported(op)
            memo[n.id] = r
        return memo[root.id]

    def _fn(self, n, a):
        k = n.val
        if k in ("cos", "sin"):
            key = n.args[0].id
            if key not in self.fns:
                c, s = self.fresh("cos"), self.fresh("sin")
                self.fns[key] = (c, s)
                self.side.append(c*c + s*s == 1)
            return self.fns[key][0 if k == "cos" else 1]
        if k == "floor":
            i = z3.ToReal(z3.ToInt(a[0]))
            return i
        f = z3.Function(k, *([z3.RealSort()]*(len(a)+1)))
        r = f(*a)
        if k == "exp":
            self.side.append(r > 0)
        if k in ("atan2", "atan"):
            pass
        return r


def _model_env(m, tr):
    env = {}
    for name, v in tr.vars.items():
        env[name] = _num(m.eval(v, model_completion=True))
    for d in m.decls():
        if d.arity() == 0 and d.range() == z3.BoolSort():
            env[d.name()] = z3.is_true(m[d])
    return env


def _num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


def check(conds, timeout=20000, feas=False):
    """-> ('unsat'|'sat'|'unknown', env)"""
    tr = Translator()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    t = time.time()
    fs = [tr(c) for c in conds]
    STATS["max_dag"] = max(STATS["max_dag"], len(tr.memo))
    for f in fs:
        s.add(f)
    for f in tr.side:
        s.add(f)
    if len(tr.memo) > 120 or len(tr.memo) > 40 and tr.nonlinear:
        r, env = _forked(s, tr, timeout)
    else:
        r, env = _solve(s, tr)
    dt = time.time() - t
    STATS["time"] += dt
    if feas:
        STATS["feasibility"] += 1
    else:
        STATS["queries"] += 1
        STATS[r] += 1
    return r, env


def _solve(s, tr):
    r = str(s.check())
    env = None
    if r == "sat":
        try:
            env = _model_env(s.model(), tr)
        except z3.Z3Exception:
            env = {}
    return r, env


def _forked(s, tr, timeout):
    """Arithmetic on large algebraic numbers does not look at the solver's
    own time limit: solve in a child that can be ended."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(_solve(s, tr), f)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        got = b""
        end = time.time() + timeout/1000.*1.3 + .3
        while True:
            ok = select.select([rd], [], [], max(0, end - time.time()))[0]
            b = os.read(rd, 1 << 16) if ok else b""
            if not b:
                break
            got += b
        try:
            return pickle.loads(got)
        except Exception:
            return "unknown", None
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)


FEAS = 3000
_good = []
_rng = random.Random(11)


def _surely(conds, env):
    """The conditions hold at the point, with a margin."""
    v = {}
    for n in topo(*conds):
        a = [v[x.id] for x in n.args]
        if isinstance(n, E):
            if n.op == "ite" and a[0] is None:
                return False
            v[n.id] = S.eval1(n, a, env)
            continue
        op = n.op
        if op in ("<", "<=", "=="):
            d = a[1] - a[0]
            m = 1e-7*(1 + abs(a[0]) + abs(a[1]))
            r = None if not abs(d) > m else d > 0 if op != "==" else False
        elif op == "not":
            r = None if a[0] is None else not a[0]
        elif op == "and":
            r = False if False in a else None if None in a else True
        elif op == "or":
            r = True if True in a else None if None in a else False
        else:
            r = S.eval1(n, a, env)
        v[n.id] = r
    return all(v[q.id] is True for q in conds)


def _sampled(conds):
    vs, bs = [], []
    for n in topo(*conds):
        if isinstance(n, E) and n.op == "v":
            vs.append(n.val)
        elif isinstance(n, B) and n.op == "bv":
            bs.append(S._bnames[n.id])
    if len(vs) > 400:
        return False
    for k in range(24):
        if k < len(_good):
            env = dict(_good[-1-k])
        else:
            w = (1, 3, .3)[k % 3]
            env = {}
        for q in vs:
            if q not in env:
                env[q] = math.pi if q == "pi" else \
                    _rng.randint(-2, 4) if q[0] == "#" else \
                    _rng.uniform(-1, 1)*(1 if k < len(_good) else w)
        for q in bs:
            if q not in env:
                env[q] = _rng.random() < .5
        try:
            ok = _surely(conds, env)
        except (ArithmeticError, ValueError, KeyError, TypeError):
            continue
        if ok:
            if env not in _good:
                _good.append(env)
                del _good[:-8]
            return True
    return False


def feasible(conds):
    conds = [S.tob(q) for q in conds]
    if _sampled(conds):
        STATS["feasibility"] += 1
        return True
    r, _ = check(conds, timeout=FEAS, feas=True)
    return r != "unsat"


# --------------------------------------------------------------------------
# fractions and radicals

def _factors(f, m, out):
    """Split a denominator into factors; returns rational constant."""
    if f.op == "c":
        return f.val**m
    if f.op == "*":
        return _factors(f.args[0], m, out)*_factors(f.args[1], m, out)
    if f.op == "^":
        return _factors(f.args[0], m*f.val, out)
    out[f] = out.get(f, 0) + m
    return Fraction(1)


def frac(*es):
    """Each e as (numerator term, {factor: exponent}); divisions removed.
    Non-arithmetic nodes (sqrt, functions, ...) are atoms."""
    memo = {}
    for n in topo(*es):
        if isinstance(n, B):
            continue
        op = n.op
        if op in ("c", "v", "sqrt", "f", "abs", "ite"):
            memo[n.id] = (n, {})
            continue
        a = [memo[x.id] for x in n.args]
        if op == "+":
            (p, P), (q, Q) = a
            if not P and not Q:
                memo[n.id] = (p + q, {})
                continue
            L = dict(P)
            for k, v in Q.items():
                L[k] = max(L.get(k, 0), v)

            def up(p, P):
                for k, v in L.items():
                    m = v - P.get(k, 0)
                    if m:
                        p = p*k**m
                return p
            r = (up(p, P) + up(q, Q), L)
        elif op == "*":
            (p, P), (q, Q) = a
            L = dict(P)
            for k, v in Q.items():
                L[k] = L.get(k, 0) + v
            r = (p*q, L)
        elif op == "/":
            (p, P), (q, Q) = a
            L = dict(P)
            c = _factors(q, 1, L)
            if c == 0:
                raise ZeroDivisionError
            p = p*const(1/c)
            for k, v in Q.items():
                p = p*k**v
            r = (p, L)
        elif op == "^":
            (p, P), = a
            r = (p**n.val, {k: v*n.val for k, v in P.items()})
        else:
            raise S.Unsupported(op)
        # cancel a numerator that is itself one of the factors
        memo[n.id] = r
    return [memo[e.id] for e in es]


def _innerdiv(e):
    return any(n.op == "/" for n in topo(e) if isinstance(n, E))


def radical_split(num, limit=64):
    """num: division-free term.  Write it as sum over products of distinct
    radicals times radical-free terms; returns {frozenset(ids): term} and
    the radical nodes.  Radicals nested in radicals stay atoms inside the
    radicand (radicands must be division-free)."""
    rads = {}
    memo = {}

    def combine(x, y):
        r = {}
        for k, p in x.items():
            for l, q in y.items():
                t = p*q
                for i in k & l:
                    t = t*rads[i].args[0]
                s = k ^ l
                r[s] = r[s] + t if s in r else t
        if len(r) > limit:
            raise S.Unsupported("too many radicals")
        return {k: v for k, v in r.items() if v is not ZERO}

    for n in topo(num):
        if isinstance(n, B):
            continue
        op = n.op
        if op == "sqrt":
            rads[n.id] = n
            memo[n.id] = {frozenset([n.id]): ONE}
        elif op in ("c", "v", "f", "abs", "ite"):
            memo[n.id] = {frozenset(): n}
        elif op == "+":
            a, b = memo[n.args[0].id], memo[n.args[1].id]
            r = dict(a)
            for k, v in b.items():
                r[k] = r[k] + v if k in r else v
            memo[n.id] = {k: v for k, v in r.items() if v is not ZERO}
        elif op == "*":
            memo[n.id] = combine(memo[n.args[0].id], memo[n.args[1].id])
        elif op == "^":
            base = memo[n.args[0].id]
            k = n.val
            if set(base) <= {frozenset()}:
                b = base.get(frozenset(), ZERO)
                memo[n.id] = {frozenset(): b**k}
            else:
                # square and multiply
                r = {frozenset(): ONE}
                while k:
                    if k & 1:
                        r = combine(r, base)
                    base = combine(base, base) if k > 1 else base
                    k >>= 1
                memo[n.id] = r
        else:
            raise S.Unsupported("radical_split: %s" % op)
    return memo[num.id], rads


def flatten_radicands(e):
    """Rewrite sqrt(p/q) so radicands are division free:
    sqrt(p/q) = sqrt(p*q')/q'' for q >= 0.. only used when needed."""
    m = {}
    for n in topo(e):
        if isinstance(n, E) and n.op == "sqrt" and _innerdiv(n.args[0]):
            (p, P), = frac(S.subst(n.args[0], m))
            den = ONE
            odd = ONE
            for k, v in P.items():
                den = den*k**((v+1)//2)
                if v % 2:
                    odd = odd*k
            # p / (prod k^v) = p*odd / den^2
            r = S.sqrt(p*odd)/S.absf(den)
            m[n] = r
    return S.subst(e, m) if m else e


def trig_reduce(e):
    """sin(x)^2 -> 1 - cos(x)^2 by treating sin as a radical-like atom."""
    m = {}
    for n in topo(e):
        if isinstance(n, E) and n.op == "f" and n.val == "sin":
            c = S.fn("cos", n.args[0])
            m[n] = S._mk("sqrt", (ONE - c*c,), None)
    return m


def zero_coeffs(e):
    """Radical/trig-free terms which are all zero iff e is zero (sufficient;
    necessary when radicals are independent)."""
    m = trig_reduce(e)
    e = S.subst(e, m) if m else e
    e = flatten_radicands(e)
    (num, den), = frac(e)
    co, rads = radical_split(num)
    out = []
    for k, t in co.items():
        if any(n.op == "sqrt" for n in topo(t)):
            # nested radicals in a coefficient: split again
            c2, r2 = radical_split(t)
            out += list(c2.values())
        else:
            out.append(t)
    return out, den


def unify(e, assume=(), hints=()):
    """Merge radicals / atan2 / ratios that denote the same function: grouped
    by value at random points, and each merge is proved by z3.
    hints: {name} extra candidate terms b with sqrt(a) == b to try."""
    rng = random.Random(7)
    e = S.normalize(e)
    for _ in range(6):
        nodes = [n for n in topo(e) if isinstance(n, E) and n.op == "sqrt"]
        if len(nodes) < 2 and not hints:
            break
        m = {}
        vs = variables_of(e)
        envs = []
        for k in range(40):
            en = {v: rng.uniform(-1.5, 1.5) for v in vs}
            try:
                if all(S.evalf(a, en) for a in assume):
                    S.evalf(nodes, en)
                    envs.append(en)
            except Exception:
                pass
            if len(envs) == 3:
                break
        if not envs:
            break
        try:
            rows = [S.evalf(nodes, en) for en in envs]
        except Exception:
            break
        reps = []
        for i, n in enumerate(nodes):
            key = [r[i] for r in rows]
            for rk, rn in reps:
                if all(abs(a-b) < 1e-9*(abs(a)+abs(b)+1e-30)
                       for a, b in zip(key, rk)):
                    r, _ = prove_zero0(n.args[0] - rn.args[0], assume)
                    if r == "unsat":
                        m[n] = rn
                        break
            else:
                done = False
                for h in hints:
                    try:
                        hv = [S.evalf(h, en) for en in envs]
                    except Exception:
                        continue
                    if h is not n and all(abs(a-b) < 1e-9*(
                            abs(a)+abs(b)+1e-30) for a, b in zip(key, hv)):
                        r, _ = prove_zero0(n.args[0] - h*h, assume)
                        r2, _ = check(list(assume) + [
                            S.cmp_("<", h, ZERO)]) if r == "unsat" else (0, 0)
                        if r == "unsat" and r2 == "unsat":
                            m[n] = h
                            done = True
                            break
                if not done:
                    reps.append((key, n))
        if not m:
            break
        e2 = S.normalize(S.subst(e, m))
        if e2 is e:
            break
        e = e2
        hints = ()
    return e


def variables_of(e):
    return [v for v in S.variables(e) if v != "pi"]


def prove_zero(e, assume=(), timeout=20000, hints=()):
    if e is not ZERO:
        e = S.lincollect(e)
    if e is not ZERO and any(isinstance(n, E) and n.op == "sqrt"
                             for n in topo(e)):
        nr = sum(1 for n in topo(e) if isinstance(n, E) and n.op == "sqrt")
        if nr > 1 or hints:
            e = unify(e, assume, hints)
    return prove_zero0(e, assume, timeout)


def prove_zero0(e, assume=(), timeout=20000):
    """Is e == 0 wherever it is defined (under assume)?
    -> ('unsat', None) proven; ('sat', env); ('unknown', None)."""
    if e is ZERO:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat", None
    assume = list(assume)
    # eliminate abs by cases
    for n in topo(e):
        if isinstance(n, E) and n.op == "abs" or \
                isinstance(n, E) and n.op == "ite":
            if n.op == "abs":
                c = S.cmp_("<=", ZERO, n.args[0])
                alts = [(c, n.args[0]), (S.bnot(c), -n.args[0])]
            else:
                c = n.args[0]
                alts = [(c, n.args[1]), (S.bnot(c), n.args[2])]
            worst = "unsat"
            for cc, rep in alts:
                if cc is S.FALSE:
                    continue
                m = {n: rep}
                r, env = prove_zero0(
                    S.subst(e, m), [S.subst(a, m) for a in assume] + [cc],
                    timeout)
                if r == "sat":
                    return r, env
                if r == "unknown":
                    worst = r
            return worst, None
    coeffs, den = zero_coeffs(e)
    worst = "unsat"
    for t in coeffs:
        if t is ZERO:
            STATS["queries"] += 1
            STATS["unsat"] += 1
            continue
        q = S.bnot(S.cmp_("==", t, ZERO))
        r, env = check([q], timeout)
        if r == "unsat":
            continue
        if assume or r == "unknown":
            nz = [S.bnot(S.cmp_("==", k, ZERO)) for k in den]
            r, env = check([q] + assume + nz, timeout)
            if r == "unsat":
                continue
        if r == "sat":
            return r, env
        worst = r
    return worst, None


def prove(claim, assume=(), timeout=20000):
    """claim: B.  unsat = holds."""
    claim = S.tob(claim)
    if claim is S.TRUE:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat", None
    if claim.op == "==":
        return prove_zero(claim.args[0] - claim.args[1], assume, timeout)
    return check(list(assume) + [S.bnot(claim)], timeout)
