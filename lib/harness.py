"""Common frame of every check: claims, counterexample replay, evidence."""
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import symx as S
import load

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


def under(pc, *es):
    """es simplified with the equations `variable == constant` of pc."""
    m = {}
    for c in pc:
        c = S.tob(c)
        if c.op == "==":
            a, b = c.args
            if b.op == "v":
                a, b = b, a
            if a.op == "v" and b.op == "c":
                m[a] = b
    r = [S.subst(e, m) if m else e for e in es]
    return r if len(es) != 1 else r[0]


class Stop(BaseException):
    pass


class Ambient(S.Explorer):
    """The whole body of a check runs under this: where the code under test
    branches on a symbolic condition outside an explicit exploration, the
    body is run once for each outcome, and every claim made on the way
    assumes the conditions met so far."""

    limit = 60

    def decide(self, cond):
        if not any(cond is k for k in self.seen):
            if len(self.seen) >= self.limit:
                raise S.Unsupported("too many branches outside an "
                                    "exploration")
            self.seen.append(cond)
        return S.Explorer.decide(self, cond)

    def pc(self):
        return [k if v else S.bnot(k) for k, v in self.trace]


def _quiet(f):
    """No branching on symbolic conditions by the machinery itself."""
    def g(*a, **k):
        S._explorer.append(None)
        try:
            return f(*a, **k)
        finally:
            S._explorer.pop()
    return g


class Check(object):
    def __init__(self, pid, script, bounds="", outside=""):
        import prove
        self.P = prove
        self.pid = pid
        self.script = os.path.abspath(script)
        self.t0 = time.time()
        self.bounds = bounds
        self.outside = outside
        self.functions = []
        self.claims = 0
        self.proved = []
        self.failed = []
        self.known = []
        self.inconclusive = []
        self.reach = 0
        self.paths = 0
        self.replays = 0
        self.samples = []
        self.notes = []
        self.validated = 0
        self.rng = random.Random(SEED)
        self.ambient = None
        self._sat_cache = {}
        self._pcs = set()
        self.dead = 0
        self._control = set()
        self.controls = 0
        self.timeout = 60000 if THOROUGH else 20000
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                self.kf = [k for k in json.load(f)
                           if k["property"] == pid and
                           k.get("status") == "known"]
        except IOError:
            self.kf = []

    def _amb(self, assume=()):
        a = [S.tob(x) for x in assume]
        if self.ambient is not None:
            have = set(x.id for x in a)
            a += [x for x in self.ambient.pc() if x.id not in have]
        return a

    def encoded(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    def explore(self, fun, assume=(), max_paths=2000):
        """All feasible paths of fun: [(path condition, result, exc)]."""
        ex = S.Explorer(self._amb(assume), feasible=self.P.feasible,
                        max_paths=max_paths)
        out = [(list(pc), r, x) for pc, r, x in ex.run(fun)]
        self.paths += len(out)
        for pc, r, x in out:
            self._pcs.add(frozenset(S.tob(a).id for a in pc))
        return out

    def _dead(self, key, name):
        """Unsatisfiable assumptions: only a path that the quick feasibility
        test could not rule out may have them."""
        k = set(key)
        if any(p <= k for p in self._pcs):
            self.dead += 1
        else:
            self.inconclusive.append((name, "assumptions unsatisfiable"))

    # -- claims
    def reachable(self, assume, name=""):
        """The assumptions must be satisfiable (no vacuous proof)."""
        key = tuple(a.id for a in map(S.tob, assume))
        if key in self._sat_cache:
            return
        r, _ = self.P.check([S.tob(a) for a in assume], 10000)
        self._sat_cache[key] = r
        if r == "unsat":
            self._dead(key, name)
        elif r == "sat":
            self.reach += 1

    def reachables(self, items):
        """The same for many claims (name, assume, gen), in parallel."""
        todo = {}
        for n, asm, gen in items:
            key = tuple(a.id for a in map(S.tob, asm))
            if asm and key not in self._sat_cache:
                todo.setdefault(key, (n, asm, gen))
        if len(todo) < 4:
            for n, asm, gen in todo.values():
                self.reachable(asm, n)
            return
        P = self.P

        def one(q):
            n, asm, gen = q
            rng = random.Random(SEED)
            for k in range(40 if gen else 0):
                en = gen(rng)
                try:
                    if all(S.evalf(a, en) for a in asm):
                        return "sat", None
                except Exception:
                    pass
            return P.check([S.tob(a) for a in asm], 5000)[0], None
        for key, (n, asm, gen), (r, _) in zip(todo, todo.values(), _pmap(
                one, list(todo.values()), P)):
            self._sat_cache[key] = r
            if r == "unsat":
                self._dead(key, n)
            elif r == "sat":
                self.reach += 1

    def control(self, group, e, assume=()):
        """Negative control: e + 1 == 0 or a neighbour must be refuted."""
        if group in self._control or self._amb():
            return
        self._control.add(group)
        P = self.P
        vs = [v for v in S.variables(e, *assume) if v != "pi"][1:]
        e1 = S.need(e) + 1
        # fix all but one variable: still a solver query, always small
        asmv = set(S.variables(*assume)) if assume else ()
        for k in range(8):
            m = {S.var(v): S.const(S.Fraction(self.rng.randrange(
                -24, 25) or 1, 16)) for v in vs
                if k % 2 or v not in asmv}
            try:
                a1 = [S.subst(a, m) for a in assume]
                if any(x is S.FALSE for x in a1):
                    continue
                q = S.subst(e1, m)
            except ZeroDivisionError:
                continue
            (r, _), = _pmap(lambda it: P.prove_zero(*it),
                            [(q, a1, 10000)], P, hard=30)
            if r == "sat":
                break
        else:
            r = "unknown"
        if r == "sat":
            self.controls += 1
        else:
            self.inconclusive.append(
                (group, "negative control was not refuted: " + r))

    @_quiet
    def zero(self, name, e, assume=(), case=None, gen=None, group=None):
        """Claim: e == 0 for all values (under assume)."""
        assume = self._amb(assume)
        self.claims += 1
        if assume:
            self.reachable(assume, name)
        try:
            r, env = self._decide(S.need(e), assume, gen)
        except ZeroDivisionError as ex:
            r, env = "unknown", None
        if r == "unsat":
            self.proved.append(name)
            self.control(group or "zero", e, assume)
            return True
        return self._refuted(name, r, env, e, assume, case, gen)

    def _decide(self, e, assume, gen):
        """prove_zero; where the term is visibly nonzero at a point, ask the
        solver about that point first (a quick way to a counterexample)."""
        P = self.P
        if e is not S.ZERO:
            for en in self._points(e, assume):
                try:
                    if abs(S.evalf(e, en)) < 1e-7:
                        continue
                    m = {S.var(v): S.const(S.Fraction(x))
                         for v, x in en.items() if not isinstance(x, bool)}
                    q = S.subst(e, m)
                    r, _ = P.check([S.bnot(S.cmp_("==", q, S.ZERO))], 5000)
                except Exception:
                    continue
                if r != "unsat":
                    return "sat", en
            vs = [v for v in S.variables(e, *assume) if v != "pi"]
            rng = random.Random(SEED)
            for k in range(6):
                en = gen(rng) if gen else {}
                for v in vs:
                    en.setdefault(v, rng.uniform(-1.5, 1.5))
                en = {k: v if isinstance(v, bool) else
                      float(S.Fraction(round(v*64), 64))
                      for k, v in en.items()}
                try:
                    if not all(S.evalf(a, en) for a in assume):
                        continue
                    if abs(S.evalf(e, en)) < 1e-7:
                        continue
                    m = {S.var(v): S.const(S.Fraction(en[v])) for v in vs}
                    q = S.subst(e, m)
                    a = [S.subst(x, m) for x in assume]
                except Exception:
                    continue
                r, _ = P.check([S.bnot(S.cmp_("==", q, S.ZERO))] + a, 5000)
                if r != "unsat":
                    return "sat", en
        return P.prove_zero(e, assume, self.timeout)

    def _points(self, e, assume):
        """Some points that satisfy narrow assumptions, from the solver."""
        if not self._amb():
            return
        P = self.P
        rng = random.Random(SEED)
        va = [v for v in S.variables(*assume) if v != "pi"]
        vs = [v for v in S.variables(e, *assume) if v != "pi"]
        bools = [S._bnames[n.id] for n in S.topo(e, *assume)
                 if isinstance(n, S.B) and n.op == "bv"]
        for w in (.3, .3, 1., 3., None):
            box = []
            for v in va:
                r = rng.choice([-1, 1])*rng.uniform(.2, 1.2)
                if w:
                    box += [S.cmp_("<=", S.lift(r-w), S.var(v)),
                            S.cmp_("<=", S.var(v), S.lift(r+w))]
            r, en = P.check(list(assume) + box, 3000)
            if r != "sat" or not en:
                continue
            en = {k: x for k, x in en.items() if k in va or k in bools}
            for v in vs:
                en.setdefault(v, rng.choice([-1, 1])*rng.uniform(.2, 1.2))
            for b in bools:
                en.setdefault(b, rng.random() < .5)
            try:
                if all(S.evalf(a, en) for a in assume):
                    yield en
            except Exception:
                continue

    @_quiet
    def zeros(self, items, procs=None):
        """Many zero-claims, decided in parallel.
        items: (name, e, assume, case, gen)"""
        items = [(n, S.need(e), self._amb(asm or ()), ca, ge)
                 for n, e, asm, ca, ge in items]
        hard = [i for i in items if i[1] is not S.ZERO]
        self.reachables([(n, asm, ge) for n, e, asm, ca, ge in items])
        for n, e, asm, ca, ge in items:
            if e is S.ZERO:
                self.claims += 1
                self.P.STATS["queries"] += 1
                self.P.STATS["unsat"] += 1
                self.proved.append(n)
        if not hard:
            return
        P = self.P
        keys, uniq = [], {}
        for it in hard:
            keys.append((it[1].id,) + tuple(a.id for a in it[2]))
            uniq.setdefault(keys[-1], it)
        order = list(uniq)
        got = _pmap(lambda q: self._decide(uniq[q][1], uniq[q][2],
                                           uniq[q][4]), order, P,
                    procs, enough=lambda out: sum(
                        1 for o in out if o[0] == "sat") >= 6)
        got = dict(zip(order, got))
        res = [got[q] for q in keys]
        small = min((S.size(it[1]), i) for i, it in enumerate(hard))[1]
        if res[small][0] == "unsat":
            self.control("zeros", hard[small][1], hard[small][2])
        todo = sorted(range(len(hard)), key=lambda i: res[i][0] != "sat")
        for (n, e, asm, ca, ge), (r, env) in [(hard[i], res[i])
                                              for i in todo]:
            self.claims += 1
            if r == "undecided":
                self.inconclusive.append((n, "no answer in time"))
                continue
            if r == "unsat":
                self.proved.append(n)
            else:
                self._refuted(n, r, env, e, asm, ca, ge)

    @_quiet
    def holds(self, name, claim, assume=(), case=None, gen=None):
        assume = self._amb(assume)
        self.claims += 1
        if assume:
            self.reachable(assume, name)
        claim = S.tob(claim)
        r, env = self.P.prove(claim, assume, self.timeout)
        if r == "unsat":
            self.proved.append(name)
            return True
        return self._refuted(name, r, env, claim, assume, case, gen)

    @_quiet
    def holds_all(self, items, procs=None):
        """Many holds-claims, decided in parallel.
        items: (name, claim, assume, case, gen)"""
        P = self.P
        items = [(n, S.tob(q), self._amb(asm or ()), ca, ge)
                 for n, q, asm, ca, ge in items]
        keys, uniq = [], {}
        self.reachables([(it[0], it[2], it[4]) for it in items])
        for it in items:
            keys.append((it[1].id,) + tuple(a.id for a in it[2]))
            uniq.setdefault(keys[-1], it)
        order = list(uniq)
        got = dict(zip(order, _pmap(
            lambda q: P.prove(uniq[q][1], uniq[q][2], self.timeout), order,
            P, procs, enough=lambda out: sum(
                1 for o in out if o[0] == "sat") >= 6)))
        res = [got[q] for q in keys]
        for i in sorted(range(len(items)), key=lambda i: res[i][0] != "sat"):
            (n, q, asm, ca, ge), (r, env) = items[i], res[i]
            self.claims += 1
            if r == "undecided":
                self.inconclusive.append((n, "no answer in time"))
            elif r == "unsat":
                self.proved.append(n)
            else:
                self._refuted(n, r, env, q, asm, ca, ge)

    @_quiet
    def fact(self, name, ok, case=None, detail=""):
        """A claim whose truth the symbolic execution already settled
        (e.g. an exception on some path); case = replay case."""
        self.claims += 1
        if ok:
            self.proved.append(name)
            return True
        return self._refuted(name, "sat", {}, None, [], case, None, detail)

    def _refuted(self, name, r, env, e, assume, case, gen, detail=""):
        cands = []
        if env is not None and r == "sat":
            cands.append(env)
        vs = S.variables(*([e] if e is not None else []), *assume)
        vs = [v for v in vs if v != "pi"]
        bools = [S._bnames[n.id] for n in S.topo(
            *([e] if e is not None else []), *assume)
            if isinstance(n, S.B) and n.op == "bv"]
        scored = []
        cands += list(self._points(e if e is not None else S.ZERO, assume))
        for k in range(60):
            en = gen(self.rng) if gen else {
                v: self.rng.choice([-1, 1])*self.rng.uniform(.2, 1.6)
                for v in vs}
            for b in bools:
                en.setdefault(b, self.rng.random() < .5)
            for v in vs:
                en.setdefault(v, self.rng.uniform(-1, 1))
            try:
                if not all(S.evalf(a, en) for a in assume):
                    continue
                if e is None:
                    break
                if isinstance(e, S.B):
                    if S.evalf(e, en):
                        continue
                    scored.append((1, k, en))
                else:
                    v = abs(S.evalf(e, en))
                    if v > 1e-7:
                        scored.append((v, k, en))
            except Exception:
                continue
        scored.sort(key=lambda t: (-t[0], t[1]))
        cands += [s[2] for s in scored[:6]]
        if case is None:
            self.inconclusive.append((name, r))
            return False
        # a boxed model is often better conditioned
        if r == "sat" and e is not None and vs and not scored:
            goal = S.bnot(e) if isinstance(e, S.B) else \
                S.bnot(S.cmp_("==", e, S.ZERO))
            box = [S.band(S.const(-3) <= S.var(v), S.var(v) <= S.const(3))
                   for v in vs]
            if isinstance(e, S.E):
                for eps in (1e-1, 1e-3):
                    g2 = S.cmp_("<", S.const(S.Fraction(str(eps))), S.absf(e))
                    r2, env2 = self.P.check([g2] + assume + box, 10000)
                    if r2 == "sat":
                        cands.insert(0, env2)
                        break
            r2, env2 = self.P.check([goal] + assume + box, 10000)
            if r2 == "sat":
                cands.append(env2)
        cases = []
        for en in cands:
            try:
                c = case(en) if callable(case) else case
            except Exception as ex:
                self.notes.append("case builder: %r" % (ex,))
                continue
            if c is None:
                continue
            c = dict(c)
            c["property"], c["claim"] = self.pid, name
            if c not in cases:
                cases.append(c)
        if not cases and e is None and not callable(case):
            cases = [dict(case, property=self.pid, claim=name)]
        out = None
        if cases:
            out = self.replay(cases)
        if out is None:
            self.inconclusive.append(
                (name, "%s, not reproduced on the real code %s"
                 % (r, detail)))
            return False
        idx, what = out
        for k in self.kf:
            if k["claim"] == name:
                self.known.append((name, k["what"]))
                return False
        self.failed.append((name, cases[idx], what))
        if len(self.failed) >= 2:
            raise Stop()
        return False

    def branches(self, amb, fallback):
        """Inputs on either side of, and between, the branch conditions met
        in the code: solved for, then run on the real code."""
        main = sys.modules["__main__"]
        if not fallback or not amb.seen or not hasattr(main, "gen") or \
                getattr(self, "_branched", False):
            return
        self._branched = True
        gen0, rng = main.gen, random.Random(SEED)
        k = amb.seen[:14]
        sets = [[x] for x in k] + [[S.bnot(x)] for x in k] + [
            [x, S.bnot(y)] for x in k for y in k if x is not y]
        rng.shuffle(sets)
        sets.sort(key=len)
        t0, cases = time.time(), []
        for q in sets[:60]:
            if time.time() - t0 > 60:
                break
            g = gen0(rng)
            vs = S.variables(*q)
            fixed = {v: S.lift(g[v]) for v in vs
                     if v in g and not isinstance(g[v], bool)}
            en = None
            for w in (.2, 1., None):
                box = [S.band(S.cmp_("<=", x - w, S.var(v)),
                              S.cmp_("<=", S.var(v), x + w))
                       for v, x in fixed.items()] if w else []
                r, en = self.P.check(q + box, 2000)
                if r == "sat" and en is not None:
                    break
            else:
                continue
            en = {v: x for v, x in en.items() if v in vs}
            main.gen = lambda r, en=en: dict(gen0(r), **en)
            try:
                cases += fallback(rng)
            except Exception:
                continue
            finally:
                main.gen = gen0
        for i in range(0, len(cases), 40):
            self.crashed(cases[i:i+40])
            if self.failed:
                break

    def crashed(self, cases):
        cases = [dict(k, property=self.pid, claim="encoding")
                 for k in cases]
        out = self.replay(cases) if cases else None
        if out is not None:
            self.failed.append(("behaviour on solved-for inputs", cases[out[0]],
                                out[1]))

    def replay(self, cases, timeout=180):
        """Run candidate counterexamples against the real build."""
        self.replays += len(cases)
        d = load.scratch()
        f = os.path.join(d, "cases_%d.json" % self.replays)
        with open(f, "w") as fh:
            json.dump(cases, fh)
        env = dict(os.environ)
        env["VP_REAL"] = load.real_build()
        try:
            r = subprocess.run([load.PY, self.script, "--replay", f],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               env=env)
        except subprocess.TimeoutExpired:
            return None
        out = r.stdout.decode(errors="replace")
        for line in out.splitlines():
            if line.startswith("REPRODUCED "):
                i, what = line[len("REPRODUCED "):].split(" ", 1)
                return int(i), what
        if r.returncode < 0:
            # the real code crashed on one of them
            for i, c in enumerate(cases):
                with open(f, "w") as fh:
                    json.dump([c], fh)
                q = subprocess.run([load.PY, self.script, "--replay", f],
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT,
                                   timeout=timeout, env=env)
                if q.returncode < 0:
                    return i, "crash: signal %d" % -q.returncode
        if r.returncode not in (0, 1):
            self.notes.append("replay: " + out[-600:])
        return None

    # -- end
    def finish(self):
        st = self.P.STATS
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED,
            "level": "other",
            "coverage": {
                "explanation":
                    "SMT-based check of the real code: the listed functions "
                    "of the current tree were executed on symbolic reals; "
                    "each claim is a z3 query over all values in the stated "
                    "bounds; refutations were replayed on the compiled "
                    "package before being reported.",
                "functions_encoded": self.functions,
                "bounds": self.bounds,
                "outside": self.outside,
                "claims": self.claims,
                "claims_proved": len(self.proved),
                "claims_inconclusive": [list(map(str, i))
                                        for i in self.inconclusive],
                "queries": st["queries"],
                "queries_unsat": st["unsat"],
                "queries_sat": st["sat"],
                "queries_unknown": st["unknown"],
                "feasibility_queries": st["feasibility"],
                "solver_seconds": round(st["time"], 3),
                "largest_query_dag": st["max_dag"],
                "paths_explored": self.paths,
                "assumption_sets_shown_satisfiable": self.reach,
                "negative_controls_refuted": self.controls,
                "encoding_validated_against_real_code_points":
                    self.validated,
                "counterexamples_replayed": self.replays,
                "samples": self.proved[:4] + self.proved[-2:],
            },
            "assumptions": [
                "real arithmetic; double rounding is outside the claims"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.failed),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        if self.known:
            ev["coverage"]["known_findings_seen"] = [k[0] for k in self.known]
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d claims, %d proved, %d inconclusive, %d failed; "
              "%d queries %.1fs solver, %.1fs wall" % (
                  self.pid, self.claims, len(self.proved),
                  len(self.inconclusive), len(self.failed),
                  st["queries"], st["time"], time.time() - self.t0))
        for n, w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        rc = 0
        for n, w in self.inconclusive[:20]:
            print("inconclusive: %s: %s" % (n, w))
            rc = 2
        for n in self.notes[:10]:
            print("note:", n)
        if self.failed:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (name, case, what) in enumerate(self.failed):
                p = os.path.join(rd, "%s_%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump([case], f, indent=1)
                print("claim violated: %s: %s" % (name, what))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            rc = 1
        return rc


def _pmap(f, items, P, procs=None, hard=None, enough=None):
    """map f over items in forked workers with a hard per-item time limit;
    solver statistics are summed."""
    import multiprocessing as mp
    import multiprocessing.connection as mc
    if not items:
        return []
    ctx = mp.get_context("fork")
    n = min(procs or 8, os.cpu_count() or 1, len(items))
    hard = hard or (600 if THOROUGH else 150)
    out = [("undecided", None)]*len(items)
    size = max(1, min(24, len(items)//(32*n)))
    todo = [list(range(i, min(i+size, len(items))))
            for i in range(0, len(items), size)][::-1]
    live = {}

    def work(idx, conn):
        for i in idx:
            for k in P.STATS:
                P.STATS[k] = 0
            try:
                v = f(items[i])
            except Exception:
                v = ("unknown", None)
            conn.send((v, dict(P.STATS)))
        conn.close()
        os._exit(0)

    while todo or live:
        if enough and enough(out):
            for idx, p, t in live.values():
                p.kill()
                p.join()
            break
        while todo and len(live) < n:
            idx = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(idx, b))
            p.start()
            b.close()
            live[a] = (idx, p, time.time())
        ready = mc.wait(list(live), timeout=1)
        for a in ready:
            idx, p, t = live[a]
            try:
                v, st = a.recv()
                out[idx[0]] = v
                for k, x in st.items():
                    P.STATS[k] = max(P.STATS[k], x) if k == "max_dag" \
                        else P.STATS[k] + x
                live[a] = (idx[1:], p, time.time())
                if len(idx) > 1:
                    continue
            except EOFError:
                # the worker died: skip the item, do the others
                if len(idx) > 1:
                    todo.append(idx[1:])
            live.pop(a)
            a.close()
            p.join()
        for a in list(live):
            idx, p, t = live[a]
            if time.time() - t > hard:
                p.kill()
                p.join()
                a.close()
                del live[a]
                if len(idx) > 1:
                    todo.append(idx[1:])
                P.STATS["unknown"] += 1
                P.STATS["queries"] += 1
    return out


def main(pid, script, body, replay, bounds="", outside="", fallback=None):
    """Entry point of a check script."""
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(_replay_main(sys.argv[2], replay))
    c = Check(pid, script, bounds, outside)
    rc = None
    amb = c.ambient = Ambient((), feasible=c.P.feasible, max_paths=40)
    amb.trace, amb.seen = [], []
    first = []

    class Late(Exception):
        pass

    def late(sig, frame):
        raise Late("no answer within the time limit")
    signal.signal(signal.SIGALRM, late)

    def once():
        body(c)
    signal.alarm(7200 if THOROUGH else 420)
    try:
        for pc, r, exc in amb.run(once):
            if exc:
                raise exc
            if not amb.todo:
                break
            if not first:
                first.append(time.time() - c.t0)
                c.branches(amb, fallback)
            if c.failed:
                break
            if time.time() - c.t0 + 2*first[0] > (3000 if THOROUGH else 400):
                raise S.Unsupported("not every path explored in time")
    except Stop:
        signal.alarm(0)
    except Exception as e:
        signal.alarm(0)
        traceback.print_exc()
        c.inconclusive.append(("encoding", "%s: %s" % (
            type(e).__name__, e)))
        if fallback and not c.failed:
            # the symbolic run itself raised: does the real code fail too?
            try:
                c.branches(amb, fallback)
                if not c.failed:
                    c.crashed(fallback(c.rng))
            except Stop:
                pass
            except Exception:
                traceback.print_exc()
    signal.alarm(0)
    rc = c.finish()
    sys.stdout.flush()
    sys.exit(rc)


def raised_in_repo(e):
    """Did the exception come out of the package under test?"""
    root = os.environ.get("VP_REAL", "\0")
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(root) or "/electrode/electrode/" in \
                f.filename:
            return True
    return False


def _replay_main(path, replay):
    if os.environ.get("VP_REAL"):
        sys.path.insert(0, os.environ["VP_REAL"])
        os.environ["MPLBACKEND"] = "Agg"
    else:
        os.environ["VP_REAL"] = load.import_real()
    import warnings
    warnings.simplefilter("ignore")
    with open(path) as f:
        cases = json.load(f)
    hit = 0
    for i, c in enumerate(cases):
        try:
            what = replay(c)
        except Exception as e:
            traceback.print_exc()
            if raised_in_repo(e):
                what = "raised %r" % (e,)
            else:
                print("replay error on case %d: %r" % (i, e))
                continue
        if what:
            print("REPRODUCED %d %s" % (i, str(what).replace("\n", " ")))
            hit = 1
            break
    if not hit:
        print("not reproduced (%d cases)" % len(cases))
    return hit
