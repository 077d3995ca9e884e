"""Obligations: generated from the contracts and the symbolic execution of the current source, discharged by the
normaliser (norm) and z3, or searched for a counterexample."""
import time, random
from fractions import Fraction
from . import terms as tm, norm, solver, interp, evalt, lib
from .terms import *
from .values import *

class Ob:
    __slots__ = ("name", "status", "detail", "backend", "time", "cex", "hints")
    def __init__(self, name, status, detail="", backend="", t=0.0, cex=None, hints=None):
        self.name = name; self.status = status; self.detail = detail; self.backend = backend; self.time = t; self.cex = cex; self.hints = hints or []
    def asdict(self):
        d = {"name": self.name, "status": self.status, "backend": self.backend, "time_s": round(self.time, 4)}
        if self.detail: d["detail"] = str(self.detail)[:1500]
        if self.cex: d["counterexample"] = self.cex
        return d

class Prover:
    def __init__(self, deadline=None):
        self.obs = []
        self.functions = {}
        self.assumed = set()
        self.callees = set()
        self.vacuous = []           # preconditions found contradictory (must stay empty)
        self.preconditions = 0      # preconditions shown satisfiable
        self._pre = set()
        self.deadline = deadline
        self.refute_budget = 25.0
        self.prefix = ""
        self.shard, self.nshards, self.counter = 0, 1, -1
        self.hint_budget = 12

    def turn(self):
        """the obligations of a property are spread over worker processes in units of one configuration"""
        self.counter += 1
        return self.counter % self.nshards == self.shard

    def add(self, name, status, detail="", backend="", t=0.0, cex=None, ctx=None):
        hints = []
        if status != "proved" and ctx is not None and self.hint_budget > 0 and not self.late():
            self.hint_budget -= 1
            try: hints = sizes(ctx)
            except Exception: pass
        o = Ob(self.prefix + name, status, detail, backend, t, cex, hints)
        self.obs.append(o)
        return status == "proved"

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def fact(self, name, ok, detail="", backend="symbolic execution", ctx=None):
        """a syntactic consequence of the symbolic execution: proved or undecided"""
        return self.add(name, "proved" if ok else "unknown", "" if ok else detail, backend, ctx=ctx)

    def undecided(self, name, why, ctx=None):
        return self.add(name, "unknown", why, ctx=ctx)

    def valid(self, name, goal, ctx, refute=False):
        t0 = time.time()
        if self.late(): return self.add(name, "unknown", "time budget")
        ok = solver.valid(list(ctx), goal)
        if ok: return self.add(name, "proved", "", "z3", time.time() - t0)
        if refute and self.refute_budget > 0:
            t1 = time.time()
            try: cex = refute_valid(goal, list(ctx))
            except Exception: cex = None
            self.refute_budget -= time.time() - t1
            if cex: return self.add(name, "refuted", "%s is false" % show(goal)[:400], "z3 / exact evaluation", time.time() - t0, cex, ctx=list(ctx) + [lnot(goal)])
        return self.add(name, "unknown", "z3 did not prove %s" % show(goal)[:400], "z3", time.time() - t0, ctx=list(ctx) + [lnot(goal)])

    def eq_any(self, name, a, goals, ctx):
        """a equals one of the goals, none of which could be proved: refuted when every one of them is"""
        n = len(self.obs)
        for g in goals:
            self.eq(name, a, g, ctx)
            if self.obs[-1].status != "refuted": break
        ob = self.obs[-1]
        del self.obs[n:]
        self.obs.append(ob)
        return ob.status == "proved"

    def eq(self, name, a, b, ctx=(), refute=True, quiet=False):
        """a == b for all values of the free symbols under ctx"""
        t0 = time.time()
        if self.late():
            if quiet: return False
            return self.add(name, "unknown", "time budget")
        ctx = list(ctx)
        why = ""
        a2, b2, c2 = ones(a, b, ctx)
        if any(c is FALSE for c in c2):
            return self.add(name, "proved", "", "vacuous path", 0.0) if not quiet else True
        try:
            norm.QUIET[0] = quiet
            r = norm.prove_eq(a2, b2, c2)
            if r.status == "proved":
                if quiet: return True
                return self.add(name, "proved", "", "normaliser+z3", time.time() - t0)
            why = r.detail
            if not quiet:
                memo = {}
                a3, b3 = base_cases(a2, c2, memo), base_cases(b2, c2, memo)
                if (a3 is not a2 or b3 is not b2) and norm.prove_eq(a3, b3, c2).status == "proved":
                    return self.add(name, "proved", "", "normaliser+z3", time.time() - t0)
        except (norm.Giveup, RecursionError) as e:
            why = "normaliser gave up: %s" % e
        if quiet: return False
        cex = None
        if refute and self.refute_budget > 0:
            t1 = time.time()
            try:
                cex = refute_eq(a2, b2, c2)
            except Exception as e:
                why += " [refuter: %s: %s]" % (type(e).__name__, e)
            self.refute_budget -= time.time() - t1
        return self.add(name, "refuted" if cex else "unknown", why, "normaliser+z3" + (" / numeric evaluation" if cex else ""), time.time() - t0, cex, ctx=ctx)

def base_cases(t, ctx, memo=None):
    """replace entries of recursively defined arrays that, under ctx, are base cases of the recursion by their values"""
    memo = {} if memo is None else memo
    def rec(u):
        if any(n in interp.DEFS for n in names_in(u)): return None
        return u
    def f(u):
        if u.op != "sel" or u.args[0] not in interp.DEFS: return None
        if u in memo: return memo[u]
        vs, body = interp.DEFS[u.args[0]]
        b = subst(body, {v.args[0]: i for v, i in zip(vs, u.args[1:])})
        while b.op == "ite":
            if solver.valid(ctx, b.args[0]): b = b.args[1]
            elif solver.valid(ctx, lnot(b.args[0])): b = b.args[2]
            else: break
        memo[u] = None if b.op == "ite" else rec(b)
        return memo[u]
    return rebuild(t, f)

def names_in(t): return {u.args[0] for u in walk(t) if u.op == "sel"}

def sizes(ctx, n=3):
    """a few assignments of the sizes and times that satisfy ctx: where to look for a failing input"""
    out = []
    for env, m in assignments(TRUE, TRUE, list(ctx), n, random.Random(3)):
        h = {k: (v if isinstance(v, int) else float(v)) for k, v in env.items() if not isinstance(v, bool)}
        if h not in out: out.append(h)
    return out

def pinned(ctx, name="t"):
    """the value the context forces an integer symbol to have, or None"""
    s = sym(name, "I")
    if not any(name in c.fv for c in ctx): return None
    for c in ctx:
        for u in (c.args if c.op == "and" else (c,)):
            if u.op == "cmp" and u.args[0] == "==":
                d = sub(u.args[1], u.args[2])
                for sign in (MONE, ONE):
                    e = add(s, mul(sign, d))
                    if name not in e.fv and e.sort == "I": return e
    cands = []
    for c in ctx:
        if name not in c.fv: continue
        for u in walk(c):
            if u.op == "cmp" and u.args[0] == "==" and name in u.fv:
                d = sub(u.args[1], u.args[2])
                for sign in (MONE, ONE):
                    e = add(s, mul(sign, d))
                    if name not in e.fv and e.sort == "I" and e not in cands: cands.append(e)
    for e in cands:
        if solver.valid(ctx, eq(s, e)): return e
    for v in (1, 2, 3, 4, 5, 0):
        if solver.valid(ctx, eq(s, num(v))): return num(v)
    return None

def ones(a, b, ctx):
    """sizes that the context pins to 1 are replaced, and index variables ranging over them become 0; likewise the time index"""
    e = pinned(ctx)
    if e is not None:
        mp = {"t": e}
        c2 = [subst(c, mp) for c in ctx]
        a, b, ctx = subst(a, mp), subst(b, mp), [c for c in c2 if c is not TRUE]
    mp = {}
    for nm in ("dim", "d", "N", "M", "K"):
        s = sym(nm, "I")
        if any(nm in c.fv for c in ctx) and solver.valid(ctx, eq(s, ONE)): mp[nm] = ONE
    if not mp: return a, b, ctx
    a, b = subst(a, mp), subst(b, mp); ctx = [subst(c, mp) for c in ctx]
    free = set(a.fv) | set(b.fv)
    m2 = {}
    for v in free:
        rg = tm.RANGE.get(v)
        if rg and rg[0] is ZERO and rg[1] is not None and subst(rg[1], mp) is ONE: m2[v] = ZERO
    for w in ("w",):
        s = sym(w, "I")
        if w in free and solver.valid(ctx, eq(s, ONE)): m2[w] = ONE
    if m2:
        a, b = subst(a, m2), subst(b, m2); ctx = [subst(c, m2) for c in ctx]
    return a, b, [c for c in ctx if c is not TRUE]

# ------------------------------------------------------------------ counterexamples
def int_syms(ts):
    out = set()
    todo = list(ts)
    seen = set()
    while todo:
        t = todo.pop()
        for u in walk(t, seen):
            if u.op == "sym" and u.args[1] == "I" :
                n = u.args[0]
                if n not in out:
                    out.add(n)
                    rg = tm.RANGE.get(n)
                    if rg: todo += [x for x in rg if x is not None]
    return out

def bound_names(ts):
    out = set()
    for t in ts:
        for u in walk(t):
            if u.op == "big": out.add(u.args[1].args[0])
            elif u.op == "lam":
                for v in u.args[0]: out.add(v.args[0])
    return out

SIZES = ("N", "M", "K", "dim", "d", "n", "m", "N2", "n2")

def assignments(a, b, ctx, tries, rnd):
    """assignments of the free integer symbols (and t1, t2) satisfying ctx, from z3 with random small preferences"""
    import z3
    free = set(a.fv) | set(b.fv)
    for c in ctx: free |= c.fv
    free = solver._close(free)
    ints = sorted(n for n in int_syms([a, b] + list(ctx)) if n in free)
    big = sorted({int(val(u)) for t in [a, b] + list(ctx) for u in walk(t) if u.op == "num" and u.args[0].denominator == 1 and 4 < val(u) <= 6000})
    beyond = [n for n in SIZES if n in ints]
    plan = any(u.op == "app" and u.args[0] == "EMD" for t in (a, b) for u in walk(t))       # small plans rarely depend on the cost
    for k in range(tries):
        enc = solver.Enc()
        cs = [enc.e(c) for c in ctx]
        for n in ints: enc.e(sym(n, "I"))
        zi = {n: z3.Int(n) for n in ints}
        extra = []
        has_t = "t1" in free or "t2" in free
        s = z3.Solver(); s.set("timeout", 3000)
        s.add(*cs); s.add(*enc.facts)
        prefs = []
        wide = beyond[k // 2 % len(beyond)] if big and beyond and k % 2 == 1 else None
        for n in ints:
            if n == wide:
                c = rnd.choice(big)
                prefs.append(zi[n] == c + 1)
            elif plan and n in ("N", "dim"): prefs.append(zi[n] == (rnd.choice([3, 5, 6, 8]) if n == "N" else rnd.choice([1, 2, 3, 4, 5])))
            elif n in ("N", "M", "K", "dim", "d"): prefs.append(zi[n] == rnd.choice([1, 2, 2, 3, 3, 4]) if k or True else None)
            else: prefs.append(zi[n] == rnd.choice([0, 1, 2, 3, 0, 1]))
        if has_t:
            t1 = Fraction(rnd.choice([0, 3, -2]), 10); steps = rnd.choice([3, 4, 5, 6, 12, 14])
            prefs.append(z3.Real("t1") == z3.RealVal(str(t1)))
            prefs.append(z3.Real("t2") == z3.RealVal(str(t1 + Fraction(steps, 1000))))
        rnd.shuffle(prefs)
        if wide:                              # an entry beyond the constant, if there is one
            prefs = [z3.Or([zi[n] >= c for n in ints if n not in SIZES] or [z3.BoolVal(True)])] + [p for p in prefs]
            prefs.sort(key=lambda p: 0 if ("%s ==" % wide) in str(p) else 1)
        for p in prefs:
            s.push(); s.add(p)
            if s.check() != z3.sat: s.pop()
        if s.check() != z3.sat: continue
        m = s.model()
        env = {}
        for n in ints:
            v = m.eval(zi[n], model_completion=True)
            env[n] = v.as_long()
        if k % 2:
            for c in ctx:                    # real parameters that a path condition ties to particular values
                for u in walk(c):
                    if u.op == "sym" and u.sort == "R" and u.args[0] in free and u.args[0] not in ("t1", "t2", "dt"):
                        v = m.eval(z3.Real(u.args[0]))
                        if z3.is_rational_value(v): env[u.args[0]] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        for n in ("t1", "t2"):
            if has_t:
                v = m.eval(z3.Real(n), model_completion=True)
                env[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        yield env, m

def constants(ts):
    """magnitudes of the rational constants of the terms: where a threshold or a clipped value would show"""
    out = set()
    for t in ts:
        for u in walk(t):
            if u.op == "num" and u.args[0].denominator != 1 or (u.op == "num" and abs(u.args[0]) > 4): out.add(min(max(abs(float(u.args[0])), 1e-9), 1e9))
    return sorted(out)

def refute_valid(goal, ctx, tries=4):
    """an assignment satisfying ctx at which the goal is false, found by z3 and confirmed by evaluation"""
    for k, (env, m) in enumerate(assignments(goal, TRUE, ctx + [lnot(goal)], tries, random.Random(11))):
        ev = evalt.EvMP(env, seed=k, positive=norm.POS, defs=interp.DEFS, draws=interp.DRAWS)
        try:
            if not all(ev.ev(c, {}) for c in ctx) or ev.ev(goal, {}): continue
        except (evalt.EvalError, OverflowError, ZeroDivisionError, ValueError): continue
        return {"symbols": {q: (float(v) if not isinstance(v, int) else v) for q, v in ev.env.items() if not isinstance(v, bool)}, "goal": show(goal)[:300]}
    return None

def refute_eq(a, b, ctx, tries=6, seed=7):
    """an assignment satisfying ctx at which the two sides differ, evaluated at 40 digits"""
    rnd = random.Random(seed)
    cs = constants([a, b] + list(ctx))
    scs = [[1e-3, 0.02, 0.3, 1.0, 4.0, 30.0], [1e-4, 1e-2, 1.0, 50.0, 1e3]] + ([[c * f for c in cs for f in (0.4, 1.5)] + [1.0]] if cs else [])
    scs.append([1e-2, 1e-2, 1e-1]); scs.append([20.0, 100.0, 3.0])
    end = time.time() + 8.0
    for k, (env, m) in enumerate(assignments(a, b, ctx, tries + 6, rnd)):
        if sum(env.get(n, 1) > 80 for n in SIZES) > 1: continue
        for s in range(3 if k < 2 else 2):
            if time.time() > end: return None
            scales = None if (k < tries and s < 2) and not (k >= 2 and s == 1) else scs[(k + s) % len(scs)]
            ev = evalt.EvMP(env, seed=s + 3 * k, positive=norm.POS | ({"g"} if s == 0 else set()), defs=interp.DEFS, draws=interp.DRAWS, scales=scales)
            try:
                if not all(ev.ev(c, {}) for c in ctx): continue
                x, y = ev.num(ev.ev(a, {})), ev.num(ev.ev(b, {}))
            except (evalt.EvalError, OverflowError, ZeroDivisionError, ValueError): continue
            if not (ev.mp.isfinite(x) and ev.mp.isfinite(y)): continue
            if ev.inexact: differ = abs(x - y) > 1e-5 * (1 + abs(x) + abs(y))
            else: differ = abs(x - y) > ev.mp.mpf(10) ** -7 * (abs(x) + abs(y)) and abs(x - y) > ev.mp.mpf(10) ** -12
            if differ:
                ins = {}
                for (nm, ix), v in sorted(ev.inputs.items())[:400]: ins.setdefault(nm, {})[",".join(map(str, ix))] = float(v)
                return {"symbols": {q: (float(v) if not isinstance(v, int) else v) for q, v in ev.env.items() if not isinstance(v, bool)},
                        "code": float(x), "specified": float(y), "inputs": ins}
    return None

# ------------------------------------------------------------------ running the code symbolically
def paths(P, m, what, thunk):
    """explore thunk; paths that raise or stop make an undecided obligation. Returns [(conds, value)] with m restored lazily"""
    key = tuple(m.ctx)
    if key not in P._pre:
        P._pre.add(key)
        if solver.check(list(m.ctx)) == "sat": P.preconditions += 1
        elif solver.valid(list(m.ctx), FALSE): P.vacuous.append(what)
    try:
        rs = m.explore(thunk)
    except Unsupported as e:
        P.undecided(what + ": symbolic execution", "%s: %s" % (type(e).__name__, e)); return []
    except PyRaise as e:
        P.undecided(what + ": no exception", str(e)); return []
    except RecursionError:
        P.undecided(what + ": symbolic execution", "recursion"); return []
    finally:
        P.functions.update(m.functions)
        P.callees |= {(c[0], c[1]) for c in m.calls if c[0] in ("score", "otmap")}
    out = []
    for c, o, s in rs:
        if o[0] == "raise": P.undecided(what + ": no exception", "%s when %s" % (o[1], " & ".join(show(x) for x in c)[:300]), ctx=list(m.ctx) + list(c))
        elif o[0] in ("ok", "return"): out.append((c, o[1], s))
        else: P.undecided(what, "outcome " + o[0])
    P.fact(what + ": some path returns", bool(out), "no path returns normally")
    return out

def needs(P, m, what, base_ctx):
    """safety obligations recorded during execution (index ranges, shapes, divisors ...)"""
    for name, ctx, goal in m.obligations:
        P.valid("%s: %s" % (what, name), goal, ctx)
    m.obligations[:] = []
