"""z3 back end: path feasibility, index guards, integer side conditions, real inequalities."""
import time
import z3
from . import terms as tm
from .terms import *

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
z3.set_param("timeout", 4000)

class Enc:
    def __init__(self):
        self.map = {}
        self.facts = []
        self.seen_syms = set()
        self.opaque = {}
    def const(self, t, hint):
        t = tm.canon(t)
        c = self.opaque.get(t)
        if c is None:
            n = "%s!%d" % (hint, t.h)
            c = z3.Int(n) if t.sort == "I" else (z3.Bool(n) if t.sort == "B" else z3.Real(n))
            self.opaque[t] = c
        return c
    def e(self, t):
        r = self.map.get(t)
        if r is not None: return r
        r = self._e(t)
        self.map[t] = r
        return r
    def r(self, t):
        x = self.e(t)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    def _e(self, t):
        op = t.op; a = t.args
        if op == "num":
            q = a[0]
            return z3.IntVal(q.numerator) if q.denominator == 1 else z3.RealVal(str(q))
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "sym":
            s = a[1]
            c = z3.Int(a[0]) if s == "I" else (z3.Bool(a[0]) if s == "B" else z3.Real(a[0]))
            self.map[t] = c
            rg = tm.RANGE.get(a[0])
            if rg is not None and s == "I":
                if rg[0] is not None: self.facts.append(c >= self.e(rg[0]))
                if rg[1] is not None: self.facts.append(c < self.e(rg[1]))
            return c
        if op == "add":
            xs = [self.e(x) for x in a]
            if t.sort != "I": xs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
            return z3.Sum(xs)
        if op == "mul":
            nonc = [x for x in a if x.op != "num"]
            xs = [self.e(x) for x in a]
            if t.sort != "I": xs = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
            r = xs[0]
            for x in xs[1:]: r = r * x
            return r
        if op == "pow":
            if isnum(a[1]) and val(a[1]).denominator == 1 and 0 < val(a[1]) <= 4:
                x = self.e(a[0]); r = x
                for _ in range(int(val(a[1])) - 1): r = r * x
                return r
            if isnum(a[1]) and val(a[1]) == -1:
                c = self.const(t, "inv"); b = self.r(a[0])
                self.facts.append(z3.Implies(b != 0, c * b == 1))
                self.facts.append(z3.Implies(b > 0, c > 0))
                return c
            if isnum(a[1]) and val(a[1]) == Fraction(1, 2):
                c = self.const(t, "sqrt"); b = self.r(a[0])
                self.facts.append(c >= 0)
                self.facts.append(z3.Implies(b > 0, c > 0))
                self.facts.append(z3.Implies(b >= 0, c * c == b))
                return c
            return self.const(t, "pow")
        if op == "fn":
            n = a[0]
            if n in ("floor", "ceil", "round"):
                c = self.const(t, n); x = self.r(a[1]); cr = z3.ToReal(c)
                if n == "round": self.facts += [2 * (cr - x) <= 1, 2 * (x - cr) <= 1]        # which way halves go is left open
                elif n == "ceil": self.facts += [cr >= x, cr < x + 1]
                else: self.facts += [cr <= x, cr > x - 1]
                return c
            if n == "abs":
                x = self.e(a[1]); return z3.If(x >= 0, x, -x)
            if n in ("min", "max"):
                x, y = self.e(a[1]), self.e(a[2])
                if x.sort() != y.sort(): x, y = self.r(a[1]), self.r(a[2])
                return z3.If(x <= y, x, y) if n == "min" else z3.If(x >= y, x, y)
            c = self.const(t, n)
            if n == "exp": self.facts.append(c > 0)
            return c
        if op == "ite":
            x, y = self.e(a[1]), self.e(a[2])
            if x.sort() != y.sort(): x, y = self.r(a[1]), self.r(a[2])
            return z3.If(self.e(a[0]), x, y)
        if op == "cmp":
            x, y = self.e(a[1]), self.e(a[2])
            if x.sort() != y.sort(): x, y = self.r(a[1]), self.r(a[2])
            return {"<": x < y, "<=": x <= y, "==": x == y}[a[0]]
        if op == "and": return z3.And([self.e(x) for x in a])
        if op == "not": return z3.Not(self.e(a[0]))
        if op == "big" and a[0] in ("min", "max"):
            c = self.const(t, "big" + a[0])
            # witness/bound relation between min and max over the same family
            other = big("max" if a[0] == "min" else "min", *a[1:])
            oc = self.opaque.get(tm.canon(other))
            if oc is not None:
                self.facts.append(z3.Implies(self.e(a[2]) < self.e(a[3]), (c <= oc) if a[0] == "min" else (c >= oc)))
            return c
        return self.const(t, op)

_cache = {}

def check(assumptions, goal=None, timeout=None, model=False):
    """sat / unsat / unknown of assumptions (and not goal)"""
    key = (tuple(assumptions), goal)
    if not model:
        r = _cache.get(key)
        if r is not None: return r
    t0 = time.time()
    enc = Enc()
    s = z3.Solver()
    if timeout: s.set("timeout", timeout)
    cs = [enc.e(x) for x in assumptions]
    if goal is not None: cs.append(z3.Not(enc.e(goal)))
    done = 0
    s.add(*cs)
    s.add(*enc.facts)
    r = s.check()
    STATS["queries"] += 1; STATS["time"] += time.time() - t0
    if r == z3.unknown: STATS["unknown"] += 1
    out = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
    if model:
        return out, (s.model() if r == z3.sat else None), enc
    _cache[key] = out
    return out

def valid(assumptions, goal):
    if goal is TRUE: return True
    if goal is FALSE: return check(list(assumptions)) == "unsat"
    return check(relevant(assumptions, goal), goal) == "unsat"

def feasible(assumptions, cond=TRUE):
    if cond is FALSE: return False
    return check(list(assumptions) + [cond]) != "unsat"

def _close(fv):
    """free variables plus those in the ranges of index variables"""
    todo = list(fv); seen = set(todo)
    while todo:
        n = todo.pop()
        rg = tm.RANGE.get(n)
        if rg:
            for x in rg:
                if x is not None:
                    for m in x.fv:
                        if m not in seen: seen.add(m); todo.append(m)
    return seen

def relevant(assumptions, goal):
    """cone of influence; dropping assumptions is sound for validity"""
    atoms = _close(goal.fv)
    arrs = {u.args[0] for u in walk(goal) if u.op == "sel"}
    left = list(assumptions); out = []
    info = [(x, _close(x.fv), {u.args[0] for u in walk(x) if u.op == "sel"}) for x in left]
    changed = True
    while changed:
        changed = False
        rest = []
        for x, f, ar in info:
            if (f & atoms) or (ar & arrs) or not f:
                out.append(x); atoms |= f; arrs |= ar; changed = True
            else: rest.append((x, f, ar))
        info = rest
    out.sort(key=lambda t: t.h)
    return out
