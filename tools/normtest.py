"""Differential test of the normaliser (dv/norm.py): random terms are normalised, and the term, its normal form and the normal
form of the difference to a rewritten copy are evaluated numerically.  Usage: python3-vt tools/normtest.py [count] [seed]"""
import sys, os, random
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE)); sys.dont_write_bytecode = True
from dv import terms as tm, norm, evalt
from dv.terms import *

N, M, P = sym("N", "I"), sym("M", "I"), sym("p", "I")
CTX = [le(num(2), N), le(ONE, M), le(ZERO, P), lt(P, N)]
ENVS = [dict(N=2, M=1, p=0), dict(N=3, M=2, p=2), dict(N=4, M=3, p=1)]

class Gen:
    def __init__(self, seed): self.r = random.Random(seed)
    def index(self, ix):
        r = self.r
        i = r.choice(ix + [P])
        k = r.random()
        if k < .7: return i
        if k < .8: return add(i, ONE)
        if k < .88: return sub(sub(N, ONE), i)
        if k < .94: return sub(N, ONE)
        return num(r.choice([0, 1]))
    def real(self, d, ix):
        r = self.r
        if d <= 0 or r.random() < .12:
            k = r.randrange(7)
            if k == 0: return num(Fraction(r.randint(-3, 3), r.choice([1, 2])))
            if k == 1: return sym(r.choice(["a", "b"]))
            if k == 2: return sel("v", self.index(ix))
            if k == 3: return self.index(ix)
            if k == 4: return sel("w", self.index(ix))
            return sel(r.choice(["A", "B"]), self.index(ix), self.index(ix))
        k = r.randrange(18)
        R = lambda: self.real(d - 1, ix)
        if k < 3: return add(R(), R())
        if k < 6: return mul(R(), R())
        if k == 6: return sub(R(), R())
        if k == 7: return fn("exp", mul(num(Fraction(-1, 4)), power(R(), TWO)))
        if k == 8: return power(add(ONE, power(R(), TWO)), r.choice([MONE, HALF, num(Fraction(-1, 2)), num(-2)]))
        if k == 9: return power(R(), r.choice([TWO, num(3)]))
        if k == 10: return fn(r.choice(["abs", "sin"]), R())
        if k == 11: return fn(r.choice(["min", "max"]), R(), R())
        if k in (12, 13): return ite(self.cond(d - 1, ix), R(), R())
        if k in (14, 15, 16):
            hi = r.choice([N, N, M, M, add(P, ONE), sub(N, ONE)]); lo = r.choice([ZERO, ZERO, ZERO, ONE])
            kind = r.choice(["sum", "sum", "sum", "sum", "prod", "min", "max"])
            if kind in ("min", "max"): hi, lo = r.choice([N, M]), ZERO
            v = tm.fresh("q", "I", lo, hi)
            return big(kind, v, lo, hi, self.real(d - 1, ix + [v]))
        n = r.choice([N, M]); x, y = tm.fresh("a", "I", ZERO, n), tm.fresh("a", "I", ZERO, n)
        body = self.real(d - 2, [x, y])
        if r.random() < .5: body = add(body, subst(subst(subst(body, {x.args[0]: sym("%t", "I")}), {y.args[0]: x}), {"%t": y}))
        body = add(mul(num(Fraction(1, 8)), body), mul(num(40), ite(eq(x, y), ONE, ZERO)))
        inr = [ZERO, sub(n, ONE)] + ([P] if n is N else [])
        i, j = r.choice(inr), r.choice(inr)
        return app(r.choice(["INV", "F"]), (lam([x, y], [n, n], body),), (i, j))
    def cond(self, d, ix):
        r = self.r; k = r.randrange(9)
        if k < 3: return cmp(r.choice(["==", "==", "<", "<=", "!="]), self.index(ix), self.index(ix))
        if k == 3: return cmp(r.choice(["<", "<="]), self.real(d - 1, ix), self.real(d - 1, ix))
        if k == 4: return lnot(self.cond(d - 1, ix))
        if k == 5: return land(self.cond(d - 1, ix), self.cond(d - 1, ix))
        if k == 6: return lor(self.cond(d - 1, ix), self.cond(d - 1, ix))
        return cmp("==", self.index(ix), self.index(ix))
    def rewrite(self, t):
        """a variant of t: sometimes equal to it, sometimes not"""
        r = self.r
        def f(u):
            if r.random() < .85: return None
            if u.op == "mul" and len(u.args) > 1:
                k = r.randrange(len(u.args)); x = u.args[k]
                return mul(*(u.args[:k] + u.args[k + 1:]), add(x, ZERO))
            if u.op == "ite": return add(u.args[2], mul(ite(u.args[0], ONE, ZERO), sub(u.args[1], u.args[2])))
            if u.op == "big" and u.args[0] == "sum" and u.args[2] is ZERO and u.args[3] in (N, add(P, ONE)):
                k, v, lo, hi, b = u.args
                return add(subst(b, {v.args[0]: ZERO}), big("sum", v, ONE, hi, b))
            if u.op == "sel" and r.random() < .1 and len(u.args) == 3: return sel(u.args[0], u.args[2], u.args[1])
            return None
        return subst(tm.rebuild(t, f), {"%%none": ZERO})

def close(x, y): return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))

def run(count=400, seed=0, verbose=False):
    bad = []; done = skipped = zeros = 0
    for n in range(count):
        g = Gen("%d/%d" % (seed, n))
        t = g.real(g.r.randint(2, 5), [])
        u = g.rewrite(t)
        nm = norm.Norm(CTX)
        try:
            a = nm.norm(t); ta = norm.to_term(a); dd = nm.norm(sub(t, u)); td = norm.to_term(dd)
        except norm.Giveup: skipped += 1; continue
        except RecursionError: skipped += 1; continue
        zeros += (not dd.m) and t is not u
        for e in ENVS:
            try:
                E = evalt.Ev(e, seed=n + 1, positive={"w"}, budget=300000)
                x = float(E.ev(t, {})); y = float(E.ev(ta, {})); z = float(E.ev(u, {})); w = float(E.ev(td, {}))
            except (evalt.EvalError, OverflowError, ZeroDivisionError): continue
            except Exception as ex:
                if "Singular" in type(ex).__name__ or "LinAlg" in type(ex).__name__: continue
                raise
            if not (abs(x) < 1e9 and abs(z) < 1e9): continue
            done += 1
            if not close(x, y) or not abs((x - z) - w) <= 1e-7 * (1 + abs(x) + abs(z) + abs(w)):
                bad.append((n, e, x, y, x - z, w, t, ta)); break
    return dict(terms=count, evaluations=done, skipped=skipped, equalities=zeros, disagree=bad)

if __name__ == "__main__":
    c = int(sys.argv[1]) if len(sys.argv) > 1 else 400; s = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    r = run(c, s)
    for b in r["disagree"][:8]: print("DISAGREE", b[0], b[1], *["%.9g" % x for x in b[2:6]], "\n   ", show(b[6])[:600], "\n   ", show(b[7])[:600])
    print("%d random terms, %d evaluations, %d given up, %d nontrivial equalities proved, %d disagreements" % (r["terms"], r["evaluations"], r["skipped"], r["equalities"], len(r["disagree"])))
    sys.exit(1 if r["disagree"] else 0)
