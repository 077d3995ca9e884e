"""Numeric evaluation of terms at concrete sizes: used to look for a counterexample to an obligation that was
not proved (never to prove one)."""
import hashlib, math
from fractions import Fraction
from . import terms as tm
from .terms import *

class EvalError(Exception):
    pass

def _h(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:8], "big") / 2.0 ** 64

def hnormal(*key):
    u = max(_h("a", *key), 1e-12); v = _h("b", *key)
    return math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * v)

class Ev:
    def __init__(self, env, seed=0, positive=(), defs=None, draws=None, budget=400000, scales=None):
        self.scales = scales            # None, or magnitudes from which one is picked per array and symbol
        self.env = dict(env)            # symbol -> number
        self.seed = seed
        self.positive = set(positive)
        self.defs = defs or {}
        self.draws = draws or {}
        self.dmemo = {}
        self.memo = {}
        self.budget = budget
        self.steps = 0
        self.inputs = {}                # (array, idx) -> value, for replay

    def arr(self, name, idx):
        if name in self.defs:
            k = (name, idx)
            r = self.dmemo.get(k)
            if r is None:
                vs, body = self.defs[name]
                r = self.ev(body, {v.args[0]: i for v, i in zip(vs, idx)})
                self.dmemo[k] = r
            return r
        if name in self.draws:
            if self.draws[name]["kind"] == "uniform": return _h(self.seed, name, idx)
            return hnormal(self.seed, name, idx)
        k = (name, idx)
        if k in self.inputs: return self.inputs[k]
        if name in tm.SIMPLEX:
            x = self.simplex(name, self.env[tm.SIMPLEX[name]])[idx[0]] if len(idx) == 1 or not any(idx[1:]) else None
            if x is None or not 0 <= idx[0]: raise EvalError("index")
            self.inputs[k] = x
            return x
        x = hnormal(self.seed, name, idx)
        if name in self.positive: x = 0.4 + abs(x)
        s = tm.ARRSORT.get(name, "R")
        if s == "R": x *= self.scale(name)
        if s == "I": x = int(round(2 * x))
        if s == "B": x = x > 0
        self.inputs[k] = x
        return x

    def simplex(self, name, n):
        """nonnegative dyadic numbers with sum one: generic, with a dominating, with vanishing or with tiny entries"""
        mode = int(_h(self.seed, name, "mode") * 4)
        w = [_h(self.seed, name, i) for i in range(n)]
        if mode == 1: w = [x ** 8 for x in w]
        if mode == 2: w = [x if _h(self.seed, name, "z", i) > 0.5 else 0.0 for i, x in enumerate(w)]
        if mode == 3: w = [x * 10.0 ** (-6 * _h(self.seed, name, "t", i)) for i, x in enumerate(w)]
        s = sum(w) or 1.0
        q = [int(x / s * 2 ** 40) for x in w]
        q[max(range(n), key=lambda i: q[i])] += 2 ** 40 - sum(q)
        return [Fraction(x, 2 ** 40) for x in q]

    def scale(self, name):
        if not self.scales: return 1.0
        return float(self.scales[int(_h(self.seed, "scale", name) * len(self.scales))])

    def ev(self, t, b):
        """b: bound variable assignment"""
        self.steps += 1
        if self.steps > self.budget: raise EvalError("budget")
        rel = tuple(sorted((n, b[n]) for n in t.fv if n in b)) if b else ()
        k = (t, rel)
        r = self.memo.get(k)
        if r is not None: return r
        r = self._ev(t, b)
        self.memo[k] = r
        return r

    def _ev(self, t, b):
        op = t.op; a = t.args
        if op == "num":
            return int(a[0]) if a[0].denominator == 1 else a[0]
        if op == "sym":
            n = a[0]
            if n in b: return b[n]
            if n in self.env: return self.env[n]
            if a[1] == "B": v = _h(self.seed, n) > 0.5
            elif a[1] == "I": raise EvalError("integer symbol " + n)
            else:
                v = hnormal(self.seed, n)
                if n in self.positive: v = 0.4 + abs(v)
                v *= self.scale(n)
            self.env[n] = v
            return v
        if op == "true": return True
        if op == "false": return False
        if op == "sel":
            return self.arr(a[0], tuple(self.integer(self.ev(x, b)) for x in a[1:]))
        if op == "add":
            s = 0
            for x in a: s = self.add(s, self.ev(x, b))
            return s
        if op == "mul":
            s = 1
            for x in a:
                s = self.times(s, self.ev(x, b))
                if s == 0: return 0
            return s
        if op == "pow":
            x = self.ev(a[0], b); e = self.ev(a[1], b)
            return self.power(x, e)
        if op == "fn":
            n = a[0]; xs = [self.ev(x, b) for x in a[1:]]
            return self.fn(n, xs)
        if op == "ite":
            return self.ev(a[1] if self.ev(a[0], b) else a[2], b)
        if op == "cmp":
            x, y = self.ev(a[1], b), self.ev(a[2], b)
            if not (isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction))): x, y = self.real(x), self.real(y)
            return {"<": x < y, "<=": x <= y, "==": x == y}[a[0]]
        if op == "and":
            for x in a:
                if not self.ev(x, b): return False
            return True
        if op == "not": return not self.ev(a[0], b)
        if op == "big":
            kind, v, lo, hi, body = a
            lo = self.integer(self.ev(lo, b)); hi = self.integer(self.ev(hi, b))
            if hi - lo > 5000: raise EvalError("range")
            b2 = dict(b); n = v.args[0]
            xs = []
            for i in range(lo, hi):
                b2[n] = i
                xs.append(self.ev(body, b2))
            if kind == "sum":
                r = 0
                for x in xs: r = self.add(r, x)
                return r
            if kind == "prod":
                r = 1
                for x in xs: r = self.times(r, x)
                return r
            if kind in ("min", "max"):
                if not xs: raise EvalError("empty " + kind)
                return self.fn(kind, xs)
            if kind == "all": return all(xs)
            if kind == "any": return any(xs)
            raise EvalError(kind)
        if op == "app":
            ms = [self.lam(l, b) for l in a[1]]
            ss = [self.ev(x, b) for x in a[2]]
            return self.app(a[0], ms, ss)
        raise EvalError(op)

    def add(self, x, y): return x + y
    def times(self, x, y): return x * y
    def real(self, x): return float(x)

    def integer(self, x):
        if isinstance(x, int): return x
        if isinstance(x, Fraction):
            if x.denominator == 1: return int(x)
            raise EvalError("index not integral")
        if abs(x - round(x)) < 1e-9: return int(round(x))
        raise EvalError("index not integral")

    def power(self, x, e):
        if isinstance(e, int) and e >= 0: return x ** e
        if isinstance(e, int) and e < 0:
            if x == 0: raise EvalError("division by zero")
            return Fraction(1) / (Fraction(x) ** (-e)) if isinstance(x, (int, Fraction)) else 1.0 / float(x) ** (-e)
        x = float(x); e = float(e)
        if x < 0: raise EvalError("root of a negative number")
        if x == 0 and e < 0: raise EvalError("division by zero")
        return x ** e

    def fn(self, n, xs):
        if n in ("floor", "ceil"):
            f = math.floor if n == "floor" else math.ceil
            return int(f(xs[0]))
        if n == "abs": return abs(xs[0])
        if n == "min": return min(xs)
        if n == "max": return max(xs)
        if n == "idiv": return xs[0] // xs[1]
        if n == "imod": return xs[0] % xs[1]
        if n == "round": return round(xs[0])
        x = float(xs[0])
        try:
            if n == "exp": return math.exp(x)
            if n == "log": return math.log(x)
            if n == "sin": return math.sin(x)
            if n == "cos": return math.cos(x)
            if n == "tan": return math.tan(x)
            if n == "tanh": return math.tanh(x)
            if n == "sign": return (x > 0) - (x < 0)
            if n == "erf": return math.erf(x)
        except (OverflowError, ValueError):
            raise EvalError(n)
        raise EvalError("function " + n)

    def lam(self, l, b):
        import itertools
        vs, sizes, body = l.args
        sz = [self.integer(self.ev(s, b)) for s in sizes]
        n = 1
        for s in sz: n *= max(s, 0)
        if n > 20000: raise EvalError("tensor too large")
        rel = tuple(sorted((x, b[x]) for x in l.fv if x in b))
        k = ("L", l, rel)
        r = self.memo.get(k)
        if r is None:
            import numpy as np
            out = np.zeros(sz)
            b2 = dict(b); ns = [v.args[0] for v in vs]
            for ix in itertools.product(*[range(s) for s in sz]):
                for q, i in zip(ns, ix): b2[q] = i
                out[ix] = float(self.ev(body, b2))
            r = out
            self.memo[k] = r
        return r

    def app(self, name, ms, ss):
        import numpy as np
        if name == "INV":
            k = ("inv", ms[0].tobytes(), ms[0].shape)
            r = self.memo.get(k)
            if r is None:
                try: r = np.linalg.inv(ms[0])
                except np.linalg.LinAlgError: raise EvalError("singular")
                self.memo[k] = r
            return float(r[self.integer(ss[0]), self.integer(ss[1])])
        if name == "SCORE":
            C, w = float(ss[0]), self.integer(ss[1])
            k = ("score",) + tuple(x.tobytes() for x in ms) + (C, ms[0].shape, ms[1].shape)
            r = self.memo.get(k)
            if r is None:
                r = score_num(ms[0], ms[1], ms[2], ms[3], C)
                self.memo[k] = r
            return float(r[w])
        if name == "EMD":
            k = ("emd",) + tuple(x.tobytes() for x in ms)
            r = self.memo.get(k)
            if r is None:
                r = emd_num(*ms); self.memo[k] = r
            return float(r[self.integer(ss[0]), self.integer(ss[1])])
        # opaque function of its arguments: a fixed generic smooth function
        acc = _h(self.seed, name) * 3
        for i, m in enumerate(ms):
            for j, x in enumerate(np.asarray(m).ravel()): acc += (0.3 + _h(self.seed, name, i, j)) * x
        for i, s in enumerate(ss): acc += (1.0 + 2 * _h(self.seed, name, "s", i)) * float(s)
        return (math.sin(acc) + 0.1 * acc) * self.amp(name)
    def amp(self, name):
        """path costs count per unit of time: multiples of 1/dt too"""
        return (1, 300, 3000, 20000)[int(_h(self.seed, "amp", name) * 4)] if name == "U" else 1

class EvMP(Ev):
    """the same at 40 significant digits: separates a real difference from rounding"""
    DIGITS = 40
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        import mpmath
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
        self.mp.dps = self.DIGITS
        self.inexact = False            # a transport plan (a floating-point linear program) was involved
    def num(self, x):
        if isinstance(x, Fraction): return self.mp.mpf(x.numerator) / x.denominator
        return self.mp.mpf(x)
    def ev(self, t, b):
        r = super().ev(t, b)
        return r
    def _ev(self, t, b):
        r = super()._ev(t, b)
        return self.mp.mpf(r) if isinstance(r, float) else r
    def add(self, x, y):
        if isinstance(x, Fraction) and isinstance(y, self.mp.mpf): x = self.num(x)
        elif isinstance(y, Fraction) and isinstance(x, self.mp.mpf): y = self.num(y)
        return x + y
    def times(self, x, y):
        if isinstance(x, Fraction) and isinstance(y, self.mp.mpf): x = self.num(x)
        elif isinstance(y, Fraction) and isinstance(x, self.mp.mpf): y = self.num(y)
        return x * y
    def real(self, x): return self.num(x)
    def power(self, x, e):
        if isinstance(e, int) and (e >= 0 or isinstance(x, (int, Fraction))): return super().power(x, e)
        x = self.num(x)
        if x == 0 and e < 0: raise EvalError("division by zero")
        if isinstance(e, int): return x ** e
        if x < 0:
            if e > 0 and abs(x) < 1e-33: return self.mp.mpf(0)      # cancellation
            raise EvalError("root of a negative number")
        return x ** self.num(e)
    def fn(self, n, xs):
        if n in ("floor", "ceil"): return int(self.mp.floor(self.num(xs[0])) if n == "floor" else self.mp.ceil(self.num(xs[0])))
        if n == "abs": return abs(xs[0])
        if n in ("min", "max"): return (min if n == "min" else max)(xs, key=self.num)
        if n == "idiv": return xs[0] // xs[1]
        if n == "imod": return xs[0] % xs[1]
        if n == "round": return int(self.mp.nint(self.num(xs[0])))
        x = self.num(xs[0])
        if n == "sign": return int(x > 0) - int(x < 0)
        if n == "exp" and x > 1e6: raise EvalError("exp")
        if n == "log" and x <= 0: raise EvalError("log")
        if n in ("exp", "log", "sin", "cos", "tan", "tanh", "erf"): return getattr(self.mp, n)(x)
        raise EvalError("function " + n)
    def lam(self, l, b):
        import itertools, numpy as np
        vs, sizes, body = l.args
        sz = [self.integer(self.ev(s, b)) for s in sizes]
        n = 1
        for s in sz: n *= max(s, 0)
        if n > 4000: raise EvalError("tensor too large")
        rel = tuple(sorted((x, b[x]) for x in l.fv if x in b))
        k = ("L", l, rel)
        r = self.memo.get(k)
        if r is None:
            out = np.zeros(sz, dtype=object)
            b2 = dict(b); ns = [v.args[0] for v in vs]
            for ix in itertools.product(*[range(s) for s in sz]):
                for q, i in zip(ns, ix): b2[q] = i
                out[ix] = self.num(self.ev(body, b2))
            r = out
            self.memo[k] = r
        return r
    def key(self, m): return (m.shape, tuple(self.mp.nstr(x, 25) for x in m.ravel()))
    def inv(self, A):
        try: B = self.mp.inverse(self.mp.matrix(A.tolist()))
        except ZeroDivisionError: raise EvalError("singular")
        import numpy as np
        n = len(A)
        return np.array([[B[i, j] for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)
    def app(self, name, ms, ss):
        import numpy as np
        if name == "INV":
            if ms[0].ndim != 2 or ms[0].shape[0] != ms[0].shape[1]: raise EvalError("inverse of a non-square matrix")
            k = ("inv", self.key(ms[0])); r = self.memo.get(k)
            if r is None: r = self.memo[k] = self.inv(ms[0])
            return r[self.integer(ss[0]), self.integer(ss[1])]
        if name == "SCORE":
            C, w = self.num(ss[0]), self.integer(ss[1])
            k = ("score", self.mp.nstr(C, 25)) + tuple(self.key(x) for x in ms); r = self.memo.get(k)
            if r is None: r = self.memo[k] = self.score(ms[0], ms[1], ms[2], ms[3], C)
            return r[w]
        if name == "EMD":
            f = [np.array([float(self.mp.nstr(x, 12)) for x in m.ravel()]).reshape(m.shape) for m in ms]
            k = ("emd",) + tuple(self.key(x) for x in ms[:2]) + (f[2].tobytes(),); r = self.memo.get(k)
            if r is None:
                g = emd_num(*f)
                r = self.memo[k] = (peel(g, ms[0], ms[1]), g)
            if r[0] is not None: return self.num(r[0][self.integer(ss[0])][self.integer(ss[1])])
            self.inexact = True
            return self.mp.mpf(float(r[1][self.integer(ss[0]), self.integer(ss[1])]))
        acc = self.mp.mpf(_h(self.seed, name)) * 3
        for i, m in enumerate(ms):
            for j, x in enumerate(m.ravel()): acc += (self.mp.mpf(3) / 10 + self.mp.mpf(_h(self.seed, name, i, j))) * x
        for i, x in enumerate(ss): acc += (1 + 2 * self.mp.mpf(_h(self.seed, name, "s", i))) * self.num(x)
        return (self.mp.sin(acc) + acc / 10) * self.amp(name)
    def score(self, X, Z, l, q, C):
        import numpy as np
        mp = self.mp; d = X.shape[1]
        if any(x <= 0 for x in l): raise EvalError("lengthscale")
        def k(A, B): return np.array([[mp.exp(-sum(((a[j] - b[j]) / l[j]) ** 2 for j in range(d)) / 2) for b in B] for a in A], dtype=object).reshape(len(A), len(B))
        eye = np.array([[mp.mpf(int(i == j)) for j in range(len(Z))] for i in range(len(Z))], dtype=object).reshape(len(Z), len(Z))
        Ks = k(Z, Z) + eye / 1000; Kx = k(X, Z)
        s = np.array([[-sum((X[n, w] - Z[m, w]) / l[w] ** 2 * Kx[n, m] for n in range(len(X))) for w in range(d)] for m in range(len(Z))], dtype=object).reshape(len(Z), d)
        Ki = self.inv(Ks)
        Bm = (C + mp.mpf(1) / 1000) * eye + Ki.dot(Kx.T.dot(Kx))
        return -(k(q[None, :], Z).dot(self.inv(Bm)).dot(Ki).dot(s))[0]

def score_num(X, Z, l, q, C):
    import numpy as np
    def k(A, B): return np.exp(-0.5 * (((A[:, None, :] - B[None, :, :]) / l) ** 2).sum(2))
    Ks = k(Z, Z) + 1e-3 * np.eye(len(Z)); Kx = k(X, Z)
    s = -((X[:, None, :] - Z[None, :, :]) / l ** 2 * Kx[:, :, None]).sum(0)
    Ki = np.linalg.inv(Ks)
    Bm = (C + 1e-3) * np.eye(len(Z)) + Ki @ (Kx.T @ Kx)
    return -(k(q[None, :], Z) @ np.linalg.inv(Bm) @ Ki @ s)[0]

def peel(T, p, u):
    """the plan with exactly the marginals p, u on the support of the plan T (a forest), or None where that is unclear"""
    n, m = T.shape
    small = (T > 1e-13) & (T < 1e-6)
    if small.any() or abs(sum(p) - sum(u)) > 1e-30: return None
    sup = {(i, j) for i in range(n) for j in range(m) if T[i, j] >= 1e-6}
    if len(sup) > n + m - 1: return None
    a, b = list(p), list(u); out = [[0] * m for _ in range(n)]
    while sup:
        for i, j in sup:
            row = sum(1 for q in sup if q[0] == i) == 1
            if row or sum(1 for q in sup if q[1] == j) == 1: break
        else: return None
        x = a[i] if row else b[j]
        out[i][j] = x; a[i] = a[i] - x; b[j] = b[j] - x; sup.discard((i, j))
    if any(abs(x) > 1e-25 for x in a + b): return None
    return out

def emd_num(p, u, D):
    import numpy as np
    from scipy.optimize import linprog
    n, m = D.shape
    A = []
    for i in range(n):
        r = np.zeros((n, m)); r[i, :] = 1; A.append(r.ravel())
    for j in range(m):
        r = np.zeros((n, m)); r[:, j] = 1; A.append(r.ravel())
    res = linprog(D.ravel(), A_eq=np.array(A), b_eq=np.concatenate([p, u]), bounds=(0, None), method="highs")
    if res.status != 0: raise EvalError("no transport plan")
    return res.x.reshape(n, m)
