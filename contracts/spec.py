"""Specification vocabulary: the mathematical objects the contracts are written in."""
import sys
from dv import terms as tm
from dv.terms import *

EPS = num("1/1000")

def sumf(n, f): return bigf("sum", n, f)

def kern(a, b, l, d):
    """Gaussian kernel of two points: a, b, l functions of the dimension index"""
    return fn("exp", mul(num("-1/2"), sumf(d, lambda k: div(power(sub(a(k), b(k)), TWO), power(l(k), TWO)))))

def delta(i, j): return ite(eq(i, j), ONE, ZERO)

def score(X, Z, l, C, N, M, d):
    """the documented estimator: function (point q: k -> term, dimension w) -> term
       X(n,k), Z(m,k), l(k)"""
    Kzz = lambda i, j: add(kern(lambda k: Z(i, k), lambda k: Z(j, k), l, d), mul(EPS, delta(i, j)))
    L1 = lamf([M, M], Kzz)
    Ksinv = lambda i, j: app("INV", (L1,), (i, j))
    Kxz = lambda n, m: kern(lambda k: X(n, k), lambda k: Z(m, k), l, d)
    A = lambda i, j: sumf(N, lambda n: mul(Kxz(n, i), Kxz(n, j)))
    B = lambda i, j: add(mul(add(C, EPS), delta(i, j)), sumf(M, lambda r: mul(Ksinv(i, r), A(r, j))))
    L2 = lamf([M, M], B)
    Binv = lambda i, j: app("INV", (L2,), (i, j))
    def f(q, w):
        grad = lambda m: sumf(N, lambda n: mul(MONE, div(sub(X(n, w), Z(m, w)), power(l(w), TWO)), Kxz(n, m)))
        return neg(sumf(M, lambda a: sumf(M, lambda b: sumf(M, lambda c:
            mul(kern(q, lambda k: Z(a, k), l, d), Binv(a, b), Ksinv(b, c), grad(c))))))
    return f
