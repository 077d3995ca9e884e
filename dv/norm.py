"""Normal forms of terms: sums of monomials with bound summation variables.

A normal form is a list of (coefficient, monomial); a monomial is a set of bound summation variables with
ranges and a multiset of atoms with rational exponents.  Two terms are proved equal when the normal form of
their difference is empty.  Every rewriting used here is an identity of real arithmetic (finite sums and
products, exp, powers with nonnegative bases where roots are taken, Iverson brackets), with side conditions
(index ranges, which case of a conditional applies) discharged by z3.
"""
from fractions import Fraction
from math import gcd
import time
from . import terms as tm
from .terms import *
from . import solver

POS = set()        # names of symbols / arrays known to be positive
SYMM_CACHE = {}
STATS = {"nf": 0, "time": 0.0}

class Giveup(Exception):
    pass

class At:
    __slots__ = ("k", "a", "h", "fv", "t")
    def __init__(self, k, a, h, fv):
        self.k = k; self.a = a; self.h = h; self.fv = fv; self.t = None

class Mono:
    __slots__ = ("bv", "f", "h", "fv")
    # bv: dict name -> (lo NF, hi NF); f: list of (At, Fraction)
    def __init__(self, bv, f):
        self.bv = bv; self.f = f
        self.h = hash((tuple(sorted((a.h, e) for a, e in f)), len(bv)))
        fv = EMPTY
        for a, _ in f: fv = fv | a.fv
        for lo, hi in bv.values(): fv = fv | lo.fv | hi.fv
        self.fv = fv - frozenset(bv)

class NF:
    __slots__ = ("m", "h", "fv", "t")
    def __init__(self, m):
        self.m = m; self.t = None
        self.h = hash(tuple(sorted((hash(c), x.h) for c, x in m)))
        fv = EMPTY
        for _, x in m: fv = fv | x.fv
        self.fv = fv
    def __repr__(self): return show(to_term(self))

def name_h(n): return "B" if "$" in n else n
def mk_sym(n, s): return At("sym", (n, s), hash(("sym", name_h(n))), frozenset([n]))
def _u(xs):
    r = EMPTY
    for x in xs: r = r | x.fv
    return r
def mk_sel(arr, idx): return At("sel", (arr, idx), hash(("sel", arr, tuple(i.h for i in idx))), _u(idx))
def mk_exp(n): return At("exp", n, hash(("exp", n.h)), n.fv)
def mk_P(n): return At("P", n, hash(("P", n.h)), n.fv)
def mk_prime(p): return At("prime", p, hash(("prime", p)), EMPTY)
def mk_iv(o, n): return At("iv", (o, n), hash(("iv", o, n.h)), n.fv)
def mk_ivb(a): return At("ivb", a, hash(("ivb", a.h)), a.fv)
def mk_fn(name, args):
    hs = tuple(a.h for a in args)
    if name in ("min", "max"): hs = tuple(sorted(hs))
    return At("fn", (name, args), hash(("fn", name, hs)), _u(args))
def mk_powg(b, e): return At("powg", (b, e), hash(("powg", b.h, e.h)), b.fv | e.fv)
def mk_big(kind, v, lo, hi, body):
    return At("big", (kind, v, lo, hi, body), hash(("big", kind, lo.h, hi.h, body.h)), (body.fv - frozenset([v])) | lo.fv | hi.fv)

class LamN:
    __slots__ = ("vs", "sizes", "body", "h", "fv")
    def __init__(self, vs, sizes, body):
        self.vs = vs; self.sizes = sizes; self.body = body
        self.h = hash(("lam", tuple(s.h for s in sizes), body.h))
        self.fv = (body.fv - frozenset(vs)) | _u(sizes)

def mk_app(name, lams, scalars, sym=False):
    hs = tuple(s.h for s in scalars)
    if sym: hs = tuple(sorted(hs))
    return At("app", (name, lams, scalars, sym), hash(("app", name, tuple(l.h for l in lams), hs)), _u(lams) | _u(scalars))

# ------------------------------------------------------------------ equality up to bound variables
class Env:
    __slots__ = ("m", "inv", "oa", "ob")
    def __init__(self, m, inv, oa, ob):
        self.m = m; self.inv = inv; self.oa = oa; self.ob = ob
E0 = Env({}, {}, EMPTY, EMPTY)

def bind(env, a, b):
    if a in env.m:
        return env if env.m[a] == b else None
    if b in env.inv: return None
    ina, inb = a in env.oa, b in env.ob
    if not ina and not inb:
        return env if a == b else None
    if ina != inb: return None
    m = dict(env.m); m[a] = b
    inv = dict(env.inv); inv[b] = a
    return Env(m, inv, env.oa, env.ob)

_steps = [0]
def eq_at(a, b, env):
    if a.h != b.h or a.k != b.k: return
    if a is b and not (a.fv & env.oa) and not (a.fv & env.ob) and not (a.fv & env.m.keys()) and not (a.fv & env.inv.keys()):
        yield env; return
    _steps[0] += 1
    if _steps[0] > 400000: raise Giveup("matching")
    k = a.k
    if k == "sym":
        e = bind(env, a.a[0], b.a[0])
        if e is not None: yield e
    elif k == "prime":
        if a.a == b.a: yield env
    elif k == "sel":
        if a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]): yield from eq_seq(a.a[1], b.a[1], env)
    elif k in ("exp", "P"):
        yield from eq_nf(a.a, b.a, env)
    elif k == "iv":
        if a.a[0] == b.a[0]: yield from eq_nf(a.a[1], b.a[1], env)
    elif k == "ivb":
        yield from eq_at(a.a, b.a, env)
    elif k == "fn":
        if a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            yield from eq_seq(a.a[1], b.a[1], env)
            if a.a[0] in ("min", "max"): yield from eq_seq(a.a[1], b.a[1][::-1], env)
    elif k == "powg":
        yield from eq_seq(a.a, b.a, env)
    elif k == "big":
        ka, va, la, ha, ba = a.a; kb, vb, lb, hb, bb = b.a
        if ka == kb:
            for e in eq_seq((la, ha), (lb, hb), env):
                yield from eq_lam_bodies((va,), ba, (vb,), bb, e)
    elif k == "app":
        na, lsa, sa, ya = a.a; nb, lsb, sb, yb = b.a
        if na != nb or len(lsa) != len(lsb) or len(sa) != len(sb): return
        for e in eq_seq_l(lsa, lsb, env):
            yield from eq_seq(sa, sb, e)
            if ya and yb and len(sa) == 2: yield from eq_seq(sa, sb[::-1], e)

def eq_lam_bodies(va, ba, vb, bb, env):
    for x in va:
        if x in env.oa or x in env.m: return       # shadowing: give up rather than confuse scopes
    for y in vb:
        if y in env.ob or y in env.inv: return
    m = dict(env.m); inv = dict(env.inv)
    for x, y in zip(va, vb):
        m[x] = y; inv[y] = x
    e = Env(m, inv, env.oa, env.ob)
    for r in eq_nf(ba, bb, e):
        m2 = {x: y for x, y in r.m.items() if x not in va}
        inv2 = {y: x for y, x in r.inv.items() if y not in vb}
        yield Env(m2, inv2, env.oa, env.ob)

def eq_seq(xs, ys, env):
    if not xs:
        yield env; return
    for e in eq_nf(xs[0], ys[0], env):
        yield from eq_seq(xs[1:], ys[1:], e)

def eq_seq_l(xs, ys, env):
    if not xs:
        yield env; return
    a, b = xs[0], ys[0]
    if a.h != b.h or len(a.vs) != len(b.vs): return
    for e in eq_seq(a.sizes, b.sizes, env):
        for e2 in eq_lam_bodies(a.vs, a.body, b.vs, b.body, e):
            yield from eq_seq_l(xs[1:], ys[1:], e2)

def eq_nf(A, B, env):
    if A.h != B.h or len(A.m) != len(B.m): return
    if not A.m:
        yield env; return
    yield from _match(A.m, list(B.m), env, lambda x, y, e: eq_mono(x[1], y[1], e) if x[0] == y[0] and x[1].h == y[1].h else ())

def _match(xs, ys, env, f):
    if not xs:
        yield env; return
    # most constrained first: pick the element of xs with fewest same-hash candidates
    x = xs[0]
    for i, y in enumerate(ys):
        for e in f(x, y, env):
            yield from _match(xs[1:], ys[:i] + ys[i + 1:], e, f)

def eq_mono(a, b, env):
    if a.h != b.h or len(a.bv) != len(b.bv) or len(a.f) != len(b.f): return
    if a is b and not (a.fv & env.oa) and not (a.fv & env.m.keys()) and not (a.fv & env.ob) and not (a.fv & env.inv.keys()):
        yield env; return
    for x in a.bv:
        if x in env.oa or x in env.m: return
    for y in b.bv:
        if y in env.ob or y in env.inv: return
    e0 = Env(env.m, env.inv, env.oa | frozenset(a.bv), env.ob | frozenset(b.bv)) if a.bv else env
    fa = sorted(a.f, key=lambda x: (sum(1 for y in b.f if y[0].h == x[0].h and y[1] == x[1]), len(x[0].fv)))
    def f(x, y, e):
        return eq_at(x[0], y[0], e) if x[1] == y[1] and x[0].h == y[0].h else ()
    for e in _match(fa, list(b.f), e0, f):
        if not a.bv:
            yield e; continue
        ok = True
        for v, (lo, hi) in a.bv.items():
            w = e.m.get(v)
            if w is None or w not in b.bv: ok = False; break
            lo2, hi2 = b.bv[w]
            if not (any(True for _ in eq_nf(lo, lo2, e)) and any(True for _ in eq_nf(hi, hi2, e))): ok = False; break
        if not ok: continue
        m = {x: y for x, y in e.m.items() if x not in a.bv}
        inv = {y: x for y, x in e.inv.items() if y not in b.bv}
        yield Env(m, inv, env.oa, env.ob)

def same(A, B):
    for _ in eq_nf(A, B, E0): return True
    return False
def same_at(a, b):
    if a is b: return True
    for _ in eq_at(a, b, E0): return True
    return False
def same_mono(a, b):
    if a is b: return True
    for _ in eq_mono(a, b, E0): return True
    return False

# ------------------------------------------------------------------ arithmetic
NF0 = NF([])
M1 = Mono({}, [])
def nf_const(q): return NF([(Fraction(q), M1)]) if q else NF0
NF1 = nf_const(1)
LIMIT = 3000

def nf_add(*ns):
    b = {}
    out = []
    for n in ns:
        for c, m in n.m:
            l = b.setdefault(m.h, [])
            for ent in l:
                if same_mono(ent[1], m):
                    ent[0] += c; break
            else:
                ent = [c, m]; l.append(ent); out.append(ent)
    r = [(c, m) for c, m in out if c != 0]
    if len(r) > LIMIT: raise Giveup("normal form too large")
    return NF(r)

def nf_scale(n, q):
    return NF([(c * q, m) for c, m in n.m]) if q else NF0

def const_of(n):
    if not n.m: return Fraction(0)
    if len(n.m) == 1 and not n.m[0][1].f and not n.m[0][1].bv: return n.m[0][0]
    return None

class Norm:
    """normaliser under a fixed list of assumptions"""
    def __init__(self, ctx=(), defs=None, depth=0):
        self.ctx = list(ctx)
        self.memo = {}
        self.condmemo = {}

    # ---- renaming apart
    def rename(self, m, names):
        t = mono_term(m)
        # rename bound vars by rebuilding the sum term
        mp = {}
        inner = factors_term(m.f)
        bv = {}
        order = list(m.bv)
        for v in order:
            lo, hi = m.bv[v]
            w = tm.fresh("r", "I", to_term(lo), to_term(hi))
            mp[v] = w
        body = subst(inner, mp)
        n = self.norm(body)
        # result must be a single monomial again (renaming only)
        assert len(n.m) == 1, "rename"
        c, mm = n.m[0]
        bvn = dict(mm.bv)
        for v in order:
            lo, hi = m.bv[v]
            bvn[mp[v].args[0]] = (self.norm(subst(to_term(lo), mp)), self.norm(subst(to_term(hi), mp)))
        return c, Mono(bvn, mm.f)

    def mono_mul(self, a, b):
        """product of two monomials -> NF"""
        if not a.f and not a.bv: return NF([(Fraction(1), b)])
        if not b.f and not b.bv: return NF([(Fraction(1), a)])
        c = Fraction(1)
        if b.bv and ((a.bv.keys() & b.bv.keys()) or (b.bv.keys() & a.fv)):
            c, b = self.rename(b, None)
        if a.bv and (a.bv.keys() & b.fv):
            c2, a = self.rename(a, None); c *= c2
        bv = dict(a.bv); bv.update(b.bv)
        f = list(a.f)
        post = []
        for at, e in b.f:
            self._mulin(f, at, e)
        return self.finish(c, bv, f)

    def _mulin(self, f, at, e):
        if at.k == "exp":
            for i, (x, ex) in enumerate(f):
                if x.k == "exp":
                    s = nf_add(x.a, at.a)
                    if s.m: f[i] = (mk_exp(s), Fraction(1))
                    else: del f[i]
                    return
            f.append((at, e)); return
        for i, (x, ex) in enumerate(f):
            if x.h == at.h and same_at(x, at):
                if at.k in ("iv", "ivb"): return
                s = ex + e
                if s == 0: del f[i]
                else: f[i] = (x, s)
                return
        f.append((at, e))

    def finish(self, c, bv, f):
        """post-processing of a product of atoms: expand positive integer powers of sums, even powers of abs, ..."""
        for i, (x, e) in enumerate(f):
            if x.k == "P" and e.denominator == 1 and e > 0:
                if e > 6: break
                rest = f[:i] + f[i + 1:]
                n = self.finish(c, bv, rest)
                for _ in range(int(e)): n = self.mul(n, x.a)
                return n
            if x.k == "prime" and (e >= 1 or e < 0):
                import math
                k = math.floor(e)
                rest = f[:i] + f[i + 1:]
                if e - k: rest.append((x, e - k))
                return self.finish(c * Fraction(x.a) ** k, bv, rest)
            if x.k == "fn" and x.a[0] == "abs" and e.denominator == 1 and e % 2 == 0:
                rest = f[:i] + f[i + 1:]
                return self.mul(self.finish(c, bv, rest), self.pow(x.a[1][0], e))
            if x.k == "iv" and x.a[0] == "==" and bv:
                # bound variable fixed by a delta
                r = self.delta(c, bv, f, i)
                if r is not None: return r
            if x.k == "iv" and x.a[0] == "==":
                r = self.fixed(c, bv, f, i)
                if r is not None: return r
        ivs = [x for x, _ in f if x.k == "iv"]
        if len(ivs) > 1:
            r = self.simp_ivs(c, bv, f, ivs)
            if r is not None: return r
        if bv:
            used = EMPTY
            for x, _ in f: used = used | x.fv
            for v in list(bv):
                if v not in used and not any(v in lo.fv or v in hi.fv for w, (lo, hi) in bv.items() if w != v):
                    lo, hi = bv[v]
                    b2 = dict(bv); del b2[v]
                    n = nf_add(hi, nf_scale(lo, -1))
                    k = const_of(n)
                    if k is None and not self.valid(le(to_term(lo), to_term(hi))):
                        n = self.norm(fn("max", to_term(n), ZERO))
                    return self.mul(self.finish(c, b2, f), n)
        return NF([(c, Mono(bv, f))])

    def simp_ivs(self, c, bv, f, ivs):
        conds = [iv_term(x) for x in ivs]
        conj = land(*conds)
        if conj is FALSE or not self.sat(conj): return NF0
        for i, x in enumerate(ivs):
            others = conds[:i] + conds[i + 1:]
            if self.valid_under(others, conds[i]):
                f2 = [(y, e) for y, e in f if y is not x]
                return self.finish(c, bv, f2)
        return None

    def fixed(self, c, bv, f, i):
        """[v == t] g(v) is [v == t] g(t): the youngest variable of the equation is eliminated from the other factors"""
        n = f[i][0].a[1]
        best = None
        for cc, m in n.m:
            if m.bv or len(m.f) != 1 or m.f[0][1] != 1 or m.f[0][0].k != "sym" or abs(cc) != 1: continue
            v, srt = m.f[0][0].a
            if v in bv or srt != "I": continue
            if any(v in m2.fv for _, m2 in n.m if m2 is not m): continue
            k = (1, int(v.rsplit("$", 1)[1])) if "$" in v and v.rsplit("$", 1)[1].isdigit() else (0, v)
            if best is None or k > best[0]: best = (k, v, cc, m)
        if best is None: return None
        _, v, cc, m = best
        others = f[:i] + f[i + 1:]
        if not any(v in x.fv for x, _ in others) and not any(v in lo.fv or v in hi.fv for lo, hi in bv.values()): return None
        sol = to_term(nf_scale(NF([(c2, m2) for c2, m2 in n.m if m2 is not m]), -1 / cc))
        body = subst(factors_term(others), {v: sol})
        body = mul(num(c), iv_ind(f[i][0]), body)
        for w, (lo, hi) in bv.items():
            body = big("sum", sym(w, "I"), subst(to_term(lo), {v: sol}), subst(to_term(hi), {v: sol}), body)
        return self.norm(body)

    def delta(self, c, bv, f, i):
        n = f[i][0].a[1]
        for v in bv:
            if v not in n.fv: continue
            # n == 0 linear in v with coefficient +-1
            cv = None; ok = True; rest = []
            for cc, m in n.m:
                if len(m.f) == 1 and not m.bv and m.f[0][0].k == "sym" and m.f[0][0].a[0] == v and m.f[0][1] == 1:
                    cv = cc
                elif v in m.fv: ok = False
                else: rest.append((cc, m))
            if not ok or cv is None or abs(cv) != 1: continue
            if any(v in lo.fv or v in hi.fv for w, (lo, hi) in bv.items() if w != v): continue
            sol = to_term(nf_scale(NF(rest), -1 / cv))
            lo, hi = bv[v]
            body = mul(num(c), factors_term(f[:i] + f[i + 1:]))
            body = subst(body, {v: sol})
            guard = land(le(to_term(lo), sol), lt(sol, to_term(hi)))
            body = mul(body, ite(guard, ONE, ZERO))
            for w in bv:
                if w == v: continue
                l2, h2 = bv[w]
                vs = sym(w, "I")
                body = big("sum", vs, to_term(l2), to_term(h2), body)
            return self.norm(body)
        return None

    def mul(self, A, B):
        if not A.m or not B.m: return NF0
        ca, cb = const_of(A), const_of(B)
        if ca is not None: return nf_scale(B, ca)
        if cb is not None: return nf_scale(A, cb)
        if len(A.m) * len(B.m) > LIMIT: raise Giveup("product too large")
        parts = []
        for c1, m1 in A.m:
            for c2, m2 in B.m:
                parts.append(nf_scale(self.mono_mul(m1, m2), c1 * c2))
        return nf_add(*parts)

    # ---- powers
    def nonneg_atom(self, x):
        if x.k in ("exp", "prime", "iv", "ivb"): return True
        if x.k == "sym": return x.a[0] in POS
        if x.k == "sel": return x.a[0] in POS
        if x.k == "fn": return x.a[0] == "abs"
        return False

    def pow(self, A, q):
        q = Fraction(q)
        if q == 0: return NF1
        if q == 1: return A
        if not A.m:
            if q > 0: return NF0
            raise Giveup("0 ** negative")
        if len(A.m) == 1:
            c, m = A.m[0]
            if not m.bv:
                r = self.pow_mono(c, m, q)
                if r is not None: return r
        if q.denominator == 1 and 0 < q <= 6:
            r = A
            for _ in range(int(q) - 1): r = self.mul(r, A)
            return r
        return self.pow_atom(A, q)

    def pow_mono(self, c, m, q):
        if q.denominator == 1:
            if q < 0 and any(x.k in ("iv", "ivb") for x, _ in m.f): return None
            f = []
            for x, e in m.f:
                if x.k == "exp": f.append((mk_exp(nf_scale(x.a, q)), Fraction(1)))
                elif x.k in ("iv", "ivb"): f.append((x, Fraction(1)))
                else: f.append((x, e * q))
            return self.finish(c ** int(q), {}, f)
        if c < 0: return None
        f = []
        for x, e in m.f:
            if x.k == "exp": f.append((mk_exp(nf_scale(x.a, q)), Fraction(1)))
            elif x.k in ("iv", "ivb"):
                if q < 0: return None
                f.append((x, Fraction(1)))
            elif self.nonneg_atom(x) or e.denominator != 1 or e % 2 != 0:
                # odd or fractional power: the root is only defined for a nonnegative base
                if len(m.f) > 1 and not self.nonneg_atom(x) and e.denominator == 1: return None
                f.append((x, e * q))
            else: return None
        cc, pf = num_pow(c, q)
        f += pf
        return self.finish(cc, {}, f)

    def pow_atom(self, A, q):
        # rational content, positive common factors
        g = Fraction(0)
        for c, _ in A.m:
            g = fgcd(g, abs(c))
        sgn = 1
        if q.denominator == 1:
            B = NF([(-c, m) for c, m in A.m])
            if B.h < A.h: sgn = -1
        elif len(A.m) == 1 and A.m[0][0] < 0: pass
        A2 = NF([(sgn * c / g, m) for c, m in A.m]) if g != 1 or sgn != 1 else A
        cc, pf = num_pow(g, q)
        if sgn < 0 and int(q) % 2: cc = -cc
        # common positive symbols
        com = []
        for x, e in A2.m[0][1].f:
            if not self.nonneg_atom(x) or x.k not in ("sym", "sel"): continue
            if x.fv & frozenset(A2.m[0][1].bv): continue
            es = []
            for _, m in A2.m:
                hit = [e2 for y, e2 in m.f if y.h == x.h and not (y.fv & frozenset(m.bv)) and same_at(x, y)]
                es.append(hit[0] if hit else Fraction(0))
            mn = min(es) if all(z > 0 for z in es) else (max(es) if all(z < 0 for z in es) else 0)
            if mn: com.append((x, mn))
        ex = self.common_exponent(A2)
        if ex is not None:
            r = self.pow(self.mul(A2, self.atom(mk_exp(nf_scale(ex, -1)))), q)
            return self.mul(self.mul(r, self.atom(mk_exp(nf_scale(ex, q)))), self.finish(cc, {}, list(pf)))
        if com:
            d = NF([(Fraction(1), Mono({}, [(x, -e) for x, e in com]))])
            A3 = self.mul(A2, d)
            r = self.pow(A3, q)
            r = self.mul(r, self.finish(cc, {}, [(x, e * q) for x, e in com] + pf))
            return r
        return self.finish(cc, {}, [(mk_P(A2), q)] + pf)

    def common_exponent(self, A):
        """the largest x, free of summation variables, such that every monomial has the factor exp(x)"""
        cand = None
        for _, m in A.m:
            e = [x for x, _ in m.f if x.k == "exp"]
            if not e: return None
            here = [(c, t) for c, t in e[0].a.m if not (t.fv & m.bv.keys())]
            if cand is None: cand = here
            else: cand = [(c, t) for c, t in cand if any(c == c2 and same_mono(t, t2) for c2, t2 in here)]
            if not cand: return None
        return NF(cand) if cand else None

    # ---- conditions
    def valid(self, c):
        r = self.condmemo.get(c)
        if r is None:
            r = solver.valid(self.ctx, c)
            self.condmemo[c] = r
        return r
    def sat(self, c):
        k = ("s", c)
        r = self.condmemo.get(k)
        if r is None:
            r = solver.feasible(solver.relevant(self.ctx, c), c)
            self.condmemo[k] = r
        return r
    def valid_under(self, hyps, c):
        k = ("u", tuple(hyps), c)
        r = self.condmemo.get(k)
        if r is None:
            r = solver.valid(self.ctx + list(hyps), c)
            self.condmemo[k] = r
        return r

    def cond(self, c):
        """Iverson bracket of a boolean term as NF"""
        if c is TRUE: return NF1
        if c is FALSE: return NF0
        if c.op == "and":
            r = NF1
            for x in c.args: r = self.mul(r, self.cond(x))
            return r
        if c.op == "not":
            return nf_add(NF1, nf_scale(self.cond(c.args[0]), -1))
        if c.op == "sym":
            if self.valid(c): return NF1
            if self.valid(lnot(c)): return NF0
            return NF([(Fraction(1), Mono({}, [(mk_ivb(mk_sym(*c.args)), Fraction(1))]))])
        if c.op == "cmp":
            if self.valid(c): return NF1
            if self.valid(lnot(c)): return NF0
            o, x, y = c.args
            for p, q, o2 in ((x, y, o), (y, x, {"<": ">", "<=": ">=", "==": "=="}[o])):
                # p o2 q with p zero or one and q a constant
                if isnum(q) and is01(p):
                    k = val(q)
                    f = {"<": lambda v: v < k, "<=": lambda v: v <= k, ">": lambda v: v > k, ">=": lambda v: v >= k, "==": lambda v: v == k}[o2]
                    z0, z1 = (1 if f(0) else 0), (1 if f(1) else 0)
                    return nf_add(nf_const(z0), nf_scale(self.norm(p), z1 - z0))
            return self.iv(o, nf_add(self.norm(y), nf_scale(self.norm(x), -1)), x.sort == "I" and y.sort == "I")
        n = self.norm_atom_bool(c)
        return NF([(Fraction(1), Mono({}, [(mk_ivb(n), Fraction(1))]))])

    def norm_atom_bool(self, c):
        if c.op == "app":
            return mk_app(c.args[0], tuple(self.lam(l) for l in c.args[1]), tuple(self.norm(s) for s in c.args[2]))
        if c.op == "sel":
            return mk_sel(c.args[0], tuple(self.norm(i) for i in c.args[1:]))
        if c.op == "fn":
            return mk_fn(c.args[0], tuple(self.norm(i) for i in c.args[1:]))
        raise Giveup("boolean " + c.op)

    def iv(self, o, n, integer):
        """o: '<' means n > 0, '<=' means n >= 0, '==' means n == 0"""
        k = const_of(n)
        if k is not None:
            return NF1 if {"<": k > 0, "<=": k >= 0, "==": k == 0}[o] else NF0
        g = Fraction(0)
        for c, _ in n.m: g = fgcd(g, abs(c))
        n = nf_scale(n, 1 / g) if g != 1 else n
        if o == "==":
            m = nf_scale(n, -1)
            if m.h < n.h: n = m
            return NF([(Fraction(1), Mono({}, [(mk_iv("==", n), Fraction(1))]))])
        if integer and o == "<":
            n = nf_add(n, nf_const(-1)); o = "<="
        # complement
        if integer:
            m = nf_add(nf_scale(n, -1), nf_const(-1)); oc = "<="
        else:
            m = nf_scale(n, -1); oc = "<" if o == "<=" else "<="
        if (m.h, oc) < (n.h, o):
            x = NF([(Fraction(1), Mono({}, [(mk_iv(oc, m), Fraction(1))]))])
            return nf_add(NF1, nf_scale(x, -1))
        return NF([(Fraction(1), Mono({}, [(mk_iv(o, n), Fraction(1))]))])

    # ---- main
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            STATS["nf"] += 1
            r = self._norm(t)
            self.memo[t] = r
        return r

    def atom(self, at): return NF([(Fraction(1), Mono({}, [(at, Fraction(1))]))])

    def _norm(self, t):
        op = t.op; a = t.args
        if op == "num": return nf_const(a[0])
        if t.sort == "B": return self.cond(t)
        if op == "sym": return self.atom(mk_sym(*a))
        if op == "sel":
            for i, x in enumerate(a[1:]):
                it = find_ite(x)
                if it is not None:
                    c = it.args[0]
                    if self.valid(c): return self.norm(repl(t, it, it.args[1]))
                    if self.valid(lnot(c)): return self.norm(repl(t, it, it.args[2]))
                    return self.norm(ite(c, repl(t, it, it.args[1]), repl(t, it, it.args[2])))
            return self.atom(mk_sel(a[0], tuple(self.norm(i) for i in a[1:])))
        if op == "add": return nf_add(*[self.norm(x) for x in a])
        if op == "mul":
            r = NF1
            for x in a: r = self.mul(r, self.norm(x))
            return r
        if op == "pow":
            if a[0].op == "ite": return self.norm(ite(a[0].args[0], power(a[0].args[1], a[1]), power(a[0].args[2], a[1])))
            if isnum(a[1]): return self.pow(self.norm(a[0]), val(a[1]))
            return self.atom(mk_powg(self.norm(a[0]), self.norm(a[1])))
        if op == "ite":
            c = self.cond(a[0])
            k = const_of(c)
            if k == 1: return self.norm(a[1])
            if k == 0: return self.norm(a[2])
            x, y = self.norm(a[1]), self.norm(a[2])
            d = nf_add(x, nf_scale(y, -1))
            return nf_add(y, self.mul(c, d))
        if op == "fn":
            n = a[0]
            if n == "exp":
                if a[1].op == "ite":
                    i = a[1].args
                    return self.norm(ite(i[0], fn("exp", i[1]), fn("exp", i[2])))
                x = self.norm(a[1])
                return self.atom(mk_exp(x)) if x.m else NF1
            args = tuple(self.norm(x) for x in a[1:])
            if n == "abs":
                x = args[0]
                k = const_of(x)
                if k is not None: return nf_const(abs(k))
                if len(x.m) == 1 and not x.m[0][1].bv and all(self.nonneg_atom(y) for y, _ in x.m[0][1].f):
                    return nf_scale(x, 1 if x.m[0][0] > 0 else -1)
                y = nf_scale(x, -1)
                if y.h < x.h: x = y
                args = (x,)
            if n in ("min", "max"):
                if same(args[0], args[1]): return args[0]
                if a[1].sort == "I" and a[2].sort == "I":
                    if self.valid(le(a[1], a[2])): return args[0 if n == "min" else 1]
                    if self.valid(le(a[2], a[1])): return args[1 if n == "min" else 0]
            return self.atom(mk_fn(n, args))
        if op == "big":
            kind, v, lo, hi, body = a
            vn = v.args[0]
            if lo is not ZERO:
                w = tm.fresh("q", "I", ZERO, sub(hi, lo))
                return self.norm(big(kind, w, ZERO, sub(hi, lo), subst(body, {vn: add(w, lo)})))
            if kind != "sum":
                sp = self.split_range(kind, v, hi, body)
                if sp is not None: return self.norm(sp)
            if isnum(hi) and val(hi) <= 4 and kind in ("sum", "prod"):
                parts = [self.norm(subst(body, {vn: num(i)})) for i in range(int(val(hi)))]
                if kind == "sum": return nf_add(*parts)
                r = NF1
                for p in parts: r = self.mul(r, p)
                return r
            if isnum(hi) and 1 <= val(hi) <= 3 and kind in ("min", "max"):
                r = subst(body, {vn: ZERO})
                for i in range(1, int(val(hi))): r = fn(kind, r, subst(body, {vn: num(i)}))
                return self.norm(r)
            if kind == "sum":
                b = self.norm(body)
                nlo, nhi = self.norm(lo), self.norm(hi)
                parts = []
                for c, m in b.m:
                    mm = m
                    if vn in m.bv: c2, mm = self.rename(m, None); c *= c2
                    bv = dict(mm.bv); bv[vn] = (nlo, nhi)
                    parts.append(self.finish(c, bv, list(mm.f)))
                return nf_add(*parts)
            if kind == "prod":
                b = self.norm(body)
                if len(b.m) == 1 and not b.m[0][1].bv:
                    c, m = b.m[0]
                    r = NF1
                    done = True
                    for x, e in m.f:
                        if vn not in x.fv:
                            if x.k in ("iv", "ivb"): done = False; break
                            r = self.mul(r, self.norm(power(atom_term(x, e), hi)))
                        elif x.k == "exp":
                            r = self.mul(r, self.norm(fn("exp", big("sum", v, lo, hi, to_term(x.a)))))
                        else:
                            xb = self.atom(x) if e == 1 else None
                            if xb is None:
                                y = self.atom(mk_big("prod", vn, self.norm(lo), self.norm(hi), self.atom(x)))
                                r = self.mul(r, self.pow(y, e))
                            else:
                                r = self.mul(r, self.atom(mk_big("prod", vn, self.norm(lo), self.norm(hi), xb)))
                    if done:
                        if c != 1: r = self.mul(r, self.norm(power(num(c), hi)))
                        return r
                return self.atom(mk_big("prod", vn, self.norm(lo), self.norm(hi), b))
            b = self.norm(body)
            if vn not in b.fv: return b
            return self.atom(mk_big(kind, vn, self.norm(lo), self.norm(hi), b))
        if op == "app":
            return self.app(t)
        raise Giveup("norm " + op)

    def split_range(self, kind, v, hi, body):
        """a minimum, maximum or product whose body depends on a comparison of v with a bound: two ranges"""
        vn = v.args[0]
        for u in walk(body):
            if u.op != "cmp" or u.args[0] == "==" or vn not in u.fv or any("$" in f and f != vn for f in u.fv if tm.RANGE.get(f) is not None and f in bound_in(body)): continue
            if u.args[1].sort != "I" or u.args[2].sort != "I": continue
            e = sub(u.args[2], u.args[1])                       # cond: e > 0 or e >= 0
            if u.args[0] == "<": e = sub(e, ONE)                # e >= 0
            at0 = subst(e, {vn: ZERO}); d = self.norm(sub(e, at0))
            k = const_of(nf_add(d, nf_scale(self.norm(v), -1))); k2 = const_of(nf_add(d, self.norm(v)))
            if k == 0: s, first, second = neg(at0), FALSE, TRUE     # v >= s
            elif k2 == 0: s, first, second = add(at0, ONE), TRUE, FALSE   # v < s
            else: continue
            strict = kind != "prod"
            if not self.valid(lt(ZERO, s) if strict else le(ZERO, s)) or not self.valid(lt(s, hi) if strict else le(s, hi)): continue
            w1 = tm.fresh("q", "I", ZERO, s); w2 = tm.fresh("q", "I", ZERO, sub(hi, s))
            b1 = subst(repl(body, u, first), {vn: w1}); b2 = subst(repl(body, u, second), {vn: add(w2, s)})
            x, y = big(kind, w1, ZERO, s, b1), big(kind, w2, ZERO, sub(hi, s), b2)
            return mul(x, y) if kind == "prod" else fn(kind, x, y)
        return None

    def lam(self, l):
        k = ("lam", l)
        r = self.memo.get(k)
        if r is None:
            vs, sizes, body = l.args
            r = LamN(tuple(v.args[0] for v in vs), tuple(self.norm(s) for s in sizes), self.norm(body))
            self.memo[k] = r
        return r

    def app(self, t):
        name, lams, scalars = t.args
        for s in scalars:
            it = find_ite(s)
            if it is not None:
                c = it.args[0]
                return self.norm(ite(c, repl(t, it, it.args[1]), repl(t, it, it.args[2])))
        ls = tuple(self.lam(l) for l in lams)
        ss = tuple(self.norm(s) for s in scalars)
        sy = False
        if name == "INV":
            sy = self.symmetric(lams[0], ls[0])
        return self.atom(mk_app(name, ls, ss, sy))

    def symmetric(self, l, ln):
        vs, sizes, body = l.args
        x, y = vs
        p = tm.fresh("y", "I", ZERO, sizes[0])
        sw = subst(body, {x.args[0]: p})
        sw = subst(sw, {y.args[0]: x})
        sw = subst(sw, {p.args[0]: y})
        try:
            return same(self.norm(sw), ln.body)
        except Giveup:
            return False

def is01(t):
    """the term can only be zero or one"""
    if t.sort == "B": return True
    if isnum(t): return val(t) in (0, 1)
    if t.op == "ite": return is01(t.args[1]) and is01(t.args[2])
    if t.op == "mul": return all(is01(x) for x in t.args)
    if t.op == "big": return t.args[0] == "prod" and is01(t.args[4])
    if t.op == "fn": return t.args[0] in ("min", "max") and is01(t.args[1]) and is01(t.args[2])
    return False

def fgcd(a, b):
    if a == 0: return b
    if b == 0: return a
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)

def num_pow(c, q):
    """positive rational to a rational power: (rational, prime atoms)"""
    if c == 1: return Fraction(1), []
    if q.denominator == 1: return c ** int(q), []
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while n > 1 and p * p <= n:
            while n % p == 0: out[p] = out.get(p, 0) + s; n //= p
            p += 1
        if n > 1: out[n] = out.get(n, 0) + s
    cc = Fraction(1); f = []
    import math
    for p, e in out.items():
        x = e * q
        k = math.floor(x)
        cc *= Fraction(p) ** k
        if x - k: f.append((mk_prime(p), x - k))
    return cc, f

def bound_in(t):
    out = set()
    for u in walk(t):
        if u.op == "big": out.add(u.args[1].args[0])
        elif u.op == "lam": out |= {x.args[0] for x in u.args[0]}
    return out

def find_ite(t):
    if not any(True for u in (t,) if u.op in ("ite", "add", "mul")): return None
    if t.op == "ite": return t
    for x in t.args:
        r = find_ite(x)
        if r is not None: return r
    return None

def repl(t, old, new):
    return rebuild(t, lambda u: new if u is old else None)

# ------------------------------------------------------------------ back to terms
def atom_term(x, e):
    if x.t is None: x.t = _atom_term(x)
    return power(x.t, num(e)) if e != 1 else x.t

def _atom_term(x):
    k = x.k
    if k == "sym": b = sym(*x.a)
    elif k == "sel": b = sel(x.a[0], *[to_term(i) for i in x.a[1]])
    elif k == "exp": b = fn("exp", to_term(x.a))
    elif k == "P": b = to_term(x.a)
    elif k == "prime": b = num(x.a)
    elif k == "iv": b = ite(iv_term(x), ONE, ZERO)
    elif k == "ivb":
        y = x.a
        b = ite(atom_term(y, 1), ONE, ZERO)
    elif k == "fn": b = fn(x.a[0], *[to_term(i) for i in x.a[1]])
    elif k == "powg": b = power(to_term(x.a[0]), to_term(x.a[1]))
    elif k == "big":
        kind, v, lo, hi, body = x.a
        b = big(kind, sym(v, "I"), to_term(lo), to_term(hi), to_term(body))
    elif k == "app":
        name, lams, ss, _ = x.a
        b = app(name, [lam([sym(v, "I") for v in l.vs], [to_term(s) for s in l.sizes], to_term(l.body)) for l in lams], [to_term(s) for s in ss])
    else: raise AssertionError(k)
    return b

def iv_term(x):
    o, n = x.a
    return cmp(o, ZERO, to_term(n))

def iv_ind(x): return ite(iv_term(x), ONE, ZERO)

def factors_term(f):
    return mul(*[atom_term(x, e) for x, e in f]) if f else ONE

def mono_term(m):
    t = factors_term(m.f)
    for v, (lo, hi) in m.bv.items():
        t = big("sum", sym(v, "I"), to_term(lo), to_term(hi), t)
    return t

def to_term(n):
    if n.t is None: n.t = add(*[mul(num(c), mono_term(m)) for c, m in n.m])
    return n.t

# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, status, detail=""):
        self.status = status; self.detail = detail

def denominators(n):
    out = []
    for c, m in n.m:
        for x, e in m.f:
            if x.k == "P" and e < 0 and e.denominator == 1 and not (x.fv & frozenset(m.bv)):
                for i, (y, k) in enumerate(out):
                    if same_at(x, y):
                        out[i] = (y, max(k, -e)); break
                else: out.append((x, -e))
    return out

def prove_zero(t, ctx, depth=0):
    """t == 0 under ctx"""
    t0 = time.time()
    try:
        return _prove_zero(t, ctx, depth)
    finally:
        if depth == 0: STATS["time"] += time.time() - t0

QUIET = [False]
def _prove_zero(t, ctx, depth):
    N = Norm(ctx)
    _steps[0] = 0
    n = N.norm(t)
    if not n.m: return Result("proved")
    # a second pass on the reified form can enable more rewriting
    n = by_hypotheses(N, n, ctx)
    if not n.m: return Result("proved")
    ds = denominators(n)
    if ds and len(ds) <= 4:
        try:
            k = n
            for x, e in ds:
                # multiply through by the (nonzero) denominators
                parts = []
                for c, m in k.m:
                    f = list(m.f); N._mulin(f, x, e)
                    parts.append(N.finish(c, m.bv, f))
                k = nf_add(*parts)
            if not k.m: return Result("proved")
        except Giveup:
            pass
    if depth < 2:
        r = congruence(n, ctx, depth)
        if r is not None: return r
    if depth < 6:
        c = split_cond(n)
        if c is not None:
            for side in (c, lnot(c)):
                if not solver.feasible(solver.relevant(ctx, side), side): continue
                r = _prove_zero(to_term(n), list(ctx) + [side], depth + 1)
                if r.status != "proved": return r
            return Result("proved")
    return Result("unknown", "" if QUIET[0] else "residual: " + show(to_term(n))[:600])

def by_hypotheses(N, n, ctx):
    """products of conditions whose value (0 or 1) the path condition fixes"""
    for c in ctx:
        neg_ = c.op == "not"
        e = c.args[0] if neg_ else c
        if e.op != "cmp" or e.args[0] != "==": continue
        for p, q in ((e.args[1], e.args[2]), (e.args[2], e.args[1])):
            if p.op == "big" and p.args[0] == "prod" and isnum(q) and val(q) in (0, 1) and is01(p):
                value = 1 - val(q) if neg_ else val(q)
                a = N.norm(p)
                if len(a.m) != 1 or len(a.m[0][1].f) != 1 or a.m[0][1].bv or a.m[0][0] != 1: continue
                at = a.m[0][1].f[0][0]
                parts = []; hit = False
                for cc, m in n.m:
                    f = [x for x in m.f if not (x[0].h == at.h and not (x[0].fv & frozenset(m.bv)) and x[1] > 0 and same_at(x[0], at))]
                    if len(f) != len(m.f):
                        hit = True
                        if value: parts.append(NF([(cc, Mono(m.bv, f))]))
                    else: parts.append(NF([(cc, m)]))
                if hit: n = nf_add(*parts) if parts else NF0
    return n

def congruence(n, ctx, depth):
    """products, minima and maxima over the same range whose bodies are provably equal are identified"""
    t = to_term(n)
    bigs = []
    for u in walk(t):
        if u.op == "big" and u.args[0] in ("prod", "min", "max") and not any("$" in f or f.startswith("q#") for f in u.fv): bigs.append(u)
    if len(bigs) < 2 or len(bigs) > 6: return None
    for i in range(len(bigs)):
        for j in range(i + 1, len(bigs)):
            a, b = bigs[i], bigs[j]
            if a.args[0] != b.args[0] or a.args[2] is not b.args[2] or a.args[3] is not b.args[3]: continue
            v = tm.fresh("z", "I", a.args[2], a.args[3])
            d = sub(subst(a.args[4], {a.args[1].args[0]: v}), subst(b.args[4], {b.args[1].args[0]: v}))
            if _prove_zero(d, list(ctx) + [le(a.args[2], v), lt(v, a.args[3])], depth + 1).status == "proved":
                return _prove_zero(rebuild(t, lambda u: b if u is a else None), ctx, depth + 1)
    return None

def split_cond(n):
    """a condition on free variables to case-split on"""
    for c, m in n.m:
        for x, e in m.f:
            if x.k == "iv" and not (x.fv & frozenset(m.bv)):
                return iv_term(x)
    for c, m in n.m:
        r = deep_cond(m, frozenset(m.bv))
        if r is not None: return r
    return None

def deep_cond(m, bound):
    for x, e in m.f:
        r = deep_at(x, bound)
        if r is not None: return r
    return None

def deep_at(x, bound):
    if x.k == "iv" and not (x.fv & bound): return iv_term(x)
    subs = []
    if x.k in ("exp", "P"): subs = [(x.a, bound)]
    elif x.k == "sel": subs = [(i, bound) for i in x.a[1]]
    elif x.k == "fn": subs = [(i, bound) for i in x.a[1]]
    elif x.k == "big": subs = [(x.a[4], bound | {x.a[1]})]
    elif x.k == "app": subs = [(l.body, bound | frozenset(l.vs)) for l in x.a[1]] + [(s, bound) for s in x.a[2]]
    for n, b in subs:
        for c, m in n.m:
            r = deep_cond(m, b | frozenset(m.bv))
            if r is not None: return r
    return None

def prove_eq(a, b, ctx=()):
    if a is b: return Result("proved")
    return prove_zero(sub(a, b), list(ctx))
