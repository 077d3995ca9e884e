"""C06-C22: reweighting, flows, controls."""
import itertools
from dv import interp, lib, norm, solver, terms as tm
from dv.terms import *
from dv.values import *
from dv.prove import Prover, paths, needs, base_cases
from . import spec, world
from .world import *
from .estimators import machine, get

DT = num("1/1000")
T1, T2, G, TT = sym("t1"), sym("t2"), sym("g"), sym("t", "I")
CLASSES = (("DPFC", "np"), ("torched_DPFC", "torch"))
norm.POS |= set()

def Tm(i): return add(T1, mul(DT, i))

class Flow:
    """a flow object after symbolic construction (one path)"""
    def __init__(self, m, conds, inst, snap, cfg, base):
        self.m = m; self.conds = conds; self.inst = inst; self.snap = snap; self.cfg = cfg; self.base = base
        m.restore(snap)
        self.attrs = m.heap[inst.iid]
        self.lb = cfg["lb"]; self.calls = list(snap[5])
        k = m.getattr(inst, "k")
        self.k = lib.ten(m, k).f([])
        self.ctx = base + conds
        self.state = set()
    def term(self, name):
        a = self.attrs.get(name)
        if not isinstance(a, Arr): raise Unsupported("attribute %s" % name)
        shape, vs, body, _, _ = lib.content(self.m, a)
        for u in walk(body):
            if u.op == "sel" and u.args[0] in interp.DEFS: self.state.add(u.args[0])
        return shape, (lambda *ix: subst(body, {v.args[0]: i for v, i in zip(vs, ix)}))

CFG = {"001": "deterministic", "101": "deterministic, reweighted", "111": "deterministic, reweighted, Brownian bridge",
       "011": "deterministic, Brownian bridge without reweighting", "000": "stochastic", "100": "stochastic, reweighted", "110": "stochastic, reweighted, Brownian bridge"}

def havoc(names):
    """contract of a sampling method used by callers that only need the stored flows: it may set the flow arrays to anything"""
    def ct(m, f, env):
        o = env[f.node.args.args[0].arg]
        for nm in names:
            a = m.heap[o.iid].get(nm)
            if isinstance(a, Arr):
                c = m.heap[a.cid]
                vs = [tm.fresh("v", "I", ZERO, s) for s in c.shape]
                m.heap[a.cid] = ACell(c.shape, tuple(vs), sel("flow" + nm, *vs), c.lib, c.ty)
        return Sc(ZERO, "int")
    return ct

class Runs(list):
    """the paths of a construction; each is visited with its own final heap"""
    def __iter__(self):
        for F in list.__iter__(self):
            F.m.restore(F.snap)
            yield F

def build(P, cls, lb, bits, full=True, kern=None, ylib=None, tag=None, pos=False):
    """construct the object symbolically; list of Flow (one per path)"""
    rw, bb, det = [c == "1" for c in bits]
    tag = tag or "%s(%s)" % (cls, CFG.get(bits, bits))
    ct = dict(world.CONTRACTS)
    if not full:
        ct[(FLOW, cls + ".forward_sampling")] = havoc(["Z"])
        ct[(FLOW, cls + ".forward_sampling_Otto")] = havoc(["Z"])
        ct[(FLOW, cls + ".forward_sampling_Otto_true")] = havoc(["Ztr"])
        ct[(FLOW, cls + ".backward_simulation")] = havoc(["B"])
    try:
        m = machine(P, ct)
        c = get(P, m, FLOW, cls)
    except (Unsupported, OSError, SyntaxError) as e:
        P.undecided(tag, str(e)); return []
    m.budget = 120
    m.ctx += [le(ONE, D), le(ONE, N), le(ONE, M), le(add(T1, DT), T2)]
    base = list(m.ctx)
    yl = ylib or lb
    y1 = arr(m, "y1", (D,), yl); y2 = arr(m, "y2", (D,), yl)
    kw = dict(t1=Sc(T1, "float"), t2=Sc(T2, "float"), y1=y1, y2=y2, f=opaque_drift("f", lb), g=Sc(G, "float"), N=Sc(N, "int"), M=Sc(M, "int"))
    if rw: kw["reweight"] = TRUEV; kw["U"] = opaque_U("U", lb)              # what is off by default is not given
    if bb: kw["brown_bridge"] = TRUEV; kw["f_true"] = opaque_drift("f_true", lb)
    if not det: kw["deterministic"] = FALSEV
    if kern: kw["kern"] = kern
    h0 = dict(m.heap)
    out = Runs()
    for cs, v, s in paths(P, m, tag, lambda: m.call(c, [], kw)):
        try:
            F = Flow(m, cs, v, s, dict(cls=cls, lb=lb, rw=rw, bb=bb, det=det, bits=bits), base)
        except (Unsupported, PyRaise) as e:
            P.undecided(tag, str(e)); continue
        F.tag = tag; F.y1 = y1; F.y2 = y2; F.h0 = h0
        out.append(F)
    needs(P, m, tag + ": construction", base)          # index ranges, shapes, divisors, arrays of user functions left alone
    return out

def unfold(F, t, depth=3):
    """replace the defined arrays at the top of t by their bodies (one level), auxiliary ones (not part of the stored state) completely"""
    def once(t, names):
        def f(u):
            if u.op == "sel" and u.args[0] in names:
                vs, body = interp.DEFS[u.args[0]]
                return subst(body, {v.args[0]: i for v, i in zip(vs, u.args[1:])})
            return None
        return rebuild(t, f)
    names = {u.args[0] for u in walk(t) if u.op == "sel" and u.args[0] in interp.DEFS}
    # only the occurrences present now; the bodies may mention the same arrays at other indices and stay folded
    t = once(t, names)
    for _ in range(depth):
        aux = {u.args[0] for u in walk(t) if u.op == "sel" and u.args[0] in interp.DEFS and u.args[0] not in F.state}
        if not aux: break
        t = once(t, aux)
    return t

def leaves(t, ctx, out=None):
    """cases of a term: (assumptions, branch)"""
    out = [] if out is None else out
    if len(out) > 40: raise Unsupported("too many cases")
    if t.op == "ite":
        c = t.args[0]
        for side, br in ((c, t.args[1]), (lnot(c), t.args[2])):
            if side is FALSE: continue
            if side is TRUE or solver.valid(ctx, side): leaves(br, ctx, out)
            elif solver.feasible(solver.relevant(ctx, side), side): leaves(br, ctx + [side], out)
    else: out.append((ctx, t))
    return out

# ------------------------------------------------------------------ laws
def lam_col(z, n, t): return lamf([D], lambda a: z(a, n, t))
def drift(name, z, n, t, d, time): return app(name, (lam_col(z, n, t),), (d, time))

def mean(f, n): return div(bigf("sum", n, f), n)
def std(F, f, n):
    mu = lambda: mean(f, n)
    s = bigf("sum", n, lambda i: power(sub(f(i), mean(f, n)), TWO))
    return sqrt(div(s, n if F.lb == "np" else sub(n, ONE)))

def score_of(F, x, S, q, d, t, C=DT):
    """SCORE of the cloud x(., ., t) with inducing points S at the point q"""
    LX = lamf([N, D], lambda i, a: x(a, i, t))
    L = lamf([D], lambda a: mul(TWO, std(F, lambda i: x(a, i, t), N)))
    return app("SCORE", (LX, S, L, q), (C, d))

def xi_witnesses(t, dv, nv):
    """candidate standard normal draws xi(d, n) occurring in t"""
    out = []
    for u in walk(t):
        if u.op != "sel" or interp.DRAWS.get(u.args[0], {}).get("kind") != "normal": continue
        idx = list(u.args[1:])
        pd = [i for i, x in enumerate(idx) if x is dv]
        if len(pd) != 1: continue
        pn = [i for i, x in enumerate(idx) if x is nv] or [i for i, x in enumerate(idx) if x.op == "sym" and "$" in x.args[0] and i != pd[0]]
        for p in pn:
            rest = [x for i, x in enumerate(idx) if i not in (pd[0], p)]
            if any(dv.args[0] in x.fv or idx[p].args[0] in x.fv for x in rest): continue
            def w(a, n, idx=tuple(idx), p=p, q=pd[0], nm=u.args[0]):
                l = list(idx); l[q] = a; l[p] = n
                return sel(nm, *l)
            out.append((u.args[0], tuple(idx), pd[0], p, w))
    seen = set(); r = []
    for o in out:
        key = (o[0], o[2], o[3])
        if key not in seen: seen.add(key); r.append(o)
    return r

def ind_witnesses(t, dv):
    """candidate inducing point sets S(d) (lambda terms) occurring in score terms of t whose output dimension is dv"""
    out = []
    for u in walk(t):
        if u.op == "app" and u.args[0] == "SCORE" and u.args[2][1] is dv:
            S = u.args[1][1]
            if S not in [x[1] for x in out]: out.append((u, S))
    return out

def S_at(S, dv, d): return subst(S, {dv.args[0]: d}) if dv.args[0] in S.fv else S

def pre_of(F, leaf):
    """the propagated cloud (before reweighting) handed to the path constraint: function (d, n) -> term"""
    cands = []
    for u in walk(leaf):
        if u.op == "app" and u.args[0] == "U":
            l = u.args[1][0]
            vs, sizes, body = l.args
            ps = [x for x in l.fv if "$" in x and tm.RANGE.get(x) and tm.RANGE[x][1] is N] + [x for x in l.fv if x == "n"]
            if len(ps) != 1: continue
            cands.append((u, lambda a, n, l=l, p=ps[0]: apply_lam(subst(l, {p: n}), a), u.args[2][0]))
    return cands

def reweighted(F, pre, t, d, n, costk):
    w0 = lambda p: fn("exp", mul(DT, app("U", (lamf([D], lambda a: pre(a, p)),), (Tm(t),))))
    tot = bigf("sum", N, w0)
    pl = lamf([N], lambda p: div(w0(p), tot)); ul = lamf([N], lambda p: div(ONE, N))
    sq = lambda i, j: bigf("sum", D, lambda a: power(sub(pre(a, i), pre(a, j)), TWO))
    mx = lambda f: bigf("max", N, lambda i: bigf("max", N, lambda j: f(i, j)))
    if costk == "euclid": cost = lamf([N, N], lambda i, j: sqrt(sq(i, j)))
    elif costk == "sq": cost = lamf([N, N], sq)
    elif costk == "sq/max": cost = lamf([N, N], lambda i, j: div(sq(i, j), mx(sq)))
    else: cost = lamf([N, N], lambda i, j: div(sqrt(sq(i, j)), mx(lambda x, y: sqrt(sq(x, y)))))
    return bigf("sum", N, lambda p: mul(N, pre(d, p), app("EMD", (pl, ul, cost), (p, n))))

DV, NV = sym("d", "I"), sym("n", "I")
def point_ctx(): return [le(ZERO, DV), lt(DV, D), le(ZERO, NV), lt(NV, N)]

def tcases_forward(F, det):
    k = F.k
    c = [("t=1", [eq(TT, ONE), lt(ONE, k)], True)]
    c.append(("t>=2", [le(TWO, TT), lt(TT, k)], not det))
    return c

def first_that(P, name, lhs, goals, ctx):
    """prove lhs equal to one of the goals"""
    goals = list(goals)
    for g in goals[:-1] if len(goals) > 1 else []:
        if P.eq(name, lhs, g, ctx, quiet=True): return P.add(name, "proved", "", "normaliser+z3")
    return P.eq(name, lhs, goals[-1], ctx) if len(goals) == 1 else (P.eq(name, lhs, goals[-1], ctx, quiet=True) and P.add(name, "proved", "", "normaliser+z3") or P.eq_any(name, lhs, goals, ctx))

def check_noise(P, name, wit, ctx, stepwise):
    """the draws used are distinct for distinct (coordinate, particle, step)"""
    nm, idx, pd, pn, w = wit
    ok = pd != pn
    if stepwise:
        mono = False
        for i, x in enumerate(idx):
            if i in (pd, pn): continue
            df = sub(subst(x, {"t": add(TT, ONE)}), x)
            if isnum(df) and val(df) != 0: mono = True
        ok = ok and mono
    P.fact(name + ": one independent draw per coordinate, particle" + (" and step" if stepwise else ""), ok, "draw %s%s" % (nm, [show(x) for x in idx]))

def prove_step(P, name, lhs, ctx, goal_of, noisy, nscores, ind=None, stepwise=False):
    """lhs == goal_of(xi, [S...]) for draws / inducing points occurring in lhs"""
    xis = xi_witnesses(lhs, DV, NV) if noisy else [None]
    inds = ind_witnesses(lhs, DV) if nscores else []
    if noisy and not xis: return P.undecided(name, "no standard normal draw per coordinate and particle occurs")
    if nscores and not inds: return P.undecided(name, "no score estimate occurs")
    combos = []
    for x in xis:
        for ss in itertools.product([i[1] for i in inds], repeat=nscores): combos.append((x, ss))
    # most plausible first
    for x, ss in combos[:16]:
        g = goal_of(x[4] if x else None, list(ss))
        if P.eq(name, lhs, g, ctx, quiet=True):
            P.add(name, "proved", "", "normaliser+z3")
            if x: check_noise(P, name, x, ctx, stepwise)
            return True
    memo = {}
    l2 = base_cases(lhs, ctx, memo)
    for x, ss in combos[:16]:
        g = goal_of(x[4] if x else None, list(ss)); g2 = base_cases(g, ctx, memo)
        if (l2 is not lhs or g2 is not g) and P.eq(name, l2, g2, ctx, quiet=True):
            P.add(name, "proved", "", "normaliser+z3")
            if x: check_noise(P, name, x, ctx, stepwise)
            return True
    x, ss = combos[0]
    if nscores == 2 and len(inds) == 2: ss = (inds[0][1], inds[1][1])
    best = combos[0] if nscores < 2 else (x, ss)
    rest = [c for c in combos if c is not best and c != best][:15]
    if len(combos) > 16: P.eq(name, lhs, goal_of(best[0][4] if best[0] else None, list(best[1])), ctx, refute=False)
    else: P.eq_any(name, lhs, [goal_of(x[4] if x else None, list(ss)) for x, ss in [best] + rest], ctx)
    return False

def forward_law(P, F, arrname="Z", fname="f", det=True, reweight=False):
    z = F.term(arrname)[1]
    for tn, c, noisy in tcases_forward(F, det):
        ctx = F.ctx + point_ctx() + c
        name = "%s: forward step of %s, %s" % (F.tag, arrname, tn)
        try: ls = leaves(unfold(F, z(DV, NV, TT)), ctx)
        except Unsupported as e: P.undecided(name, str(e)); continue
        if not ls: P.undecided(name, "no case")
        for cx, leaf in ls:
            lhs = leaf
            if reweight:
                ps = pre_of(F, leaf)
                if not ps: P.undecided(name, "no path-constraint weights occur"); continue
                lhs = ps[0][1](DV, NV)
            t0 = sub(TT, ONE)
            def goal(xi, S):
                g = add(z(DV, NV, t0), mul(DT, drift(fname, z, NV, t0, DV, Tm(t0))))
                if noisy: return add(g, mul(G, sqrt(DT), xi(DV, NV)))
                return sub(g, mul(DT, HALF, power(G, TWO), score_of(F, z, S[0], lam_col(z, NV, t0), DV, t0)))
            prove_step(P, name, lhs, cx, goal, noisy, 0 if noisy else 1, stepwise=not det)

def backward_law(P, F, det=True):
    z = F.term("Z")[1]; b = F.term("B")[1]; k = F.k
    if det: cases = [("first backward step", [eq(TT, sub(k, TWO)), le(ONE, TT)], True), ("later backward steps", [le(ONE, TT), lt(TT, sub(k, TWO))], False)]
    else: cases = [("backward steps", [le(ONE, TT), le(TT, sub(k, TWO))], True)]
    for tn, c, noisy in cases:
        ctx = F.ctx + point_ctx() + c
        name = "%s: %s" % (F.tag, tn)
        try: ls = leaves(unfold(F, b(DV, NV, TT)), ctx)
        except Unsupported as e: P.undecided(name, str(e)); continue
        if not ls: P.undecided(name, "no case")
        t1 = add(TT, ONE)
        for cx, leaf in ls:
            def goal(xi, S):
                q = lam_col(b, NV, t1)
                fz = drift("f", b, NV, t1, DV, Tm(t1))
                sF = score_of(F, z, S[0], q, DV, t1)
                g = add(sub(b(DV, NV, t1), mul(DT, fz)), mul(DT, power(G, TWO), sF))
                if noisy: return add(g, mul(G, sqrt(DT), xi(DV, NV)))
                return sub(g, mul(DT, HALF, power(G, TWO), score_of(F, b, S[1], q, DV, t1)))
            prove_step(P, name, leaf, cx, goal, noisy, 1 if noisy else 2, stepwise=not det)

def each(P, cls_lb, bitss, **kw):
    cls, lb = cls_lb
    for bits in bitss:
        if not P.turn(): continue
        interp.DEFS.clear()
        for F in build(P, cls, lb, bits, **kw): yield F

def guarded(P, tag, f):
    try: f()
    except (Unsupported, PyRaise) as e: P.undecided(tag, "%s: %s" % (type(e).__name__, e))

def C09(P):
    for F in each(P, CLASSES[0], ("001", "101", "011", "111")):
        guarded(P, F.tag, lambda: forward_law(P, F, reweight=F.cfg["rw"]))
def C11(P):
    for F in each(P, CLASSES[1], ("001", "101", "011", "111")):
        guarded(P, F.tag, lambda: forward_law(P, F, reweight=F.cfg["rw"]))
def C10(P):
    for F in each(P, CLASSES[0], ("001", "101", "111", "011")): guarded(P, F.tag, lambda: backward_law(P, F))
def C12(P):
    for F in each(P, CLASSES[1], ("001", "101", "111", "011")): guarded(P, F.tag, lambda: backward_law(P, F))
def C13(P):
    for c in CLASSES:
        for F in each(P, c, ("000", "100", "110")):
            guarded(P, F.tag, lambda: forward_law(P, F, det=False, reweight=F.cfg["rw"]))
            guarded(P, F.tag, lambda: backward_law(P, F, det=False))

# ------------------------------------------------------------------ C06, C07
def C06(P):
    if not P.turn(): return
    tag = "reweight_optimal_transport_multidim"
    try:
        m = machine(P); f = get(P, m, OTM, tag)
    except (Unsupported, OSError, SyntaxError) as e:
        P.undecided(tag, str(e)); return
    m.ctx += [le(ONE, N), le(ONE, D)]
    base = list(m.ctx)
    tm.SIMPLEX["wts"] = "N"
    for wshape, wn in (((N, ONE), "column"), ((N,), "vector")):
        S = arr(m, "X", (N, D)); Wt = arr(m, "wts", wshape)
        for cs, v, s in paths(P, m, tag, lambda: m.call(f, [S, Wt], {})):
            m.restore(s)
            shape, vs, body, _, _ = lib.content(m, v)
            ctx = base + cs
            if len(shape) != 2: P.undecided(tag + ": shape", str(shape)); continue
            for a in shape: P.valid("%s(%s weights): map is N x N" % (tag, wn), eq(a, N), ctx, refute=True)
            w = (lambda i: sel("wts", i, ZERO)) if len(wshape) == 2 else (lambda i: sel("wts", i))
            sq = lambda i, j: sqrt(bigf("sum", D, lambda a: power(sub(sel("X", i, a), sel("X", j, a)), TWO)))
            goal = mul(N, app("EMD", (lamf([N], w), lamf([N], lambda i: div(ONE, N)), lamf([N, N], sq)), tuple(vs)))
            P.eq("%s(%s weights): N times the optimal plan between the weights and 1/N for Euclidean cost" % (tag, wn), normalised(body, len(wshape)), goal, ctx)
        needs(P, m, tag, base)
    plan_lemmas(P)

def normalised(t, rank):
    """the hypothesis that the weights are nonnegative and sum to one, as rewriting"""
    isw = lambda u, i=None: u.op == "sel" and u.args[0] == "wts" and (i is None or u.args[1] is i) and all(x is ZERO for x in u.args[2:])
    def f(u):
        if u.op == "big" and u.args[0] == "sum" and u.args[2] is ZERO and u.args[3] is N and isw(u.args[4], u.args[1]): return ONE
        if u.op == "fn" and u.args[0] == "abs" and isw(u.args[1]): return u.args[1]
        if u.op == "fn" and u.args[0] == "max" and len(u.args) == 3:
            for x, y in ((u.args[1], u.args[2]), (u.args[2], u.args[1])):
                if isw(x) and isnum(y) and val(y) <= 0: return x
        if u.op == "fn" and u.args[0] == "min" and len(u.args) == 3:
            for x, y in ((u.args[1], u.args[2]), (u.args[2], u.args[1])):
                if isw(x) and isnum(y) and val(y) >= 1: return x
        return None
    return tm.rebuild(t, f)

def plan_lemmas(P):
    """consequences of the transport plan's contract (P >= 0, row sums p, column sums u = 1/N), one instance of each linear fact:
       column sums of N*P are one; row sums are N*p; the plain mean of Y @ (N P) is the weighted mean of Y; convex combination bounds"""
    Pij = lambda i, j: sel("plan", i, j)
    w = lambda i: sel("wts", i)
    Y = lambda i: sel("Y", i)
    i0 = sym("n", "I")
    # mean: (1/N) sum_j sum_i Y_i N P_ij = sum_i Y_i sum_j P_ij = sum_i Y_i w_i
    lhs = div(bigf("sum", N, lambda j: bigf("sum", N, lambda i: mul(Y(i), N, Pij(i, j)))), N)
    mid = bigf("sum", N, lambda i: mul(Y(i), bigf("sum", N, lambda j: Pij(i, j))))
    P.eq("lemma: the mean of the mapped cloud is the row-sum weighted mean", lhs, mid, [le(ONE, N)])
    P.eq("lemma: column sums of the map are N times the plan's", bigf("sum", N, lambda i: mul(N, Pij(i, i0))), mul(N, bigf("sum", N, lambda i: Pij(i, i0))), [le(ONE, N)])

def C07(P):
    for c in CLASSES:
        kinds = ("euclid", "sq/max", "sq", "euclid/max") if c[1] == "np" else ("sq/max", "euclid", "sq", "euclid/max")
        for F in each(P, c, ("101", "100", "111", "110")):
            guarded(P, F.tag, lambda: rw_law(P, F, kinds))
        for F in each(P, c, ("001", "000")):
            z = F.term("Z")[1]
            for tn, cc in (("t=1", [eq(TT, ONE), lt(ONE, F.k)]), ("t>=2", [le(TWO, TT), lt(TT, F.k)])):
                u = unfold(F, z(DV, NV, TT))
                try: ls = leaves(u, F.ctx + point_ctx() + cc)
                except Unsupported as e: P.undecided(F.tag, str(e)); continue
                P.fact("%s: no transport without a path constraint, %s" % (F.tag, tn), not any(x.op == "app" and x.args[0] in ("EMD", "U") for _, l in ls for x in walk(l)), "a transport map is used")

def rw_law(P, F, kinds):
    z = F.term("Z")[1]
    for tn, c in (("t=1", [eq(TT, ONE), lt(ONE, F.k)]), ("t>=2", [le(TWO, TT), lt(TT, F.k)])):
        ctx = F.ctx + point_ctx() + c
        name = "%s: slice %s is the propagated slice times the transport map of the path-cost weights at its own time" % (F.tag, tn)
        ls = leaves(unfold(F, z(DV, NV, TT)), ctx)
        if not ls: P.undecided(name, "no case")
        for cx, leaf in ls:
            ps = pre_of(F, leaf)
            if not ps: P.undecided(name, "no path-constraint weights occur"); continue
            first_that(P, name, leaf, [reweighted(F, ps[0][1], TT, DV, NV, kd) for kd in kinds], cx)
            pre = ps[0][1]
            w0 = lambda p: fn("exp", mul(DT, app("U", (lamf([D], lambda a: pre(a, p)),), (Tm(TT),))))
            P.eq("%s: the weights of slice %s sum to one" % (F.tag, tn), bigf("sum", N, lambda p: div(w0(p), bigf("sum", N, w0))), ONE, cx)

# ------------------------------------------------------------------ C08, C18
def C08(P):
    for cls, lb in CLASSES:
        for bits in ("001", "101", "111", "011", "000", "100", "110"):
            for yl in ((lb,) if lb == "np" or bits != "001" else ("torch", "np")):
                if not P.turn(): continue
                interp.DEFS.clear()
                for F in build(P, cls, lb, bits, ylib=yl): guarded(P, F.tag, lambda: ends(P, F))

def ends(P, F):
    z = F.term("Z")[1]; b = F.term("B")[1]; k = F.k
    ctx = F.ctx + point_ctx()
    y1, y2 = sel("y1", DV), sel("y2", DV)
    tag = F.tag + (" (%s end points)" % F.m.heap[F.y1.cid].lib)
    P.eq(tag + ": forward flow starts at the start point", unfold(F, z(DV, NV, ZERO)), y1, ctx)
    P.eq(tag + ": backward flow is at the target at the last time", unfold(F, b(DV, NV, sub(k, ONE))), y2, ctx)
    P.eq(tag + ": backward flow is at the start point at the first time", unfold(F, b(DV, NV, ZERO)), y1, ctx)
    if F.cfg["rw"] and F.cfg["bb"] and F.cfg["det"]:
        P.eq(tag + ": true-drift flow starts at the start point", unfold(F, F.term("Ztr")[1](DV, NV, ZERO)), y1, ctx)

def C18(P):
    for cls, lb in CLASSES:
        for bits in ("001", "101", "111", "000", "100", "110"):
            if not P.turn(): continue
            interp.DEFS.clear()
            for F in build(P, cls, lb, bits): guarded(P, F.tag, lambda: storage(P, F))

def storage(P, F):
    k = F.k; ctx = F.ctx
    (n,), tg = F.term("timegrid")
    i = sym("t", "I")
    P.valid(F.tag + ": k is the length of the time grid", eq(k, n), ctx, refute=True)
    P.eq(F.tag + ": time grid is t1 + i dt", tg(i), Tm(i), ctx + [le(ZERO, i), lt(i, n)])
    P.eq(F.tag + ": dt is 0.001", lib.ten(F.m, F.m.getattr(F.inst, "dt")).f([]), DT, ctx)
    r = sym("r", "I")
    whole = [eq(mul(num(1000), sub(T2, T1)), r), le(ONE, r)]
    P.valid(F.tag + ": a whole number r of steps gives r+1 grid times", eq(n, add(r, ONE)), ctx + whole, refute=True)
    P.valid(F.tag + ": ... the last of which is t2", eq(Tm(sub(n, ONE)), T2), ctx + whole + [eq(n, add(r, ONE))], refute=True)
    P.valid(F.tag + ": the grid covers the interval to within half a step", land(le(Tm(sub(n, ONE)), add(T2, mul(HALF, DT))), le(sub(T2, mul(HALF, DT)), Tm(sub(n, ONE)))), ctx)
    for nm in ("Z", "B") + (("Ztr",) if F.cfg["rw"] and F.cfg["bb"] and F.cfg["det"] else ()):
        sh, _ = F.term(nm)
        if len(sh) != 3: P.undecided(F.tag + ": shape of " + nm, str(sh)); continue
        for s, want, w in zip(sh, (D, N, k), ("dim", "N", "k")): P.valid("%s: %s has %s entries per axis" % (F.tag, nm, w), eq(s, want), ctx, refute=True)
    P.valid(F.tag + ": dim is the number of coordinates", eq(lib.ten(F.m, F.m.getattr(F.inst, "dim")).f([]), D), ctx, refute=True)

# ------------------------------------------------------------------ controls
def at_region(F, region):
    if region == "interior": return [lt(num(5), TT), lt(TT, sub(F.k, num(5)))]
    if region == "first": return [le(ZERO, TT), le(TT, num(5)), lt(TT, F.k)]
    return [le(sub(F.k, num(5)), TT), lt(TT, F.k), le(ZERO, TT)]

def control(P, F, region, qlib, warm=False, ty="float"):
    """run calculate_u; list of (ctx, shape, vs, term, snapshot).  With warm: after an earlier query with the same object, whose
    contents the caller has changed in between"""
    m = F.m
    m.restore(F.snap)
    k = F.k
    ti = TT
    m.ctx = F.ctx + [le(ONE, K)] + at_region(F, region)
    q = arr(m, "x", (K, D), qlib, ty)
    base = list(m.ctx)
    tag = "%s: control, %s time indices%s%s%s" % (F.tag, region, "" if qlib == F.lb else " (%s queries)" % qlib, ", integer queries" if ty == "int" else "", ", after an earlier query with the same object" if warm else "")
    f = m.getattr(F.inst, "calculate_u")
    cells = dict(m.heap)
    out = []
    def go():
        if warm:
            overwrite(m, q, "x0"); m.call(f, [q, Sc(ti, "int")], {}); overwrite(m, q, "x")
        return m.call(f, [q, Sc(ti, "int")], {})
    for cs, v, s in paths(P, m, tag, go):
        m.restore(s)
        try: shape, vs, body, _, _ = lib.content(m, v)
        except Unsupported as e: P.undecided(tag, str(e)); continue
        out.append((base + cs, shape, vs, body, cells, q))
    needs(P, m, tag, base)
    return tag, out

def fwd_name(F): return "Ztr" if F.cfg["rw"] and F.cfg["bb"] and F.cfg["det"] else "Z"

def warms(F): return (False, True) if F.cfg["bits"] in ("001", "000") else (False,)
def warm_ty(F): return [(w, "float") for w in warms(F)] + ([(False, "int")] if F.lb == "np" else [])

def control_interior(P, F, qlibs=None):
    zn = fwd_name(F)
    for warm, ty in warm_ty(F):
        ql = F.lb
        tag, outs = control(P, F, "interior", ql, warm, ty)
        F.m.restore(F.snap)
        z = F.term(zn)[1]; b = F.term("B")[1]
        for ctx, shape, vs, body, _, _ in outs:
            if len(shape) != 2: P.undecided(tag + ": shape", str(shape)); continue
            P.valid(tag + ": result has one row per dimension", eq(shape[0], D), ctx, refute=True); P.valid(tag + ": result has one column per query", eq(shape[1], K), ctx, refute=True)
            dv, kv = vs
            ctx = ctx + [le(ZERO, dv), lt(dv, D), le(ZERO, kv), lt(kv, K)]
            name = tag + ": score of the backward minus score of the %s cloud at the unmodified query" % ("true-drift forward" if zn == "Ztr" else "forward")
            for cx, leaf in leaves(body, ctx):
                inds = ind_witnesses(leaf, dv)
                if not inds: P.undecided(name, "no score estimate occurs"); continue
                qv = lamf([D], lambda a: sel("x", kv, a))
                goals = [sub(score_of(F, b, S, qv, dv, TT), score_of(F, z, S, qv, dv, TT)) for _, S in inds]
                done = False
                for g in goals:
                    if P.eq(name, leaf, g, cx, quiet=True): P.add(name, "proved", "", "normaliser+z3"); done = True; break
                if not done:
                    P.eq_any(name, leaf, goals, cx)

def control_ends(P, F, qlibs=None):
    zn = fwd_name(F)
    for warm, ty in warm_ty(F):
        ql = F.lb
        for region in ("first", "last"):
            tag, outs = control(P, F, region, ql, warm, ty)
            F.m.restore(F.snap)
            z = F.term(zn)[1]; b = F.term("B")[1]
            for ctx, shape, vs, body, _, _ in outs:
                if len(shape) != 2: P.undecided(tag + ": shape", str(shape)); continue
                P.valid(tag + ": result has one row per dimension", eq(shape[0], D), ctx, refute=True); P.valid(tag + ": result has one column per query", eq(shape[1], K), ctx, refute=True)
                dv, kv = vs
                ctx = ctx + [le(ZERO, dv), lt(dv, D), le(ZERO, kv), lt(kv, K)]
                def gs(x): 
                    mu = mean(lambda i: x(dv, i, TT), N); sd = std(F, lambda i: x(dv, i, TT), N)
                    return div(sub(sel("x", kv, dv), mu), power(sd, TWO))
                P.eq(tag + ": difference of the two Gaussian scores", body, sub(gs(z), gs(b)), ctx)

CTRL = ("001", "101", "011", "000", "100", "111", "110")
def C14(P):
    for c in CLASSES:
        for F in each(P, c, CTRL, full=False): guarded(P, F.tag, lambda: control_interior(P, F))
def C15(P):
    for c in CLASSES:
        for F in each(P, c, CTRL, full=False): guarded(P, F.tag, lambda: control_ends(P, F))
def C16(P):
    for c in CLASSES:
        for F in each(P, c, ("111",)):
            guarded(P, F.tag, lambda: forward_law(P, F, "Ztr", "f_true"))
            z = F.term("Ztr")[1]
            P.eq(F.tag + ": true-drift flow starts at the start point", unfold(F, z(DV, NV, ZERO)), sel("y1", DV), F.ctx + point_ctx())
        for F in each(P, c, ("111", "101", "001", "011", "110"), full=False):
            guarded(P, F.tag, lambda: control_interior(P, F)); guarded(P, F.tag, lambda: control_ends(P, F))
            if F.cfg["rw"] and F.cfg["bb"]: guarded(P, F.tag, lambda: control_box(P, F))

# ------------------------------------------------------------------ C17
def C17(P):
    for c in CLASSES:
        for F in each(P, c, ("001", "101", "111", "000"), full=False): guarded(P, F.tag, lambda: coverage(P, F))

def coverage(P, F):
    for ql, ty in [(F.lb, "float")] + ([("np", "int")] if F.lb == "np" else []):
        m = F.m
        m.restore(F.snap)
        k = F.k
        m.ctx = F.ctx + [le(ZERO, TT), lt(TT, k)]
        base = list(m.ctx)
        q = arr(m, "x", (D,), ql, ty)
        tag = "%s: coverage%s" % (F.tag, " of an integer point" if ty == "int" else "")
        f = m.getattr(F.inst, "check_if_covered")
        def go():
            overwrite(m, q, "x0"); m.call(f, [q, Sc(TT, "int")], {}); overwrite(m, q, "x")       # an earlier query with the same object
            return m.call(f, [q, Sc(TT, "int")], {})
        for cs, v, s in paths(P, m, tag, go):
            m.restore(s)
            z = F.term("Z")[1]; b = F.term("B")[1]
            r = lib.ten(m, v)
            if any(x is not ONE for x in r.shape): P.undecided(tag, "not a single truth value"); continue
            got = lib.as_bool(r.f([ZERO] * len(r.shape)))
            mn = lambda x, d: bigf("min", N, lambda i: x(d, i, TT)); mx = lambda x, d: bigf("max", N, lambda i: x(d, i, TT))
            ok = lambda d: land(le(mn(z, d), sel("x", d)), le(mn(b, d), sel("x", d)), le(sel("x", d), mx(z, d)), le(sel("x", d), mx(b, d)))
            goal = bigf("prod", D, lambda d: ite(ok(d), ONE, ZERO))
            P.eq(tag + ": true exactly inside both ranges in every dimension", b2n(got), goal, base + cs)
        needs(P, m, tag, base)

# ------------------------------------------------------------------ C19
def unchanged(P, name, m, before, cells, ctx=None):
    for c in cells:
        a, b = m.heap.get(c), before.get(c)
        if a is b: continue
        if len(a.shape) != len(b.shape): P.fact(name, False, "an array is resized", ctx=ctx); return
        v = [tm.fresh("v", "I", ZERO, s) for s in b.shape]                # written: with what it held before?
        new, old = (subst(x.body, {u.args[0]: w for u, w in zip(x.vs, v)}) for x in (a, b))
        if not P.eq(name, new, old, list(ctx or []) + [land(le(ZERO, w), lt(w, s)) for w, s in zip(v, b.shape)]): return
    P.fact(name, True, ctx=ctx)

def twice(P, name, m, run, ctx=None):
    """two calls in a row: the second result is storage of its own and the first result keeps its contents"""
    def go():
        r1 = run(); mark = dict(m.heap); r2 = run()
        return r1, r2, mark
    for cs, (r1, r2, mark), s in paths(P, m, name, go):
        m.restore(s)
        if not (isinstance(r1, Arr) and isinstance(r2, Arr)): continue
        P.fact(name + ": a later result is a new array", r2.cid not in mark, "storage that existed before the call", ctx=ctx)
        unchanged(P, name + ": a later call leaves the earlier result unchanged", m, mark, [r1.cid], ctx)

def C19(P):
    from . import estimators as E
    for est in E.NP_ESTIMATORS + [E.T_ESTIMATOR]:
        path, fname, all_ = est
        lb = "torch" if est is E.T_ESTIMATOR else "np"
        for fo in (False, True):
            for lk in ("array", "number"):
                if not P.turn(): continue
                tag = "%s(l: %s%s)" % (fname, lk, ", func_out" if fo else "")
                try: m = machine(P); f = get(P, m, path, fname)
                except (Unsupported, OSError, SyntaxError) as e: P.undecided(tag, str(e)); continue
                m.ctx += E.BASE
                X = arr(m, "X", (N, E.d), lb); Z = arr(m, "Z", (M, E.d), lb); q = arr(m, "x", (K, E.d), lb)
                l, _ = E.lengthscale(m, "tensor" if lb == "torch" and lk == "array" else lk, lb)
                kw = dict(func_out=TRUEV if fo else FALSEV, C=Sc(sym("C"), "float"), l=l)
                if not all_: kw["which_dim"] = Sc(E.W, "int")
                before = dict(m.heap)
                cells = [a.cid for a in (X, Z, q, l) if isinstance(a, Arr)]
                def go():
                    r = m.call(f, [X, Z], kw)
                    if fo: m.call(r, [q], {})
                for cs, v, s in paths(P, m, tag, go):
                    m.restore(s); unchanged(P, tag + ": arguments unchanged", m, before, cells, E.BASE + cs)
                m.heap = dict(before)
                if fo:
                    for cs, h, s in paths(P, m, tag, lambda: m.call(f, [X, Z], kw)):
                        m.restore(s); twice(P, tag + ": queries", m, lambda: m.call(h, [q], {}), E.BASE + cs)
                else: twice(P, tag, m, lambda: m.call(f, [X, Z], kw), E.BASE)
    if P.turn(): frame_kernel(P, E)
    if P.turn(): frame_ot(P)
    # flow objects
    for cls, lb in CLASSES:
        for bits in ("001", "111"):
            if not P.turn(): continue
            interp.DEFS.clear()
            for F in build(P, cls, lb, bits, full=(bits == "001")):
                guarded(P, F.tag, lambda: frame(P, F))
        interp.DEFS.clear()
        if lb == "torch" and P.turn():
            for F in build(P, cls, lb, "001", full=False, ylib="np"): guarded(P, F.tag, lambda: frame(P, F, False))

def frame_kernel(P, E):
    try:
        m = machine(P); c = get(P, m, KERN + "/RBF_pytorch.py", "RBF")
        m.ctx += [le(ONE, N), le(ONE, M), le(ONE, E.d)]
        for xl in ("np", "torch"):
            X = arr(m, "X", (N, E.d), xl); Y = arr(m, "Z", (M, E.d), xl); l = arr(m, "l", (E.d,), xl)
            before = dict(m.heap)
            def go():
                o = m.call(c, [], dict(length_scale=l, multil=TRUEV))
                m.call(m.getattr(o, "Kernel"), [X, Y], {}); m.call(m.getattr(o, "gradient_X"), [X, Y], {})
            for cs, v, s in paths(P, m, "RBF(%s)" % xl, go):
                m.restore(s); unchanged(P, "RBF(%s): arguments unchanged" % xl, m, before, [X.cid, Y.cid, l.cid])
            m.heap = dict(before)
            for cs, o, s in paths(P, m, "RBF(%s)" % xl, lambda: m.call(c, [], dict(length_scale=l, multil=TRUEV))):
                m.restore(s)
                for nm in ("Kernel", "gradient_X"):
                    twice(P, "RBF(%s).%s" % (xl, nm), m, lambda: m.call(m.getattr(o, nm), [X, Y], {})); m.restore(s)
    except (Unsupported, OSError, SyntaxError) as e: P.undecided("RBF", str(e))

def frame_ot(P):
    try:
        m = machine(P); f = get(P, m, OTM, "reweight_optimal_transport_multidim")
        m.ctx += [le(ONE, N), le(ONE, D)]
        S = arr(m, "X", (N, D)); Wt = arr(m, "wts", (N, ONE)); before = dict(m.heap)
        for cs, v, s in paths(P, m, "reweighting map", lambda: m.call(f, [S, Wt], {})):
            m.restore(s); unchanged(P, "reweighting map: arguments unchanged", m, before, [S.cid, Wt.cid])
        m.heap = dict(before)
        twice(P, "reweighting map", m, lambda: m.call(f, [S, Wt], {}))
    except (Unsupported, OSError, SyntaxError) as e: P.undecided("reweighting map", str(e))

def frame(P, F, queries=True):
    m = F.m
    m.restore(F.snap)
    unchanged(P, F.tag + ": construction leaves the end points unchanged", m, F.h0, [F.y1.cid, F.y2.cid], F.ctx)
    if not queries: return
    flows = [F.attrs[n].cid for n in ("Z", "B", "Ztr") if isinstance(F.attrs.get(n), Arr)]
    P.fact(F.tag + ": flows and end points are separate arrays", len(set(flows + [F.y1.cid, F.y2.cid])) == len(flows) + 2, "aliased storage")
    for region in ("first", "interior", "last"):
        tag, outs = control(P, F, region, F.lb)
        for ctx, shape, vs, body, before, q in outs:
            unchanged(P, tag + ": flows and query unchanged", m, before, flows + [q.cid], ctx)
        if outs:
            m.restore(F.snap); m.heap.update({outs[0][5].cid: outs[0][4][outs[0][5].cid]}); m.ctx = list(F.ctx) + [le(ONE, K)] + at_region(F, region)
            twice(P, tag, m, lambda: m.call(m.getattr(F.inst, "calculate_u"), [outs[0][5], Sc(TT, "int")], {}), list(m.ctx))
    m.restore(F.snap)
    m.ctx = F.ctx + [le(ZERO, TT), lt(TT, F.k)]
    q = arr(m, "x", (D,), F.lb); before = dict(m.heap)
    f = m.getattr(F.inst, "check_if_covered")
    for cs, v, s in paths(P, m, F.tag + ": coverage", lambda: m.call(f, [q, Sc(TT, "int")], {})):
        m.restore(s); unchanged(P, F.tag + ": coverage leaves flows and point unchanged", m, before, flows + [q.cid])

# ------------------------------------------------------------------ C20
def box(P, name, S, ctx, lo, hi, dv=None, alt=None):
    """S (lambda over inducing points x dim) is lo(a) + u (hi(a) - lo(a)) with a separate uniform draw per entry"""
    vs, sizes, body = S.args
    if len(vs) != 2: P.undecided(name, "inducing points are not a matrix"); return
    P.valid(name + ": M inducing points", eq(sizes[0], M), ctx, refute=True)
    kv, av = vs
    ctx = ctx + [le(ZERO, kv), lt(kv, M), le(ZERO, av), lt(av, D)]
    for cx, leaf in leaves(push(body), ctx):
        us = [u for u in walk(leaf) if u.op == "sel" and interp.DRAWS.get(u.args[0], {}).get("kind") == "uniform" and kv in u.args and av in u.args]
        if not us: P.undecided(name, "no uniform draw per point and coordinate"); continue
        done = False
        for u in us:
            idx = u.args[1:]
            if len([1 for x in idx if x is kv]) != 1 or len([1 for x in idx if x is av]) != 1: continue
            opts = [(lo, hi)] + ([alt] if alt else [])
            for l, h in opts:
                L, H = l(av), h(av)
                if P.eq(name, leaf, add(L, mul(u, sub(H, L))), cx, quiet=True):
                    P.add(name, "proved", "", "normaliser+z3"); done = True; break
            if done: break
        if not done:
            P.eq_any(name, leaf, [add(l(av), mul(u, sub(h(av), l(av)))) for l, h in [(lo, hi)] + ([alt] if alt else []) for u in us], cx)

def push(t):
    """pull the first conditional of t to the top, so that cases can be split"""
    for _ in range(12):
        c = None
        if t.op == "ite": return ite(t.args[0], push(t.args[1]), push(t.args[2]))
        for u in walk(t):
            if u.op == "ite" and not _bound_in(u.args[0], t) and not any(x.op in ("sel", "big", "app", "fn") and x.sort != "I" for x in walk(u.args[0])): c = u.args[0]; break
        if c is None: return t
        a = rebuild(t, lambda u: u.args[1] if u.op == "ite" and u.args[0] is c else None)
        b = rebuild(t, lambda u: u.args[2] if u.op == "ite" and u.args[0] is c else None)
        return ite(c, push(a), push(b))
    return t

def _bound_in(c, t):
    return not (c.fv <= t.fv)

def slice_rng(x, t):
    return (lambda a: bigf("min", N, lambda i: x(a, i, t))), (lambda a: bigf("max", N, lambda i: x(a, i, t)))

def joint(F, z, b, t):
    zl, zh = slice_rng(z, t); bl, bh = slice_rng(b, t)
    if F.lb == "np": return (lambda a: fn("max", zl(a), bl(a))), (lambda a: fn("min", zh(a), bh(a)))
    return (lambda a: fn("min", zl(a), bl(a))), (lambda a: fn("max", zh(a), bh(a)))

def C20(P):
    for c in CLASSES:
        for F in each(P, c, ("001", "101", "111", "000", "100")): guarded(P, F.tag, lambda: boxes(P, F))
        for F in each(P, c, ("001", "101", "111", "000", "110"), full=False): guarded(P, F.tag, lambda: control_box(P, F))

def boxes(P, F):
    z = F.term("Z")[1]; b = F.term("B")[1]; k = F.k
    t0 = sub(TT, ONE); t1 = add(TT, ONE)
    jobs = []
    if F.cfg["det"]:
        jobs.append(("Z", z, [le(TWO, TT), lt(TT, k)], slice_rng(z, t0), None))
        if F.cfg["rw"] and F.cfg["bb"]:
            y = F.term("Ztr")[1]
            jobs.append(("Ztr", y, [le(TWO, TT), lt(TT, k)], slice_rng(y, t0), None))
    alt = None
    jobs.append(("B", b, [le(ONE, TT), le(TT, sub(k, TWO))], joint(F, z, b, t1), alt))
    for nm, x, c, (lo, hi), alt in jobs:
        ctx = F.ctx + point_ctx() + c
        for cx, leaf in leaves(unfold(F, x(DV, NV, TT)), ctx):
            inds = {}
            for u in walk(leaf):
                if u.op == "app" and u.args[0] == "SCORE" and u.args[1][1] not in inds and not any("$" in f and f != "d" for f in u.args[1][1].fv):
                    inds[u.args[1][1]] = u
            if not inds: P.undecided("%s: inducing points of %s" % (F.tag, nm), "no score estimate occurs")
            for S, u in inds.items():
                name = "%s: inducing points of a step of %s" % (F.tag, nm)
                if nm == "B" and F.lb == "torch": torch_b_box(P, name, S, cx, F, z, b, t1)
                else: box(P, name, S, cx, lo, hi)
                fresh_draw(P, name, S)

def torch_b_box(P, name, S, cx, F, z, b, t1):
    lo, hi = joint(F, z, b, t1)
    zl, zh = slice_rng(z, t1); bl, bh = slice_rng(b, t1)
    lo2 = lambda a: ite(eq(bl(a), bh(a)), zl(a), lo(a))
    hi2 = lambda a: ite(eq(bl(a), bh(a)), zh(a), hi(a))
    from dv.prove import pinned
    first = solver.valid(cx, eq(TT, sub(F.k, TWO)))
    box(P, name, S, cx, lo2, hi2, alt=None if first else (lo, hi))

def fresh_draw(P, name, S):
    """a different draw at every step"""
    us = [u for u in walk(S) if u.op == "sel" and interp.DRAWS.get(u.args[0], {}).get("kind") == "uniform"]
    ok = bool(us)
    for u in us:
        vs = [v for v in S.args[0]]
        rest = [x for x in u.args[1:] if x not in vs]
        sing = rest and any(isnum(sub(subst(x, {"t": add(TT, ONE)}), x)) and val(sub(subst(x, {"t": add(TT, ONE)}), x)) != 0 for x in rest)
        const = rest and all("t" not in x.fv for x in rest)     # a step singled out by its own branch
        ok = ok and bool(sing or const)
    P.fact(name + ": drawn afresh for every step", ok, "draws do not depend on the step")

def control_box(P, F):
    zn = fwd_name(F)
    tag, outs = control(P, F, "interior", F.lb)
    F.m.restore(F.snap)
    z = F.term(zn)[1]; b = F.term("B")[1]
    lo, hi = joint(F, z, b, TT)
    for ctx, shape, vs, body, _, _ in outs:
        dv, kv = vs
        for cx, leaf in leaves(body, ctx + [le(ZERO, dv), lt(dv, D), le(ZERO, kv), lt(kv, K)]):
            inds = []
            for u in walk(leaf):
                if u.op == "app" and u.args[0] == "SCORE" and u.args[1][1] not in inds: inds.append(u.args[1][1])
            if not inds: P.undecided(tag + ": inducing points", "no score estimate occurs")
            for S in inds:
                if kv.args[0] in S.fv: P.undecided(tag + ": inducing points", "depend on the query"); continue
                box(P, tag + ": inducing points", S, cx, lo, hi)

# ------------------------------------------------------------------ C21
def state_check(P, m, tag, h0, own, effects0=0, ctx=None):
    """no shared state is written: every location that existed before keeps its value"""
    bad = [e for e in m.effects[effects0:] if e[0] in ("global-write", "class-write", "reseed", "own-generator", "entropy")]
    P.fact(tag + ": no module, class or generator state is written", not bad, str(bad[:3]), ctx=ctx)
    changed = [c for c, p in h0.items() if m.heap.get(c) is not p and c not in own]
    P.fact(tag + ": nothing that existed before the call is modified", not changed, "cells %s" % changed[:5], ctx=ctx)

def pure_of_entropy(P, name, terms):
    bad = set()
    for t in terms:
        for u in walk(t):
            if u.op == "sym" and u.args[0] in interp.ENTROPY: bad.add(u.args[0])
            if u.op == "sym" and u.args[0] in interp.UNK: bad.add(u.args[0])
    P.fact(name, not bad, "depends on %s" % sorted(bad)[:3])

def C21(P):
    for cls, lb in CLASSES:
        for bits in ("001", "101", "111", "000", "100", "110"):
            if not P.turn(): continue
            interp.DEFS.clear()
            for F in build(P, cls, lb, bits):
                def go():
                    m = F.m
                    m.restore(F.snap)
                    state_check(P, m, F.tag + ": construction", F.h0, set(), ctx=F.ctx)
                    ts = []
                    for nm in ("Z", "B", "Ztr"):
                        if isinstance(F.attrs.get(nm), Arr): ts.append(lib.content(m, F.attrs[nm])[2])
                    ts += [b for _, b in interp.DEFS.values()]
                    pure_of_entropy(P, F.tag + ": flows depend on the arguments and the global generator's draws only", ts)
                    for region in ("first", "interior", "last"):
                        m.effects[:] = []
                        tag, outs = control(P, F, region, F.lb)
                        for ctx, shape, vs, body, before, q in outs:
                            pure_of_entropy(P, tag + ": controls depend on the flows, the query and the global generator's draws only", [body])
                        F_own = set()
                        if outs: state_check(P, m, tag, outs[-1][4], F_own, ctx=outs[-1][0])
                guarded(P, F.tag, go)

# ------------------------------------------------------------------ C22
def canon(F, extra=()):
    """canonical text of the flows: names of defined arrays, draws and bound variables numbered by first use"""
    ren = {}
    def nm(s, pre):
        if s not in ren: ren[s] = "%s%d" % (pre, len(ren))
        return ren[s]
    texts = []; todo = []
    def txt(t):
        import re
        s = show_full(t)
        def r(mo):
            w = mo.group(0)
            if w.startswith(("fin#", "rec#")) and w not in ren: todo.append(w)
            return nm(w, "@")
        return re.sub(r"[A-Za-z_]\w*[#$]\d+", r, s)
    for n in ("Z", "B", "Ztr"):
        a = F.attrs.get(n)
        if isinstance(a, Arr):
            sh, vs, body, _, _ = lib.content(F.m, a)
            texts.append(n + ":" + ",".join(txt(v) for v in vs) + "->" + txt(body))
    seen = set()
    while todo:
        w = todo.pop(0)
        if w in seen or w not in interp.DEFS: continue
        seen.add(w)
        vs, body = interp.DEFS[w]
        texts.append(nm(w, "@") + ":" + ",".join(txt(v) for v in vs) + "->" + txt(body))
    return texts

def show_full(t):
    memo = {}
    def g(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op; a = t.args
        if op == "num": r = str(a[0])
        elif op == "sym": r = a[0]
        elif op == "sel": r = a[0] + "[" + ",".join(map(g, a[1:])) + "]"
        elif op in ("add", "mul", "and"): r = op + "(" + ",".join(map(g, a)) + ")"
        elif op in ("pow", "ite", "not"): r = op + "(" + ",".join(map(g, a)) + ")"
        elif op in ("fn", "cmp"): r = a[0] + "(" + ",".join(map(g, a[1:])) + ")"
        elif op == "big": r = "%s{%s,%s,%s}(%s)" % (a[0], g(a[1]), g(a[2]), g(a[3]), g(a[4]))
        elif op == "lam": r = "lam{%s;%s}(%s)" % (",".join(map(g, a[0])), ",".join(map(g, a[1])), g(a[2]))
        elif op == "app": r = "%s{%s}(%s)" % (a[0], ";".join(map(g, a[1])), ",".join(map(g, a[2])))
        else: r = op
        memo[t] = r
        return r
    return g(t)

def C22(P):
    for cls, lb in CLASSES:
        for bits in ("001", "101", "111", "000", "100", "110"):
            if not P.turn(): continue
            interp.DEFS.clear()
            A = build(P, cls, lb, bits, kern="RBF", tag="%s(%s, kern='RBF')" % (cls, CFG[bits]))
            ta = [canon(F) for F in A]
            interp.DEFS.clear()
            B = build(P, cls, lb, bits, kern="periodic", tag="%s(%s, kern='periodic')" % (cls, CFG[bits]))
            tb = [canon(F) for F in B]
            name = "%s(%s)" % (cls, CFG[bits])
            P.fact(name + ": periodic request gives literally the Gaussian-kernel flows", bool(ta) and (ta == tb or len(ta) == 1 and all(t == ta[0] for t in tb)), "the symbolic flows differ")
            for F in B:
                P.fact(name + ": a warning is issued", any(c[0] == "warn" for c in F.calls), "no warning", ctx=F.ctx)
                n = len([c for c in F.calls if c[0] == "score"])
                P.fact(name + ": every score estimate of the construction uses the Gaussian kernel", n > 0, "no score estimate recorded")
                for region in ("first", "interior", "last"):
                    def go():
                        tag, outs = control(P, F, region, F.lb)
                        P.fact(tag + ": controls use the Gaussian kernel", bool(outs), "control not executable")
                    guarded(P, F.tag, go)

# ------------------------------------------------------------------ contracts of the functions the flows call
def callee_contracts(P, callees):
    """the contracts assumed at the calls made by a flow object, discharged for the bodies of the callees as they are called (lengthscale vectors)"""
    from . import estimators as E
    for kind, qual in callees:
        if kind == "otmap": C06(P); continue
        for est in E.NP_ESTIMATORS + [E.T_ESTIMATOR]:
            if est[1] != qual: continue
            t = est is E.T_ESTIMATOR
            E.estimator(P, est, "tensor" if t else "array", False, "torch" if t else "np")
            E.estimator(P, est, "tensor" if t else "array", True, "torch" if t else "np")
