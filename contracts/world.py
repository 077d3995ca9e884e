"""Construction of the symbolic inputs and the contracts callers are checked against."""
from dv import interp, lib, norm, terms as tm, solver
from dv.terms import *
from dv.values import *

PKG = "DeterministicParticleFlowControl"
EST_NP = PKG + "/score_estimators/score_function_estimators.py"
EST_SC = PKG + "/score_estimators/score.py"
EST_T = PKG + "/score_estimators/score_function_estimators_pytorch.py"
OTM = PKG + "/reweighting/optimal_transport_reweighting.py"
FLOW = PKG + "/DeterministicParticleFlowControl.py"
KERN = PKG + "/kernels"

N, M, D, K = sym("N", "I"), sym("M", "I"), sym("dim", "I"), sym("K", "I")

def arr(m, name, shape, lb="np", ty="float"):
    vs = [tm.fresh("v", "I", ZERO, s) for s in shape]
    return lib.make(m, shape, vs, sel(name, *vs), lb, ty)

def overwrite(m, a, name):
    """the caller writes other contents into the array a (in place) between two calls"""
    c = m.heap[a.cid]
    vs = [tm.fresh("v", "I", ZERO, s) for s in c.shape]
    m.heap[a.cid] = ACell(c.shape, tuple(vs), sel(name, *vs), c.lib, c.ty)

# ------------------------------------------------------------------ contracts of the score estimators
def lamof(m, v, sizes=None):
    t = lib.ten(m, v)
    return lamf(t.shape, lambda *i: t.f(list(i)))

def estimator_contract(all_dims, lb, names):
    """the estimator returns SCORE(X, Z, l)(q, C, w): proved for its body under C01-C03"""
    def ct(m, f, env):
        X, Z, l, C = env["X"], env["Z"], env["l"], env["C"]
        fo = env["func_out"]; kern = env["kern"]
        if kern != "RBF": raise Unsupported("kernel %r" % (kern,))
        tx, tz = lib.ten(m, X), lib.ten(m, Z)
        if len(tx.shape) != 2 or len(tz.shape) != 2: raise PyRaise("IndexError", "estimator needs two-dimensional arrays")
        lib.need_same(m, tx.shape[1], tz.shape[1], "dimensions of samples and inducing points")
        dim = tx.shape[1]
        if isinstance(l, Sc) : L = lamf([dim], lambda k: l.t)
        else:
            tl = lib.ten(m, l)
            if len(tl.shape) == 0: L = lamf([dim], lambda k: tl.f([]))
            elif len(tl.shape) == 1:
                if not lib.same_dim(m, tl.shape[0], dim): raise ShapeError("lengthscales")
                L = lamf([dim], lambda k: tl.f([k]))
            else: raise ShapeError("lengthscales")
        LX = lamf(tx.shape, lambda a, b: tx.f([a, b])); LZ = lamf(tz.shape, lambda a, b: tz.f([a, b]))
        if not all_dims:
            w = env["which_dim"]
            if not isinstance(w, Sc): raise Unsupported("which_dim")
            m.need("which_dim within 1..dim", land(le(ONE, w.t), le(w.t, dim)))
            wi = sub(w.t, ONE)
        c = C.t
        m.calls.append(("score", f.qual, LX, LZ, L, c))
        terms = (LX, LZ, L, c, dim) + (() if all_dims else (wi,))
        def at(m, terms, q):
            LX, LZ, L, c, dim = terms[:5]
            tq = lib.ten(m, q)
            if len(tq.shape) != 2: raise PyRaise("IndexError", "queries must be two-dimensional")
            lib.need_same(m, tq.shape[1], dim, "dimension of queries")
            def g(i, w): return app("SCORE", (LX, LZ, L, lamf([dim], lambda k: tq.f([i, k]))), (c, w))
            if all_dims: return lib.out(m, lib.Ten((tq.shape[0], dim), lambda ix: g(ix[0], ix[1]), lb, "float"))
            return lib.out(m, lib.Ten((tq.shape[0],), lambda ix: g(ix[0], terms[5]), lb, "float"))
        def make(terms): return SpecFn("score function", lambda m, a, k: at(m, terms, a[0] if a else list(k.values())[0]), terms, make)
        if not (isinstance(fo, Sc) and fo.t in (TRUE, FALSE)): raise Unsupported("func_out")
        if fo.t is TRUE: return make(terms)
        return at(m, terms, X)
    return ct

def ot_contract(m, f, env):
    """reweight_optimal_transport_multidim(samples, weights): N times the optimal plan (C06)"""
    names = [a.arg for a in f.node.args.args]
    S, W = env[names[0]], env[names[1]]
    ts, tw = lib.ten(m, S), lib.ten(m, W)
    if len(ts.shape) != 2 or len(tw.shape) != 2: raise ShapeError("reweighting arguments")
    lib.need_same(m, ts.shape[0], tw.shape[0], "one weight per sample")
    need_one(m, tw.shape[1])
    n = ts.shape[0]
    LS = lamf(ts.shape, lambda a, b: ts.f([a, b])); LW = lamf([n], lambda a: tw.f([a, ZERO]))
    m.calls.append(("otmap", f.qual, LS, LW))
    return lib.out(m, lib.Ten((n, n), lambda ix: otmap(LS, LW, ix[0], ix[1]), "np", "float"))

def need_one(m, s):
    if not (s is ONE or m.valid(eq(s, ONE))): raise ShapeError("column of weights")

def otmap(LS, LW, i, j):
    n, d = LS.args[1]
    dist = lamf([n, n], lambda a, b: sqrt(bigf("sum", d, lambda k: power(sub(apply_lam(LS, a, k), apply_lam(LS, b, k)), TWO))))
    u = lamf([n], lambda a: div(ONE, n))
    p = lamf([n], lambda a: apply_lam(LW, a))
    return mul(n, app("EMD", (p, u, dist), (i, j)))

CONTRACTS = {
    (EST_NP, "score_function_multid_seperate"): estimator_contract(False, "np", None),
    (EST_NP, "score_function_multid_seperate_all_dims"): estimator_contract(True, "np", None),
    (EST_NP, "score_function_multid_seperate_old"): estimator_contract(False, "np", None),
    (EST_SC, "score_function_multid_seperate2"): estimator_contract(False, "np", None),
    (EST_T, "torched_score_function_multid_seperate_all_dims"): estimator_contract(True, "torch", None),
    (OTM, "reweight_optimal_transport_multidim"): ot_contract,
}

# ------------------------------------------------------------------ user callbacks
def handed_out(m, v):
    """a user function may return its argument, a view on it or an array it keeps"""
    if isinstance(v, Arr): m.heap[v.cid].ro = "user"
    return v

def opaque_drift(name, lb):
    """pure drift: acts on every column (particle) separately"""
    def ct(m, args, kw):
        if len(args) + len(kw) != 2: raise PyRaise("TypeError", "drift takes (x, t)")
        x = args[0]; t = args[1] if len(args) > 1 else list(kw.values())[0]
        tx = lib.ten(m, x); tt = lib.ten(m, t)
        if tt.shape and not all(s is ONE for s in tt.shape): raise ShapeError("time of the drift")
        tv = tt.f([ZERO] * len(tt.shape))
        d = tx.shape[0]
        def col(ix): return lamf([d], lambda k: tx.f([k] + list(ix)))
        m.calls.append(("drift", name, len(tx.shape)))
        return handed_out(m, lib.out(m, lib.Ten(tx.shape, lambda ix: app(name, (col(ix[1:]),), (ix[0], tv)), lb, "float")))
    return OpaqueFn(name, ct)

def opaque_U(name, lb):
    def ct(m, args, kw):
        if len(args) + len(kw) != 2: raise PyRaise("TypeError", "path constraint takes (x, t)")
        x = args[0]; t = args[1]
        tx = lib.ten(m, x); tt = lib.ten(m, t)
        if tt.shape: raise ShapeError("time of the path constraint")
        tv = tt.f([])
        d = tx.shape[0]
        def col(ix): return lamf([d], lambda k: tx.f([k] + list(ix)))
        return handed_out(m, lib.out(m, lib.Ten(tx.shape[1:], lambda ix: app(name, (col(ix),), (tv,)), lb, "float")))
    return OpaqueFn(name, ct)
