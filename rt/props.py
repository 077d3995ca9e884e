"""Run-time contracts: each property evaluated on the real code, on generated inputs (a bounded companion of the proofs)."""
import numpy as np, sys, traceback, os
import oracle as O, world as W

DT = 0.001
BITS = {"det": dict(rw=False, bb=False, det=True), "det_rw": dict(rw=True, bb=False, det=True), "det_rw_bb": dict(rw=True, bb=True, det=True),
        "det_bb": dict(rw=False, bb=True, det=True), "sto": dict(rw=False, bb=False, det=False), "sto_rw": dict(rw=True, bb=False, det=False),
        "sto_rw_bb": dict(rw=True, bb=True, det=False)}

class Run:
    def __init__(self, prop):
        self.prop = prop; self.violations = []; self.evals = 0; self.distinct = set(); self.notes = []; self.samples = []
        self.pools = {}; self.maxerr = 0.0; self.assertions = 0; self.pool_cfgs = []
    def note_err(self, best, c, t):
        r = best[0] / best[1]
        if r > self.maxerr:
            self.maxerr = r
            if os.environ.get("RT_DEBUG"): print(r, best, t, c)
    def bad(self, cfg, what, **detail):
        if len(self.violations) < 20: self.violations.append(dict(what=what, case=cfg, detail={k: _j(v) for k, v in detail.items()}))
    def close(self, cfg, what, got, want, tol):
        self.assertions += 1
        try: got = np.asarray(got, float)
        except (TypeError, ValueError):
            self.bad(cfg, what + ": not an array of numbers", got=str(got)[:60]); return False
        want = np.asarray(want, float)
        if got.shape != want.shape:
            self.bad(cfg, what + ": shape", got=list(got.shape), want=list(want.shape)); return False
        if got.size == 0: return True
        if not np.all(np.isfinite(got)) and np.all(np.isfinite(want)):
            self.bad(cfg, what + ": not finite", got=got.reshape(-1)[:6]); return False
        e = np.abs(got - want)
        self.maxerr = max(self.maxerr, float(np.max(e / (np.max(np.abs(want)) + 1e-300))) if np.max(np.abs(want)) > 0 else 0)
        if np.max(e) > tol:
            i = np.unravel_index(np.argmax(e), e.shape)
            self.bad(cfg, what, index=[int(x) for x in i], got=float(got[i]), want=float(want[i]), error=float(e[i]), tolerance=float(tol)); return False
        return True
    def true(self, cfg, what, ok, **d):
        self.assertions += 1
        if not ok: self.bad(cfg, what, **d)
        return ok
    def pool(self, name, x):
        self.pools.setdefault(name, []).append(np.asarray(x, float))

def _j(v):
    if isinstance(v, np.ndarray): return v.reshape(-1)[:20].tolist()
    if isinstance(v, (np.floating, np.integer)): return v.item()
    return v

def rng_of(cfg): return np.random.RandomState(cfg["dseed"])

# ================================================================== estimators
def est_case(rng, mi, hints, props, i):
    ints, floats = mi
    c = dict(N=int(rng.choice([1, 2, 3, 5, 8, 13])), M=int(rng.choice([1, 2, 3, 4, 7])), d=int(rng.choice([1, 2, 2, 3, 4, 5])), K=int(rng.choice([1, 2, 4, 6])))
    c["C"] = float(rng.choice([1e-3, 1e-3, 0.0, 1e-5, 2e-4, 0.02, 0.05, 0.7, 3.0, 40.0]))
    c["lk"] = str(rng.choice(props["lk"]))
    c["scale"] = float(rng.choice([0.3, 1.0, 1.0, 5.0])); c["lscale"] = float(rng.choice([0.5, 1.0, 2.0]))
    c["shift"] = float(rng.choice([0, 0, 2.0, -3.0, 0, 0, 2.0, 1e5])); c["share"] = bool(rng.rand() < 0.3); c["order"] = str(rng.choice(["C", "F", "C", "F", "strided", "reversed"]))
    c["dseed"] = int(rng.randint(2 ** 31 - 1))
    if i >= 8 and ints and rng.rand() < 0.6:
        k = str(rng.choice(["N", "M", "d", "K", "N", "M"])); v = int(rng.choice(ints)) + int(rng.choice([-1, 0, 1]))
        v = max(1, min(v, {"N": 400, "M": 60, "d": 14, "K": 300}[k])); c[k] = v
    if i >= 8 and floats and rng.rand() < 0.3:
        k = str(rng.choice(["C", "scale", "lscale", "shift"])); c[k] = float(rng.choice(floats)) * float(rng.choice([0.9, 1.0, 1.1]))
    c["hist"] = str(rng.choice(["plain", "mutate X", "mutate Z", "mutate all", "fresh"]))
    if i >= 4 and rng.rand() < 0.2: c["dup"] = str(rng.choice(["Z", "X", "both"]))
    if i >= 2 and rng.rand() < 0.25: c["shape"] = str(rng.choice(["lattice", "sorted", "axes", "positive", "integers", "int dtype"]))
    if i >= 6 and floats and rng.rand() < 0.35:                       # one lengthscale near a constant of the source, with points at that distance
        c["l0"] = float(rng.choice(floats)) * float(rng.choice([0.2, 0.5, 0.9, 1.1, 2.0]))
        c["l0"] = min(max(c["l0"], 1e-4), 1e4); c["scale"] = c["l0"] * float(rng.choice([0.7, 1.5])); c["shift"] = 0.0; c["lscale"] = 1.0
    if hints and i < 3 * len(hints):
        h = hints[i % len(hints)]
        for k in ("N", "M", "K", "d"):
            if k in h: c[k] = max(1, min(int(h[k]), 300))
        if isinstance(h.get("C"), float) and 0 < h["C"] < 1e3: c["C"] = h["C"]
        ins = h.get("_inputs") or {}
        if ("X" in ins or "l" in ins or "x" in ins) and max(c[k] for k in ("N", "M", "K", "d")) <= 80:     # the verifier's counterexample
            for k in ("dup", "l0", "shape"): c.pop(k, None)
            c["arrays"] = {k: {j: v for j, v in ins[k].items()} for k in ("X", "Z", "x", "l", "X2", "Z2", "x2", "l2", "A1", "A2", "lint") if k in ins}
            for k in ("ls", "li", "sv"):
                if k in h: c["arrays"][k] = h[k]
            if "C" in h: c["C"] = float(h["C"])
            lk = [k for k in LKS if "(l: %s" % k in h.get("_ob", "") or "(length_scale: %s;" % k in h.get("_ob", "")]
            if lk: c["lk"] = {"number": "float", "int number": "int"}.get(lk[0], lk[0])
            c["order"] = "C"; c["share"] = False; c["hist"] = "given" if any(k in ins for k in ("X2", "Z2", "x2")) else "plain"
    return c

LKS = ["number", "int number", "int list", "int array", "int tensor", "mixed list", "0-d tensor", "0-d array", "array", "list", "tuple", "tensor"]

def fill(a, d):
    """the entries that the counterexample fixes"""
    for ix, v in (d or {}).items():
        ix = tuple(int(q) for q in ix.split(","))
        if all(q < n for q, n in zip(ix, a.shape)): a[ix] = v
    return a

def arrange(c, a):
    """point sets of special shapes and memory layouts"""
    k = c.get("shape")
    if k == "lattice": a = np.round(a * 2 / c["scale"]) * c["scale"] / 2
    elif k in ("integers", "int dtype"): a = np.round(a * 3 / c["scale"])
    elif k == "positive": a = np.abs(a) + 0.1 * c["scale"]
    elif k == "sorted": a = np.sort(a, axis=0)
    elif k == "axes": a = np.where(np.arange(a.shape[1])[None] == np.arange(len(a))[:, None] % a.shape[1], a, 0.0); a[-1] = 0
    if k == "int dtype": a = a.astype(int)
    if c["order"] == "F": return np.asfortranarray(a)
    if c["order"] == "strided":
        b = np.full((2 * len(a), a.shape[1] + 1), 9, dtype=a.dtype); b[::2, :-1] = a; return b[::2, :-1]
    if c["order"] == "reversed": return a[::-1, ::-1].copy()[::-1, ::-1]
    return a

def est_data(c):
    r = rng_of(c)
    f = lambda a: arrange(c, a)
    G = c.get("arrays") or {}
    X = f(r.randn(c["N"], c["d"]) * c["scale"] + c["shift"])
    Z = f(r.randn(c["M"], c["d"]) * c["scale"] + c["shift"])
    if c["share"]: Z[0] = X[0]
    Q = f(r.randn(c["K"], c["d"]) * c["scale"] * 1.3 + c["shift"])
    if c["share"]: Q[0] = X[-1]
    if c.get("dup") in ("Z", "both"): Z[-1] = Z[0]
    if c.get("dup") in ("X", "both"): X[-1] = X[0]
    fill(X, G.get("X")); fill(Z, G.get("Z")); fill(Q, G.get("x"))
    if "l0" in c:
        l = c["l0"] * (0.7 + 0.6 * r.rand(c["d"]))
        if r.rand() < 0.5: X[:, 1:] *= 2; Z[:, 1:] *= 2; Q[:, 1:] *= 2; l[1:] *= 2
        l[0] = c["l0"]
    else: l = (0.4 + r.rand(c["d"]) * 1.6) * c["lscale"] * max(c["scale"], 0.3)
    fill(l, G.get("l") or G.get("lint"))
    lk = c["lk"]
    if "ls" in G and lk in ("float", "0-d tensor", "0-d array"): l[0] = G["ls"]
    if "li" in G and lk == "int": l[0] = G["li"]
    if lk in ("int list", "int array", "int tensor"): l = np.ceil(l)
    elif lk == "mixed list": l[0] = np.ceil(l[0])
    if lk == "int": L = int(np.ceil(l[0])); l = np.full(c["d"], float(L))
    elif lk == "float": L = float(l[0]); l = np.full(c["d"], L)
    elif lk == "list": L = [float(x) for x in l]
    elif lk == "int list": L = [int(x) for x in l]
    elif lk == "mixed list": L = [int(l[0])] + [float(x) for x in l[1:]]
    elif lk == "tuple": L = tuple(float(x) for x in l)
    elif lk == "array": L = l.copy()
    elif lk == "int array": L = l.astype(int)
    elif lk in ("tensor", "0-d tensor", "int tensor"):
        import torch
        if lk == "tensor": L = torch.tensor(l, dtype=torch.float64)
        elif lk == "int tensor": L = torch.tensor(l.astype(int))
        else: L = torch.tensor(float(l[0]), dtype=torch.float64); l = np.full(c["d"], float(l[0]))
    elif lk == "0-d array": L = np.array(l[0]); l = np.full(c["d"], float(l[0]))
    return X, Z, Q, L, l

def tol_of(w, e, f=1e-7): return f * (np.max(np.abs(w)) if w.size else 0) + 20 * e + 1e-9

NP_EST = [("np_est", "score_function_multid_seperate", False), ("np_est", "score_function_multid_seperate_old", False),
          ("np_est", "score_function_multid_seperate_all_dims", True), ("score", "score_function_multid_seperate2", False)]

def put(a, v):
    """write v into the array or tensor a in place"""
    if hasattr(a, "copy_"): a.copy_(_t(v))
    else: a[...] = v

def histories(c, X, Z, Q, put_l=None):
    """the same objects with other contents (in place), or other objects of the same shape: the next contents (label, X, Z, Q)"""
    r = rng_of(dict(c, dseed=c["dseed"] ^ 5)); h = c.get("hist", "plain")
    if h == "plain": return
    x, z, q = W.npy(X), W.npy(Z), W.npy(Q)
    if h == "given":
        G = c["arrays"]; x, z, q = fill(x.copy(), G.get("X2")), fill(z.copy(), G.get("Z2")), fill(q.copy(), G.get("x2"))
    if h in ("mutate X", "mutate all"): x = x.copy(); x[r.randint(len(x))] += 0.5 * c["scale"] * (1 + r.rand(x.shape[1]))
    if h in ("mutate Z", "mutate all"): z = z.copy(); z[-1] -= 0.5 * c["scale"] * (1 + r.rand(z.shape[1]))
    if h == "mutate all": q = q.copy(); q[0] += 0.3 * c["scale"]
    if h == "fresh": x = x[::-1].copy(); z = z * 0.9; q = q + 0.1
    else:
        put(X, x); put(Z, z); put(Q, q)
        yield "after a change in place", X, Z, Q; return
    yield "for other arrays of the same shape", type_like(X, x), type_like(Z, z), type_like(Q, q)

def type_like(a, v): return _t(v) if hasattr(a, "detach") else v

def check_C01(run, c):
    X, Z, Q, L, l = est_data(c)
    values_C01(run, c, X, Z, L, l, "")
    for what, X2, Z2, _ in histories(c, X, Z, Q): values_C01(run, c, X2, Z2, L, l, ", " + what)
    if isinstance(L, np.ndarray) and L.ndim == 1 and L.dtype == float:
        L *= 1.3; values_C01(run, c, X, Z, L, l * 1.3, ", lengthscales changed in place")

def defaults(c):
    """(query name, reference, its error) of a call that gives neither lengthscale (1) nor C (0.001)"""
    def f(X, Z, Q, **kw): return O.score(W.npy(X), W.npy(Z), W.npy(Q), np.ones(c["d"]), 1e-3, err=True, **kw)
    return f

def values_C01(run, c, X, Z, L, l, sfx):
    w, e = defaults(c)(X, Z, X)
    for mn, fn, all_ in NP_EST:                                       # first dimension, values at the samples
        got = np.asarray(getattr(getattr(W.mods(), mn), fn)(X, Z))
        run.close(c, "%s with its defaults%s" % (fn, sfx), got, w if all_ else w[:, 0], tol_of(w, e))
    w, e = O.score(X, Z, X, l, c["C"], err=True)
    for mn, fn, all_ in NP_EST:
        f = getattr(getattr(W.mods(), mn), fn)
        dims = [None] if all_ else range(1, c["d"] + 1)
        for k in dims:
            kw = dict(C=c["C"], l=L)
            if k: kw["which_dim"] = k
            got = np.asarray(f(X, Z, **kw))
            want = w if all_ else w[:, k - 1]
            run.close(c, "%s%s at the samples%s" % (fn, "" if all_ else " dimension %d" % k, sfx), got, want, tol_of(w, e))

def variants(c, Q):
    """query batches that resemble Q: one entry changed, rows permuted, a prefix, the same rows twice"""
    r = rng_of(dict(c, dseed=c["dseed"] ^ 9))
    for what in ("last entry", "first entry", "some entry", "reversed", "prefix", "doubled"):
        q = Q.copy()
        if what == "last entry": q[-1, -1] += 0.4 * c["scale"]
        elif what == "first entry": q[0, 0] += 0.4 * c["scale"]
        elif what == "some entry": q[r.randint(len(q)), r.randint(q.shape[1])] -= 0.4 * c["scale"]
        elif what == "reversed": q = q[::-1].copy()
        elif what == "prefix": q = q[:max(1, len(q) // 2)].copy()
        else: q = np.concatenate([q, q])
        yield what, q

def check_C02(run, c):
    X, Z, Q, L, l = est_data(c)
    values_C02(run, c, X, Z, Q, L, l, "")
    for what, X2, Z2, Q2 in histories(c, X, Z, Q): values_C02(run, c, X2, Z2, Q2, L, l, ", " + what)

def values_C02(run, c, X, Z, Q, L, l, sfx):
    w, e = defaults(c)(X, Z, Q)
    for mn, fn, all_ in NP_EST:
        got = np.asarray(W.func(getattr(getattr(W.mods(), mn), fn)(X, Z, func_out=True))(Q))
        run.close(c, "%s, functional, with its defaults%s" % (fn, sfx), got, w if all_ else w[:, 0], tol_of(w, e))
    w, e = O.score(X, Z, Q, l, c["C"], err=True); wx, ex = O.score(X, Z, X, l, c["C"], err=True)
    vs = [(what, (v,) + O.score(X, Z, v, l, c["C"], err=True)) for what, v in variants(c, Q)]
    for mn, fn, all_ in NP_EST:
        f = getattr(getattr(W.mods(), mn), fn)
        for k in ([None] if all_ else range(1, c["d"] + 1)):
            kw = dict(C=c["C"], l=L)
            if k: kw["which_dim"] = k
            h = W.func(f(X, Z, func_out=True, **kw))
            pick = (lambda a: a) if all_ else (lambda a: a[:, k - 1])
            nm = "%s%s, functional%s" % (fn, "" if all_ else " dimension %d" % k, sfx)
            def val(q, want):
                return np.asarray(h(q))
            run.close(c, nm + " at queries", val(Q, pick(w)), pick(w), tol_of(w, e))
            run.close(c, nm + " at the samples", val(X, pick(wx)), pick(wx), tol_of(wx, ex))
            run.close(c, nm + " at one query", val(Q[-1:], pick(w[-1:])), pick(w[-1:]), tol_of(w, e))
            run.close(c, nm + " at queries again", val(Q, pick(w)), pick(w), tol_of(w, e))
            q = Q.copy()
            for what, v in vs:
                run.close(c, "%s at similar queries (%s)" % (nm, what), val(v[0], pick(v[1])), pick(v[1]), tol_of(v[1], v[2]))
                if v[0].shape == q.shape:
                    q[...] = v[0]
                    run.close(c, "%s at queries changed in place (%s)" % (nm, what), val(q, pick(v[1])), pick(v[1]), tol_of(v[1], v[2]))
            d = np.asarray(f(X, Z, **kw))
            run.close(c, nm + " agrees with the values", val(X, pick(wx)), d, tol_of(wx, ex))

def _t(a):
    import torch
    return torch.tensor(np.array(a, order="C"), dtype=torch.float64)

def forward_strides(*arrs):
    """PyTorch refuses arrays with negative strides"""
    return [a if all(k >= 0 for k in a.strides) else a.copy() for a in arrs]

def check_C03(run, c):
    X, Z, Q, L, l = est_data(c)
    X, Z, Q = forward_strides(X, Z, Q)
    f = W.mods().t_est.torched_score_function_multid_seperate_all_dims
    w, e = O.score(X, Z, Q, l, c["C"], err=True, f32=True); wx, ex = O.score(X, Z, X, l, c["C"], err=True, f32=True)
    r = rng_of(c)
    for q, fo in ((X, False), (Q, True)):
        wv, ev = defaults(c)(X, Z, q, f32=True)
        got = W.func(f(_t(X), _t(Z), func_out=True))(_t(q)) if fo else f(_t(X), _t(Z))
        run.close(c, "torch estimator with its defaults%s" % (", functional" if fo else ""), W.npy(got), wv, tol_of(wv, ev, 2e-6) + 3e-7 * np.max(np.abs(wv)))
    for comb in ([("t", "t", "t"), ("n", "n", "n")] + [tuple(r.choice(["t", "n"], 3))]):
        a = [(_t(v) if k == "t" else v) for v, k in zip((X, Z, Q), comb)]
        nm = "torch estimator (%s)" % "".join(comb)
        tf = 2e-6
        run.close(c, nm + " at the samples", W.npy(f(a[0], a[1], C=c["C"], l=L)), wx, tol_of(wx, ex, tf) + 3e-7 * np.max(np.abs(wx)))
        h = W.func(f(a[0], a[1], func_out=True, C=c["C"], l=L))
        run.close(c, nm + " functional at queries", W.npy(h(a[2])), w, tol_of(w, e, tf))
        run.close(c, nm + " functional at the samples", W.npy(h(a[0])), wx, tol_of(wx, ex, tf))
        run.close(c, nm + " functional at queries again", W.npy(h(a[2])), w, tol_of(w, e, tf))
        for what, v in variants(c, Q):
            wv, ev = O.score(X, Z, v, l, c["C"], err=True, f32=True)
            run.close(c, "%s functional at similar queries (%s)" % (nm, what), W.npy(h(type_like(a[2], v))), wv, tol_of(wv, ev, tf))
        b = [type_like(v, W.npy(v)) for v in a]                       # private copies
        f(b[0], b[1], C=c["C"], l=L)
        for what, X2, Z2, Q2 in histories(c, *b):
            x2, z2, q2 = W.npy(X2), W.npy(Z2), W.npy(Q2)
            for q, n2 in ((q2, "queries"), (x2, "samples")):
                wv, ev = O.score(x2, z2, q, l, c["C"], err=True, f32=True)
                h2 = W.func(f(X2, Z2, func_out=True, C=c["C"], l=L))
                run.close(c, "%s functional at the %s %s" % (nm, n2, what), W.npy(h2(type_like(a[2], q))), wv, tol_of(wv, ev, tf))
            run.close(c, "%s at the samples %s" % (nm, what), W.npy(f(X2, Z2, C=c["C"], l=L)), wv, tol_of(wv, ev, tf) + 3e-7 * np.max(np.abs(wv)))
    g = np.asarray(W.mods().np_est.score_function_multid_seperate_all_dims(X, Z, C=c["C"], l=(list(l) if c["d"] > 0 else l)))
    run.close(c, "torch and NumPy estimators agree", W.npy(f(X, Z, C=c["C"], l=L)), g, tol_of(wx, ex, 2e-6))

def check_C04(run, c):
    X, Z, Q, L, l = est_data(c)
    R = W.mods().kern.RBF
    multi = c["lk"] in ("list", "array", "tensor", "tuple", "int list", "int array", "int tensor", "mixed list")
    sv = float(0.3 + 2 * rng_of(c).rand())
    if "sv" in (c.get("arrays") or {}): sv = c["arrays"]["sv"]
    r = rng_of(c)
    X0, Z0, Q0 = X.copy(), Z.copy(), Q.copy()
    o = R()                                                           # lengthscale 1, variance 1
    for nm, got, want in (("Kernel", o.Kernel(_t(X), _t(Z)), O.rbf(X, Z, np.ones(c["d"]), 1.0)), ("gradient_X", o.gradient_X(_t(X), _t(Z)), O.rbf_grad(X, Z, np.ones(c["d"]), 1.0))):
        run.close(c, "RBF with its defaults: " + nm, W.npy(got), want, 1e-6 * (np.max(np.abs(want)) if want.size else 0) + 1e-12)
    for xl, yl in (("t", "t"), ("n", "n"), ("t", "n"), ("n", "t"), ("t", None), ("n", None)):
        X, Z, Q = X0.copy("K"), Z0.copy("K"), Q0.copy("K")
        o = R(length_scale=L, signal_variance=sv, multil=multi)
        x = _t(X) if xl == "t" else X
        args = [x] if yl is None else [x, _t(Z) if yl == "t" else Z]
        Y = X if yl is None else Z
        k, g = O.rbf(X, Y, l, sv), O.rbf_grad(X, Y, l, sv)
        tol = lambda w: 1e-6 * (np.max(np.abs(w)) if w.size else 0) + 1e-12
        nm = "RBF (X %s, Y %s)" % (xl, yl)
        seq = list(r.permutation(["k", "g", "other", "og", "g", "k"]))
        for s in seq:
            if s == "k": run.close(c, nm + " Kernel", W.npy(o.Kernel(*args)), k, tol(k))
            elif s == "g": run.close(c, nm + " gradient_X", W.npy(o.gradient_X(*args)), g, tol(g))
            elif s == "other": run.close(c, nm + " Kernel of other points", W.npy(o.Kernel(Q, X)), O.rbf(Q, X, l, sv), tol(O.rbf(Q, X, l, sv)))
            else: run.close(c, nm + " gradient_X of other points", W.npy(o.gradient_X(Q, Z)), O.rbf_grad(Q, Z, l, sv), tol(O.rbf_grad(Q, Z, l, sv)))
        xs = args[0]; ys = args[1] if yl else None
        for what in ("X", "Y") if yl else ("X",):
            v = xs if what == "X" else ys
            new = W.npy(v); new[r.randint(len(new))] += 0.4 * c["scale"]; put(v, new)
            x2 = W.npy(xs); y2 = x2 if yl is None else W.npy(ys)
            k, g = O.rbf(x2, y2, l, sv), O.rbf_grad(x2, y2, l, sv)
            for n_, w_ in [("gradient_X", g), ("Kernel", k)][::int(r.choice([1, -1]))]:
                run.close(c, "%s %s after %s changed in place" % (nm, n_, what), W.npy(getattr(o, n_)(*args)), w_, tol(w_))
        for _ in range(2):                                            # other objects of the same shape, possibly at the same addresses
            del xs, ys, args
            xa = r.randn(*x2.shape) * c["scale"]; args = [_t(xa) if xl == "t" else xa]
            if yl: ya = r.randn(*y2.shape) * c["scale"]; args.append(_t(ya) if yl == "t" else ya)
            else: ya = xa
            xs = args[0]; ys = args[-1]
            k, g = O.rbf(xa, ya, l, sv), O.rbf_grad(xa, ya, l, sv)
            for n_, w_ in [("gradient_X", g), ("Kernel", k)][::int(r.choice([1, -1]))]:
                run.close(c, "%s %s of other points of the same shape" % (nm, n_), W.npy(getattr(o, n_)(*args)), w_, tol(w_))

def check_C05(run, c):
    f = W.mods().np_est.my_cdist
    r = rng_of(c)
    X = arrange(c, r.randn(c["N"], c["d"]) * c["scale"] + c["shift"]); Y = arrange(c, r.randn(c["M"], c["d"]) * c["scale"] + (c["shift"] if abs(c["shift"]) > 100 else 0))
    if c["share"]: Y[0] = X[0]
    for kind in ("euclidean", "sqeuclidean", "l1", None):
        o = r.randn(c["N"], c["M"]) * 7 if c["share"] else np.zeros((c["N"], c["M"]))
        x0, y0 = X.copy(), Y.copy()
        f(X, Y, o, kind) if kind else f(X, Y, o)
        w = O.dist(X, Y, kind or "euclidean")
        run.close(c, "my_cdist(%s)" % (kind or "default"), o, w, 1e-9 * (1 + np.max(w)))
        run.true(c, "my_cdist(%s): point sets unchanged" % kind, np.array_equal(X, x0) and np.array_equal(Y, y0))

def check_C06(run, c):
    f = W.mods().ot.reweight_optimal_transport_multidim
    r = rng_of(c)
    n = c["N"]
    X = arrange(c, r.randn(n, c["d"]) * c["scale"] + c["shift"])
    if c["dseed"] % 4 == 1: X = X + float(r.choice([1e3, 1e6, 1e8])) * c["scale"]      # far from the origin compared with its spread
    if c["share"] and n > 1: X[0] = X[1]
    w = r.randn(n) * min(c["lscale"], 300.0); w = np.exp(w - w.max())
    if c["order"] == "F" and n > 2: w[r.randint(n)] = 0.0
    if c["order"] == "strided" and n > 1:
        k = r.randint(4)
        if k == 0: w[:] = 1.0                                         # equal weights
        elif k == 1: w[:] = 0.0; w[r.randint(n)] = 1.0                # all the weight on one sample
        elif k == 2: w[r.permutation(n)[:n // 2]] = 0.0
        else: w = np.sort(w)
    if w.sum() < 0.5: w[:] = 1.0
    w /= w.sum()
    for shape in ((n, 1), (n,)):
        T = np.asarray(f(X.copy(), w.reshape(shape).copy()), float)
        if not run.true(c, "map is N x N", T.shape == (n, n), got=list(T.shape)): continue
        run.true(c, "map is nonnegative", bool(np.all(T >= -1e-9)), worst=float(T.min()))
        run.close(c, "columns sum to one", T.sum(0), np.ones(n), 1e-5)
        run.close(c, "row i sums to N w_i", T.sum(1), n * w, 1e-5 * n)
        C = O.dist(X, X, "euclidean")
        best = float((O.emd(w, np.full(n, 1.0 / n), C) * C).sum())
        got = float((T * C).sum() / n)
        run.true(c, "least expected Euclidean displacement", got <= best + 2e-5 * C.max(), got=got, best=best)
        run.close(c, "mean of the mapped cloud is the weighted mean", (X.T @ T).mean(1), X.T @ w, 1e-5 * (1 + np.abs(X).max()))

# ================================================================== flows
def flow_case(rng, mi, hints, i, modes, classes=("DPFC", "torched_DPFC"), big_noise=False, steps=None, Ns=(2, 3, 5, 9, 14), near=False, bigM=150):
    ints, floats = mi
    cls = classes[i % len(classes)]; mode = modes[(i // len(classes)) % len(modes)]
    dim = int(rng.choice([1, 2, 2, 3, 4]))
    c = dict(cls=cls, mode=mode, dim=dim, N=int(rng.choice(Ns)), M=int(rng.choice([1, 2, 4, 6])), t1=float(rng.choice([0.0, 0.0, 0.3, -0.2, 1.7, 0.12345678, 12.0])),
             g=float(rng.choice([0.3, 0.7, 1.0, 1.4, 0.5, -0.6, 0.02])), seed=int(rng.randint(2 ** 31 - 1)), dseed=int(rng.randint(2 ** 31 - 1)))
    c.update(BITS[mode])
    if c["g"] == 1.0: c["g"] = 1                                      # an integer amplitude
    st = int(rng.choice(steps or [1, 2, 3, 5, 8, 12]))
    nspecial = 0
    if i >= 2 * len(classes) * len(modes) or (i >= len(classes) and rng.rand() < 0.25):
        if ints and rng.rand() < 0.7:
            k = str(rng.choice(["N", "M", "steps", "dim", "steps", "N"])); v = int(rng.choice(ints)) + int(rng.choice([-1, 0, 1] if k != "steps" else [-1, 0, 1, 3, 5]))
            if k == "N":
                c["N"] = max(2, min(v, 130 if c["rw"] else 2500))
                if c["N"] > 130: c["M"] = min(c["M"], 4); st = min(st, 3)
            elif k == "M":
                c["M"] = max(1, min(v, bigM))
                if c["M"] > 60: st = min(st, 16); c["N"] = min(c["N"], 14)
            elif k == "dim": c["dim"] = max(1, min(v, 10))
            else: st = max(1, min(v, 110 if c["N"] < 10 else 40))
        if floats and rng.rand() < 0.3:
            k = str(rng.choice(["g", "t1"])); v = float(rng.choice(floats)) * float(rng.choice([0.9, 1.0, 1.1]))
            if k == "g": c["g"] = min(max(v, 0.05), 5.0)
            else: c["t1"] = min(v, 50.0)
    if hints and i < 4 * len(hints):
        h = hints[i % len(hints)]
        if "N" in h: c["N"] = max(2, min(int(h["N"]), 130))
        if "M" in h: c["M"] = max(1, min(int(h["M"]), bigM))
        if "dim" in h: c["dim"] = max(1, min(int(h["dim"]), 10))
        if "t1" in h and "t2" in h:
            c["t1"] = float(h["t1"]); st = max(1, min(int(round((h["t2"] - h["t1"]) / DT)), 110))
        if isinstance(h.get("g"), float) and 0.01 < abs(h["g"]) < 10: c["g"] = h["g"]
    if steps: st = max(st, min(steps))
    dim = c["dim"]
    c["steps"] = st; c["t2"] = c["t1"] + st * DT
    if st > 1 and rng.rand() < 0.08: c["t2"] += float(rng.choice([0.3, -0.3])) * DT; c["frac"] = True      # t2 between two grid times
    dg = int(rng.choice([3, 12]))
    s = float(rng.choice([0.2, 1.0, 2.0]))
    c["y1"] = [float(x) for x in np.round(rng.randn(dim) * s, dg)]
    c["y2"] = [float(x) for x in np.round(np.array(c["y1"]) + (rng.randn(dim) * 0.02 if near or rng.rand() < 0.5 else rng.randn(dim) * 0.5), dg)]
    if rng.rand() < 0.06: c["y2"] = list(c["y1"])
    if rng.rand() < 0.06: c["y1"] = [0.0] * dim
    kinds = ["linear", "time", "nonlin", "zero"]
    c["f"] = dict(kind=str(rng.choice(kinds[:3])), seed=int(rng.randint(1000)), a=float(rng.choice([0.5, 3.0])))
    c["ftrue"] = dict(kind=str(rng.choice(kinds)), seed=int(rng.randint(1000)), a=float(rng.choice([0.5, 3.0])))
    c["U"] = dict(seed=int(rng.randint(1000)), amp=float(rng.choice([300.0, 900.0, 25.0])), zoom=float(rng.choice([1.0, 12.0])))
    for k in ("f", "ftrue"):                                          # a drift that returns its argument, or the same array each time
        if rng.rand() < 0.1: c[k]["kind"] = str(rng.choice(["identity", "held"]))
    if rng.rand() < 0.12: c["U"]["kind"] = str(rng.choice(["row", "held"]))
    if cls == "torched_DPFC" and i % 3 == 2: c["np_ends"] = True
    if i % 7 == 5 and (cls == "DPFC" or c.get("np_ends")):            # end points given as integers
        c["int_ends"] = True; c["y1"] = [float(round(x)) for x in c["y1"]]; c["y2"] = [float(round(x)) for x in c["y2"]]
    if ints and rng.rand() < 0.15: c["K"] = max(1, min(int(rng.choice(ints)) + int(rng.choice([0, 1, 2, 7])), 400))
    if hints and i < 4 * len(hints) and "K" in hints[i % len(hints)]: c["K"] = max(1, min(int(hints[i % len(hints)]["K"]), 400))
    if i % 5 == 3: c["npint"] = True                                  # NumPy integers where integers are meant
    return c

class Noise:
    """records standard draws of the global generators"""
    def __enter__(self):
        import torch
        self.vals = []; self.undo = []
        def patch(obj, name):
            orig = getattr(obj, name, None)
            if orig is None: return
            def w(*a, **k):
                r = orig(*a, **k)
                try: self.vals.append(W.npy(r).reshape(-1))
                except Exception: pass
                return r
            self.undo.append((obj, name, orig)); setattr(obj, name, w)
        for n in ("normal", "randn", "standard_normal", "multivariate_normal"): patch(np.random, n)
        for n in ("normal", "randn", "randn_like"): patch(torch, n)
        patch(torch.Tensor, "normal_")
        return self
    def __exit__(self, *a):
        import torch
        for o, n, f in self.undo:
            if o is torch.Tensor: delattr(o, n)
            else: setattr(o, n, f)
        self.sorted = np.sort(np.concatenate(self.vals)) if self.vals else np.zeros(0)
    def has(self, x, tol):
        """every entry of x is one of the recorded draws"""
        s = self.sorted
        if not s.size: return None
        x = np.asarray(x, float).reshape(-1)
        j = np.searchsorted(s, x); lo = np.clip(j - 1, 0, s.size - 1); hi = np.clip(j, 0, s.size - 1)
        return bool(np.all(np.minimum(np.abs(s[lo] - x), np.abs(s[hi] - x)) <= tol))

class Seeding:
    """notes calls that seed a global generator"""
    def __enter__(self):
        import torch, random
        self.names = []; self.undo = []
        for o, n in ((np.random, "seed"), (torch, "manual_seed"), (torch, "seed"), (torch.random, "manual_seed"), (torch.random, "seed"), (random, "seed"), (torch.cuda, "manual_seed_all")):
            f = getattr(o, n, None)
            if f is None: continue
            def w(*a, f=f, nm="%s.%s" % (o.__name__, n), **k):
                self.names.append(nm); return f(*a, **k)
            self.undo.append((o, n, f)); setattr(o, n, w)
        return self
    def __exit__(self, *a):
        for o, n, f in self.undo: setattr(o, n, f)

class Flow:
    def __init__(self, cfg, **over):
        self.cfg = cfg
        self.ulog = []
        with W.Recorder() as rec, Noise() as nz, W.quiet_log():
            self.o, self.kw = W.build(cfg, self.ulog, **over)
        self.caps = rec.calls; self.noise = nz
        self.load()
        self.torch = cfg["cls"] == "torched_DPFC"
        self.dd = 1 if self.torch else 0
        dim = cfg["dim"]
        self.f = W.make_f(cfg["f"], dim); self.ft = W.make_f(cfg["ftrue"], dim)
        self.tg = cfg["t1"] + DT * np.arange(self.k)
        k, dN = self.k, cfg["dim"] * cfg["N"]; bb = cfg["rw"] and cfg["bb"] and cfg["det"]
        # are all score estimates and all noise draws the flow needs among the recorded ones?  (if not, they are made in a way the recorders do not see)
        groups = {(c["X"].tobytes(), c["S"].tobytes()) for c in self.caps}
        need = ((k - 2) * (2 if bb else 1) + max(k - 3, 0) if cfg["det"] else 0) + k - 2
        self.all_recorded = len(groups) >= need
        draws = (1 + (1 if bb else 0) + (k > 2)) * dN if cfg["det"] else (2 * k - 3) * dN
        self.all_noise = self.noise.sorted.size >= draws
        self.key = {}
        for i, c in enumerate(self.caps): self.key.setdefault(self.h(c["X"]), []).append(i)
    def load(self):
        self.Z = W.npy(self.o.Z); self.B = W.npy(self.o.B)
        self.Ztr = W.npy(self.o.Ztr) if hasattr(self.o, "Ztr") else None
        self.k = int(self.o.k)
    def h(self, X): return np.round(X, 9).tobytes()
    def sets(self, cloud):
        """recorded inducing sets, those of calls on this cloud (d x N) first"""
        first = self.key.get(self.h(np.ascontiguousarray(cloud.T)), [])
        seen = set(); out = []
        for i in list(first) + [j for j in range(len(self.caps))]:
            if i in seen: continue
            seen.add(i)
            S = self.caps[i]["S"]
            if S.ndim == 2 and S.shape[1] == cloud.shape[0] and not any(S.shape == s.shape and np.array_equal(S, s) for s in out[-2:]): out.append(S)
        return out
    def score(self, cloud, S, q):
        """(score of the cloud at q (d x K), error estimate)"""
        l = 2 * np.std(cloud, axis=1, ddof=self.dd)
        r, e = O.score(cloud.T, S, q.T, l, 1e-3, err=True, f32=self.torch)
        return r.T, e
    def ustates(self, t):
        """clouds handed to the path constraint at a grid time (any time if t is None)"""
        d, N = self.cfg["dim"], self.cfg["N"]
        out = []; cols = []
        for x, tt in self.ulog:
            if t is not None and abs(tt - self.tg[t]) > DT * 1e-3: continue
            if x.shape == (d, N): out.append(x)
            elif x.shape == (d,) or (x.ndim == 2 and x.shape[0] == d): cols.append(x.reshape(d, -1))
        if cols:
            a = np.concatenate(cols, axis=1)
            for j in range(0, a.shape[1] - N + 1, N): out.append(a[:, j:j + N])
        return out

def legit(*zs):
    """clouds within the range where the arithmetic is meaningful (a drift may drive a flow to overflow)"""
    return all(np.all(np.isfinite(z)) and np.max(np.abs(z)) < 1e5 for z in zs)

def mag(z):
    z = z[np.isfinite(z)]
    return min(float(np.max(np.abs(z))), 1e5) if z.size else 1.0

def noise_ok(fl, r, g, tol):
    """residual r is g sqrt(dt) times recorded draws (None: nothing recorded)"""
    if not fl.noise.sorted.size: return None
    s = np.sqrt(DT); t = tol / abs(g)
    return any(fl.noise.has(e * r / g, t) or fl.noise.has(e * r / (g * s), t / s) for e in (1, -1))

def ltol(fl, z, e, s):
    base = 3e-8 if not fl.torch else 4e-7
    return base * (1 + mag(z)) + DT * (fl.cfg["g"] ** 2) * (20 * e + (1e-6 if not fl.torch else 5e-5) * s)

def wrong_kind(fl, r, g, spread):
    """a step that must follow an estimated score: is the residual over the drift a noise draw (or nothing at all) instead?"""
    tol = (1e-10 if not fl.torch else 1e-8) * (1 + mag(fl.Z)); t = tol / (abs(g) * np.sqrt(DT)) if g else np.inf
    if r.size < 3 or not np.all(np.isfinite(r)): return False
    if t < 1e-6 and fl.noise.sorted.size < 1e5 and noise_ok(fl, r, g, tol): return True
    return float(np.max(np.abs(r))) <= tol * 1e-3 and r.shape[1] >= 3 and DT * g * g / 2 / spread * 1e-4 > tol

def fwd(run, fl, name, z, f, det, rw, tag):
    c = fl.cfg; g = c["g"]; met = 0
    for t in range(1, fl.k):
        cur = z[:, :, t - 1]
        if not legit(cur): break
        base = cur + DT * np.asarray(f(cur, fl.tg[t - 1]), float)
        targets = [z[:, :, t]]
        if rw:
            targets = fl.ustates(t) or fl.ustates(None)
            if not targets: continue
        run.assertions += 1
        if det and t >= 2:
            sets = fl.sets(cur)
            if not sets and any(wrong_kind(fl, x - base, g, np.max(np.std(cur, axis=1)) + 1e-300) for x in targets):
                run.bad(c, "%s: step to slice %d is a noisy step or ignores the score" % (tag, t), t=t); return
            if not sets: run.notes.append("no score estimate recorded"); continue
            ok = False; best = None
            if np.min(np.std(cur, axis=1)) <= 1e-13: continue
            for S in sets:
                s, e = fl.score(cur, S, cur)
                want = base - DT * g * g / 2 * s
                tol = ltol(fl, z, e, np.max(np.abs(s)))
                for x in targets:
                    err = float(np.max(np.abs(x - want)))
                    if best is None or err < best[0]: best = (err, tol)
                    if err <= tol: ok = True; break
                if ok: break
            if not ok and any(wrong_kind(fl, x - base, g, np.max(np.std(cur, axis=1)) + 1e-300) for x in targets):
                run.bad(c, "%s: step to slice %d is a noisy step or ignores the score" % (tag, t), t=t); return
            if not ok and not fl.all_recorded and met < 3: run.notes.append("score estimates not recorded"); return
            if not ok: run.bad(c, "%s: step to slice %d does not follow the law" % (tag, t), error=best[0], tolerance=best[1], t=t); return
            run.note_err(best, c, t); met += 1                        # the recorders see the estimates of such steps
        else:
            ok = None; best = None
            for x in targets:
                r = x - base
                tol = (1e-8 if not fl.torch else 3e-7) * (1 + mag(z))
                h = noise_ok(fl, r, g, tol)
                if not h and not fl.all_noise: h = None
                if h or h is None: ok = True; xi = r / (g * np.sqrt(DT)); exact = h; break
                ok = False
            if ok is False:
                run.bad(c, "%s: noisy step to slice %d is not drift plus g sqrt(dt) times the drawn noise" % (tag, t), t=t, residual=(targets[0] - base) / (g * np.sqrt(DT))); return
            stat(run, fl, name, xi, t)

def stat(run, fl, name, xi, t):
    c = fl.cfg
    if np.max(np.abs(xi)) > 8: run.bad(c, "%s: noise of %.1f standard deviations" % (name, float(np.max(np.abs(xi)))), t=t); return
    run.pool(name + " noise", xi.reshape(-1))
    n = xi.size; dup = n - len(np.unique(np.round(xi, 12)))         # single-precision draws may coincide now and then
    for o in (fl, run):
        a, b = getattr(o, "dups", (0, 0)); o.dups = (a + dup, b + n * (n - 1) // 2)
        if dup and o.dups[0] >= 3 and o.dups[0] > 1e-4 * o.dups[1]:
            run.bad(c if o is fl else dict(pool=name), name + ": the same noise for several particles or coordinates", t=t); return
    for lag in range(1, xi.shape[1]):                                 # particles, coordinates and steps are independent
        uncorrelated(run, c, name + ": noise of particles %d apart" % lag, xi[:, lag:], xi[:, :-lag], t)
    for lag in range(1, xi.shape[0]): uncorrelated(run, c, name + ": noise of coordinates %d apart" % lag, xi[lag:], xi[:-lag], t)
    fl.xis = getattr(fl, "xis", [])
    for n0, t0, x0 in fl.xis[-3:]:
        if x0.shape == xi.shape: uncorrelated(run, c, "%s: noise at slices %s and %s" % (name, t0, t), x0, xi, t)
    fl.xis.append((name, t, xi))

def uncorrelated(run, c, what, a, b, t):
    n = a.size
    if n < 80: return
    r = float(np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b)))
    if abs(r) * np.sqrt(n) > 7.5: run.bad(c, what + " is correlated", t=t, correlation=r, draws=n)

def distinct_noise(run, fl):
    xs = getattr(fl, "xis", [])
    for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
            if xs[i][2].shape == xs[j][2].shape and np.allclose(xs[i][2], xs[j][2], atol=1e-9): run.bad(fl.cfg, "the same noise at two steps", steps=[xs[i][:2], xs[j][:2]]); return

def bwd(run, fl, det, tag):
    c = fl.cfg; g = c["g"]; z, b = fl.Z, fl.B; met = nmet = 0
    for t in range(fl.k - 2, 0, -1):
        q = b[:, :, t + 1]; zc = z[:, :, t + 1]
        if not legit(q, zc): break
        base = q - DT * np.asarray(fl.f(q, fl.tg[t + 1]), float)
        if np.min(np.std(zc, axis=1)) <= 1e-13: continue
        run.assertions += 1
        s1 = fl.sets(zc)
        if not s1: run.notes.append("no score estimate recorded"); continue
        noisy = (not det) or t == fl.k - 2
        ok = False; best = None
        if not noisy and np.min(np.std(q, axis=1)) <= 1e-13: continue
        if noisy:
            for S in s1:
                s, e = fl.score(zc, S, q)
                r = b[:, :, t] - base - DT * g * g * s
                tol = ltol(fl, b, e, np.max(np.abs(s)))
                h = noise_ok(fl, r, g, tol)
                if not h and not fl.all_noise: h = None
                if h is None: h = float(np.max(np.abs(r))) < 8 * abs(g) * np.sqrt(DT)
                if h: ok = True; xi = r / (g * np.sqrt(DT)); break
            if not ok and not fl.all_recorded and nmet < 3: run.notes.append("score estimates not recorded"); return
            if not ok: run.bad(c, "%s: noisy step to slice %d does not follow the law" % (tag, t), t=t); return
            stat(run, fl, tag, xi, t); nmet += 1
        else:
            s2 = fl.sets(q)
            A = []
            for S in s1[:60]:
                s, e = fl.score(zc, S, q); A.append((DT * g * g * s, DT * g * g * e * 20, np.max(np.abs(s))))
            Bm = []
            for S in s2[:60]:
                s, e = fl.score(q, S, q); Bm.append((DT * g * g / 2 * s, DT * g * g * e * 20, np.max(np.abs(s))))
            for x, e1, m1 in A:
                for y, e2, m2 in Bm:
                    err = float(np.max(np.abs(b[:, :, t] - (base + x - y))))
                    tol = ltol(fl, b, 0, max(m1, m2)) + e1 + e2
                    if best is None or err < best[0]: best = (err, tol)
                    if err <= tol: ok = True; break
                if ok: break
            if not ok and any(wrong_kind(fl, b[:, :, t] - base - x, g, np.max(np.std(q, axis=1)) + 1e-300) for x in [0.0] + [a[0] for a in A if a[1] < 1e-9]):
                run.bad(c, "%s: step to slice %d is a noisy step or ignores the score" % (tag, t), t=t); return
            if not ok and not fl.all_recorded and met < 3: run.notes.append("score estimates not recorded"); return
            if not ok: run.bad(c, "%s: step to slice %d does not follow the law" % (tag, t), error=best[0], tolerance=best[1], t=t); return
            run.note_err(best, c, t); met += 1

def check_fwd(run, c):
    fl = Flow(c)
    fwd(run, fl, "forward", fl.Z, fl.f, True, c["rw"], "%s forward flow (%s)" % (c["cls"], c["mode"]))
def check_bwd(run, c):
    fl = Flow(c)
    bwd(run, fl, True, "%s backward flow (%s)" % (c["cls"], c["mode"]))
def check_C13(run, c):
    fl = Flow(c)
    fwd(run, fl, "forward", fl.Z, fl.f, False, c["rw"], "%s forward flow (%s)" % (c["cls"], c["mode"]))
    bwd(run, fl, False, "%s backward flow (%s)" % (c["cls"], c["mode"]))
    distinct_noise(run, fl)

def check_C07(run, c):
    fl = Flow(c); d, N = c["dim"], c["N"]
    tag = "%s (%s)" % (c["cls"], c["mode"])
    U = W.make_U(c["U"], d)
    if not c["rw"]:
        run.true(c, tag + ": path constraint evaluated although none is requested", not fl.ulog); return
    for t in range(1, fl.k):
        run.assertions += 1
        if not legit(fl.Z[:, :, t - 1]): break
        cands = fl.ustates(t)
        y = fl.Z[:, :, t]
        if not legit(y) and np.min(np.std(fl.Z[:, :, t - 1], axis=1)) <= 1e-6 * np.max(np.abs(fl.Z[:, :, t - 1])): break      # a cloud collapsed by its weights
        if not cands:
            run.bad(c, tag + ": the path constraint is never evaluated at all particles at the time of slice %d" % t, t=t, time=float(fl.tg[t]), times=[x[1] for x in fl.ulog][:6]); return
        ok = False; best = np.inf
        tol = (1e-6 if not fl.torch else 1e-5) * (1 + np.max(np.abs(y)))
        for x in cands:
            w = np.exp(np.asarray(U(x, fl.tg[t]), float) * DT); w = w / w.sum()
            for cost in ("euclid", "sq/max", "sq", "euclid/max"):
                for T in (O.transport(x.T, w, cost)[0], O.pyemd_transport(x.T, w, cost)):
                    if T is None: continue
                    err = float(np.max(np.abs(y - x @ T))); best = min(best, err)
                    if err <= tol: ok = True; break
                if ok: break
            if ok: break
        if not ok:
            for x in cands:
                w = np.exp(np.asarray(U(x, fl.tg[t]), float) * DT); w = w / w.sum()
                if not O.may_be_transported(x.T, w, y.T, tol): continue
                if N > 14: ok = True; break
                good, slack = O.explained_by_transport(x.T, w, y.T, tol)
                if good: ok = True; break
        if not ok: run.bad(c, tag + ": slice %d is not the propagated slice times the transport map of its path-cost weights" % t, t=t, error=best); return
        # the propagated slice itself must continue the previous one
        cur = fl.Z[:, :, t - 1]; big = 0.0
        if c["det"] and t >= 2:
            if np.min(np.std(cur, axis=1)) <= 1e-13: continue
            big = max([np.max(np.abs(fl.score(cur, S, cur)[0])) for S in fl.sets(cur)[:40]] or [np.inf])
        if not any(np.max(np.abs(x - cur - DT * fl.f(cur, fl.tg[t - 1]))) < 8.5 * abs(c["g"]) * np.sqrt(DT) + 4 * DT * c["g"] ** 2 * big for x in cands):
            run.bad(c, tag + ": the cloud weighted at slice %d is not a continuation of slice %d" % (t, t - 1), t=t); return

def check_C08(run, c):
    fl = Flow(c); tag = "%s (%s)" % (c["cls"], c["mode"])
    y1 = np.repeat(np.array(c["y1"])[:, None], c["N"], 1); y2 = np.repeat(np.array(c["y2"])[:, None], c["N"], 1)
    tol = 1e-12 * (1 + np.max(np.abs(np.concatenate([y1, y2]))))
    run.close(c, tag + ": forward flow at the first time", fl.Z[:, :, 0], y1, tol)
    run.close(c, tag + ": backward flow at the last time", fl.B[:, :, -1], y2, tol)
    run.close(c, tag + ": backward flow at the first time", fl.B[:, :, 0], y1, tol)
    if c["mode"] == "det_rw_bb": run.close(c, tag + ": true-drift flow at the first time", fl.Ztr[:, :, 0], y1, tol)

def check_C18(run, c):
    fl = Flow(c); tag = "%s (%s)" % (c["cls"], c["mode"])
    tg = W.npy(fl.o.timegrid)
    n = c["steps"] + 1
    if not c.get("frac"):
        run.true(c, tag + ": number of grid times", tg.shape == (n,), got=list(tg.shape), want=n)
        run.true(c, tag + ": t2 is the last grid time", abs(tg[-1] - c["t2"]) < 1e-7, got=float(tg[-1]), want=c["t2"])
    run.true(c, tag + ": k is the length of the grid", fl.k == len(tg), k=fl.k, n=len(tg))
    run.close(c, tag + ": grid times", tg, c["t1"] + DT * np.arange(len(tg)), 1e-7)
    run.true(c, tag + ": the grid covers the interval", abs(tg[-1] - c["t2"]) <= DT, got=float(tg[-1]))
    want = (c["dim"], c["N"], fl.k)
    run.true(c, tag + ": forward flow shape", fl.Z.shape == want, got=list(fl.Z.shape)); run.true(c, tag + ": backward flow shape", fl.B.shape == want, got=list(fl.B.shape))
    if c["rw"] and c["bb"] and c["det"]: run.true(c, tag + ": true-drift flow shape", fl.Ztr is not None and fl.Ztr.shape == want)

def q_of(fl, x):
    return _t(x) if fl.torch else np.array(x)

def cloud(fl, t): return (fl.Ztr if fl.cfg["rw"] and fl.cfg["bb"] and fl.cfg["det"] else fl.Z)[:, :, t]

def queries(fl, t, r, K):
    b, z = fl.B[:, :, t], cloud(fl, t)
    lo = np.minimum(b.min(1), z.min(1)); hi = np.maximum(b.max(1), z.max(1)); w = hi - lo + 1e-3
    x = lo - 0.5 * w + 2 * w * r.rand(K, fl.cfg["dim"])
    if K > 1: x[0] = b[:, 0]
    if K > 2: x[1] = z[:, -1]
    if fl.cfg.get("int_ends") and not fl.torch and r.rand() < 0.4: x = np.round(x).astype(int)      # integer query points
    return x

def shifted(x):
    """other query points of the same type"""
    x = np.array(x); x[-1] = x[-1] + (1 if x.dtype.kind == "i" else 0.05 * (1 + np.abs(x[-1])))
    return x

def call_u(fl, x, t, seed=None):
    if seed is not None: W.set_seed(seed)
    with W.Recorder() as rec, W.quiet_log():
        u = fl.o.calculate_u(q_of(fl, x), np.int64(t) if fl.cfg.get("npint") else t)
    return W.npy(u), rec.calls

def u_interior(run, c, fl, r, ts):
    tag = "%s control (%s)" % (c["cls"], c["mode"])
    for t in ts:
        K = c.get("K") or int(r.choice([1, 2, 5]))
        if not legit(fl.B[:, :, t], cloud(fl, t)): continue
        x = queries(fl, t, r, K)
        if min(np.min(np.std(fl.B[:, :, t], axis=1)), np.min(np.std(cloud(fl, t), axis=1))) < 1e-9: continue
        x0 = x.copy()
        u, caps = call_u(fl, x, t, 11)
        if not run.true(c, tag + ": shape of the result", u.shape == (c["dim"], K), got=list(u.shape)): return
        if not caps: run.notes.append("no score estimate recorded"); continue
        ok = False; best = None; run.assertions += 1
        sets = []
        for q in caps:
            if q["S"].ndim == 2 and q["S"].shape[1] == c["dim"] and not any(q["S"].shape == s.shape and np.array_equal(q["S"], s) for s in sets): sets.append(q["S"])
        for S in sets:
            sb, e1 = fl.score(fl.B[:, :, t], S, x.T); sz, e2 = fl.score(cloud(fl, t), S, x.T)
            err = float(np.max(np.abs(u - (sb - sz))))
            m = max(np.max(np.abs(sb)), np.max(np.abs(sz)))
            tol = 20 * (e1 + e2) + (1e-6 if not fl.torch else 1e-4) * m + 1e-7
            if best is None or err < best[0]: best = (err, tol)
            if err <= tol: ok = True; run.maxerr = max(run.maxerr, err / tol); break
        if not ok: run.bad(c, tag + " at time index %d is not the difference of the two scores" % t, t=t, error=best[0] if best else None, tolerance=best[1] if best else None, queries=K); return
        x2 = x.copy(); x2.flat[-1] += 1 + abs(x2.flat[-1]) if x.dtype.kind == "i" else 0.3 * np.std(fl.B[-1, :, t]) + 1e-6 * abs(x2.flat[-1])      # differs in its last entry only
        u2, caps2 = call_u(fl, x2, t, 11); best = None
        for S in sets + [q["S"] for q in caps2 if q["S"].ndim == 2 and q["S"].shape[1] == c["dim"]]:
            sb, e1 = fl.score(fl.B[:, :, t], S, x2.T); sz, e2 = fl.score(cloud(fl, t), S, x2.T)
            m = max(np.max(np.abs(sb)), np.max(np.abs(sz)))
            err = float(np.max(np.abs(u2 - (sb - sz)))) / (20 * (e1 + e2) + (1e-6 if not fl.torch else 1e-4) * m + 1e-7)
            best = err if best is None else min(best, err)
            if err <= 1: break
        if not run.true(c, tag + ": wrong for a query that differs from an earlier one in one entry", best is not None and best <= 1, t=t, error_over_tolerance=best): return
        q = q_of(fl, x)
        for _ in range(2):
            with W.quiet_log():
                W.set_seed(11); v = W.npy(fl.o.calculate_u(q, t))
            W.set_seed(11); want, _ = call_u(fl, W.npy(q), t, 11)
            run.close(c, tag + ": the same query object with other contents", v, want, 1e-9 * (1 + np.max(np.abs(want))) * (1 if not fl.torch else 1e3))
            put(q, shifted(W.npy(q) if fl.torch else q)); xq = W.npy(q)
        if K > 1:
            j = int(r.randint(K)); u1, _ = call_u(fl, x[j:j + 1], t, 11)
            run.close(c, tag + ": depends on the other queries of the call", u1[:, 0], u[:, j], 1e-6 * (1 + np.max(np.abs(u))) * (1 if not fl.torch else 50))

def u_ends(run, c, fl, r, ts):
    tag = "%s control near the ends (%s)" % (c["cls"], c["mode"])
    for t in ts:
        b, z = fl.B[:, :, t], cloud(fl, t)
        if not legit(b, z): continue
        sb, sz = np.std(b, axis=1, ddof=fl.dd), np.std(z, axis=1, ddof=fl.dd)
        if min(sb.min(), sz.min()) < 1e-9: continue
        K = c.get("K") or int(r.choice([1, 2, 5])); x = queries(fl, t, r, K)
        u, _ = call_u(fl, x, t)
        want = (-(x - b.mean(1)) / sb ** 2 + (x - z.mean(1)) / sz ** 2).T
        m = max(np.max(np.abs((x - b.mean(1)) / sb ** 2)), np.max(np.abs((x - z.mean(1)) / sz ** 2)))
        run.close(dict(c, t=t), tag + " at time index %d" % t, u, want, (1e-8 if not fl.torch else 1e-5) * m + 1e-9)
        x2 = x.copy(); x2.flat[-1] += 1 + abs(x2.flat[-1]) if x.dtype.kind == "i" else 0.3 * sb[-1] + 1e-6 * abs(x2.flat[-1])
        u2, _ = call_u(fl, x2, t)
        want = (-(x2 - b.mean(1)) / sb ** 2 + (x2 - z.mean(1)) / sz ** 2).T
        run.close(dict(c, t=t), tag + ", a query that differs from an earlier one in one entry, at time index %d" % t, u2, want, (1e-8 if not fl.torch else 1e-5) * (m + np.max(np.abs(want))) + 1e-9)
        q = q_of(fl, x); xq = W.npy(q)
        for _ in range(2):
            with W.quiet_log(): v = W.npy(fl.o.calculate_u(q, t))
            want = (-(xq - b.mean(1)) / sb ** 2 + (xq - z.mean(1)) / sz ** 2).T
            run.close(dict(c, t=t), tag + ", the same query object with other contents, at time index %d" % t, v, want, (1e-8 if not fl.torch else 1e-5) * (m + np.max(np.abs(want))) + 1e-9)
            put(q, shifted(W.npy(q) if fl.torch else q)); xq = W.npy(q)
        if run.violations: return

def check_C14(run, c):
    fl = Flow(c); r = rng_of(c)
    ts = [t for t in range(6, fl.k - 5)]
    if not ts: return
    pick = sorted(set([ts[0], ts[-1]] + [int(x) for x in r.choice(ts, size=min(3, len(ts)))]))
    u_interior(run, c, fl, r, pick)
def check_C15(run, c):
    fl = Flow(c); r = rng_of(c)
    ts = [t for t in range(0, fl.k) if t <= 5 or t >= fl.k - 5]
    u_ends(run, c, fl, r, ts)
def check_C16(run, c):
    fl = Flow(c); r = rng_of(c)
    if c["mode"] == "det_rw_bb":
        fwd(run, fl, "true-drift forward", fl.Ztr, fl.ft, True, False, "%s true-drift flow" % c["cls"])
        run.true(c, "true-drift flow starts at the start point", np.max(np.abs(fl.Ztr[:, :, 0] - np.array(c["y1"])[:, None])) < 1e-12)
    ts = list(range(6, fl.k - 5))
    if ts: u_interior(run, c, fl, r, sorted(set([ts[0], ts[-1], ts[len(ts) // 2]])))
    if not run.violations: u_ends(run, c, fl, r, [t for t in (1, 2, 5, fl.k - 5, fl.k - 2) if 0 < t < fl.k])
    if not run.violations and c["mode"] == "det_rw_bb": W.set_seed(c["seed"] ^ 0x5bd1e9); u_box(run, c, fl, r, "%s (%s)" % (c["cls"], c["mode"]))

def check_C17(run, c):
    fl = Flow(c); r = rng_of(c); tag = "%s coverage (%s)" % (c["cls"], c["mode"])
    for t in sorted(set([0, 1, fl.k - 1, fl.k - 2] + [int(x) for x in r.randint(0, fl.k, 4)])):
        z, b = fl.Z[:, :, t], fl.B[:, :, t]
        if not legit(z, b): continue
        lo = np.maximum(z.min(1), b.min(1)); hi = np.minimum(z.max(1), b.max(1))
        ulo = np.minimum(z.min(1), b.min(1)); uhi = np.maximum(z.max(1), b.max(1))
        F = np.float32 if fl.torch else np.float64
        pts = [lo + (hi - lo) * r.rand(c["dim"]) for _ in range(2)] + [lo.copy(), hi.copy(), (lo + hi) / 2, ulo - 0.1, uhi + 0.1, (ulo + uhi) / 2]
        for a in range(c["dim"]):
            for v in (lo[a] - 1e-6 - 1e-3 * r.rand(), hi[a] + 1e-6 + 1e-3 * r.rand(), ulo[a], uhi[a], (ulo[a] + lo[a]) / 2, (uhi[a] + hi[a]) / 2,
                      F(np.nextafter(F(lo[a]), F(-1e9))), F(np.nextafter(F(hi[a]), F(1e9))), F(lo[a] - 1e-9 * abs(lo[a]) - 1e-10), F(hi[a] + 1e-9 * abs(hi[a]) + 1e-10)):
                v = float(v)
                p = (lo + hi) / 2; p[a] = v; pts.append(p)
        shared = None
        if c.get("int_ends") and not fl.torch: pts = [np.round((lo + hi) / 2).astype(int) + j * np.eye(1, c["dim"], a, dtype=int)[0] for j in (0, 1, -1) for a in range(c["dim"])] + pts
        for j, p in enumerate(pts):
            if j % 2 and np.asarray(p).dtype.kind != "i":                                                 # one query object, changed in place
                if shared is None: shared = q_of(fl, p)
                put(shared, p)
            want = bool(np.all((z.min(1) <= p) & (p <= z.max(1)) & (b.min(1) <= p) & (p <= b.max(1))))
            got = fl.o.check_if_covered(shared if j % 2 and np.asarray(p).dtype.kind != "i" else q_of(fl, p), t)
            got = bool(W.npy(got).reshape(-1)[0]) if not isinstance(got, (bool, int, np.bool_)) else bool(got)
            run.true(c, tag + ": wrong answer", got == want, t=t, point=p, got=got, want=want)
            if run.violations: return

def check_C19(run, c):
    if c.get("part") == "est":
        X, Z, Q, L, l = est_data(c)
        def same(nm, arrs, copies):
            run.true(c, nm + " changes its arguments", all(np.array_equal(W.npy(a), b) for a, b in zip(arrs, copies)))
        Ls = [L] if not isinstance(L, (int, float)) else []
        for mn, fn, all_ in NP_EST:
            f = getattr(getattr(W.mods(), mn), fn)
            cp = [W.npy(a) for a in [X, Z, Q] + Ls]
            r0 = f(X, Z, C=c["C"], l=L); h = f(X, Z, func_out=True, C=c["C"], l=L); r1 = h(Q); r2 = h(X)
            keep = [(v, W.npy(v)) for v in (r0, r1, r2)]
            f(Z, X, C=c["C"], l=L) if len(Z) > 1 else None; h(Q[::-1] + 0.1); h(X[::-1] + 0.1); f(X + 0.1, Z, C=c["C"], l=L)
            run.true(c, fn + ": a later call changes an earlier result", all(np.array_equal(W.npy(v), b, equal_nan=True) for v, b in keep))
            same(fn, [X, Z, Q] + Ls, cp)
        f = W.mods().t_est.torched_score_function_multid_seperate_all_dims
        X, Z, Q = forward_strides(X, Z, Q)
        for conv in (lambda a: a, _t):
            a = [conv(X), conv(Z), conv(Q)]; LL = _t(l) if conv is _t else l.copy()
            cp = [W.npy(v) for v in a + [LL]]
            r0 = f(a[0], a[1], C=c["C"], l=LL); h = f(a[0], a[1], func_out=True, C=c["C"], l=LL); r1 = h(a[2]); r2 = h(a[0])
            o = W.mods().kern.RBF(length_scale=LL, multil=True); r3 = o.Kernel(a[0], a[1]); r4 = o.gradient_X(a[0], a[1]); r5 = o.Kernel(a[0])
            keep = [(v, W.npy(v)) for v in (r0, r1, r2, r3, r4, r5)]
            same("torch estimator", a + [LL], cp)
            f(a[0] + 0.1, a[1], C=c["C"], l=LL); h(a[2] + 0.1); h(a[0] + 0.1); o.Kernel(a[0] + 0.1, a[1]); o.gradient_X(a[0] + 0.1, a[1]); o.Kernel(a[0] + 0.1)
            run.true(c, "torch estimator or RBF: a later call changes an earlier result", all(np.array_equal(W.npy(v), b, equal_nan=True) for v, b in keep))
            same("RBF", a + [LL], cp)
        S = X.copy(); w = np.abs(rng_of(c).randn(c["N"], 1)) + 0.1; w /= w.sum(); cp = [S.copy(), w.copy()]
        W.mods().ot.reweight_optimal_transport_multidim(S, w)
        same("reweighting map", [S, w], cp)
        return
    ty = (lambda v: _t(np.array(v))) if c["cls"] == "torched_DPFC" and not c.get("np_ends") else (lambda v: np.array(v, float))
    y1, y2 = ty(c["y1"]), ty(c["y2"]); a1, a2 = W.npy(y1), W.npy(y2)
    fl = Flow(c, y1=y1, y2=y2); r = rng_of(c); tag = "%s (%s)" % (c["cls"], c["mode"])
    run.true(c, tag + ": construction changes an end point", np.array_equal(W.npy(y1), a1) and np.array_equal(W.npy(y2), a2))
    def snap(): return [W.npy(getattr(fl.o, n)) for n in ("Z", "B", "Ztr", "timegrid") if hasattr(fl.o, n)]
    s0 = snap()
    def flows_same(what):
        run.true(c, tag + ": %s changes the stored flows" % what, all(np.array_equal(a, b, equal_nan=True) for a, b in zip(s0, snap())))
    us = []
    ts = list(r.randint(1, max(2, fl.k - 1), 6)) + [t for t in (0, 1, 5, 6, fl.k - 6, fl.k - 5, fl.k - 1) if 0 <= t < fl.k]
    for t in ts:
        t = int(t); x = queries(fl, t, r, 3)
        q = q_of(fl, x); q0 = W.npy(q)
        with W.quiet_log(), np.errstate(all="ignore"):
            try: u = fl.o.calculate_u(q, t)
            except Exception:
                if min(np.min(np.std(fl.B[:, :, t], axis=1)), np.min(np.std(cloud(fl, t), axis=1))) > 1e-9: raise
                u = None
        run.true(c, tag + ": control changes the query points", np.array_equal(W.npy(q), q0), t=t)
        if u is not None: us.append((u, W.npy(u)))
        flows_same("control at time index %d" % t)
        p = q_of(fl, x[0]); p0 = W.npy(p)
        fl.o.check_if_covered(p, t)
        run.true(c, tag + ": coverage changes the point", np.array_equal(W.npy(p), p0), t=t)
        flows_same("coverage at time index %d" % t)
        run.true(c, tag + ": a later query changes the result of an earlier one", all(np.array_equal(W.npy(a), b, equal_nan=True) for a, b in us), t=t)
        if run.violations: return
    run.true(c, tag + ": end points changed", np.array_equal(W.npy(y1), a1) and np.array_equal(W.npy(y2), a2))

def check_C20(run, c):
    fl = Flow(c); tag = "%s (%s)" % (c["cls"], c["mode"]); r = rng_of(c)
    groups = []
    for q in fl.caps:
        if groups and np.array_equal(groups[-1]["S"], q["S"]) and groups[-1]["X"].shape == q["X"].shape and np.array_equal(groups[-1]["X"], q["X"]): continue
        groups.append(q)
    where = {}
    for nm, a in (("Ztr", fl.Ztr), ("Z", fl.Z), ("B", fl.B)):
        if a is None: continue
        for t in range(1, fl.k): where.setdefault(fl.h(np.ascontiguousarray(a[:, :, t].T)), (nm, t))
    rng = lambda a: (a.min(1), a.max(1))
    joint = lambda z, b: joint_box(fl, z, b)
    seen = {}; us = []
    for q in groups:
        w = where.get(fl.h(q["X"]))
        if w is None: run.notes.append("a score estimate of an unknown cloud"); continue
        nm, t = w
        n = seen.get(w, 0); seen[w] = n + 1
        z, b = fl.Z[:, :, t], fl.B[:, :, t]
        if not legit(z, b): continue
        if nm == "Ztr": box = rng(fl.Ztr[:, :, t]); st = "true-drift step"
        elif nm == "Z" and c["det"] and n == 0 and t <= fl.k - 2: box = rng(z); st = "forward step"
        else:
            box = joint(z, b); st = "backward step"
            if fl.torch and t == fl.k - 1 and nm == "Z": box = rng(z)
        if not run.true(c, "%s: %s uses M inducing points" % (tag, st), q["S"].shape == (c["M"], c["dim"]), got=list(q["S"].shape)): return
        u = unif(run, c, tag + ", " + st, q["S"], box, t)
        if u is None: return
        if not fresh(run, c, tag + ", " + st, q["S"], box, (z, b, q["X"].T), t): return
        us.append((w + (n,), u, q["S"]))
    for i in range(len(us)):
        for j in range(i + 1, len(us)):
            if us[i][1].size > 1 and us[i][1].shape == us[j][1].shape and np.all(np.abs(us[i][1] - us[j][1]) < 1e-9):
                run.bad(c, tag + ": the same inducing draws for two estimates", first=str(us[i][0]), second=str(us[j][0])); return
    u_box(run, c, fl, r, tag)

def joint_box(fl, z, b):
    (a, b1), (c2, d2) = (z.min(1), z.max(1)), (b.min(1), b.max(1))
    return (np.maximum(a, c2), np.minimum(b1, d2)) if not fl.torch else (np.minimum(a, c2), np.maximum(b1, d2))

def u_box(run, c, fl, r, tag):
    for t in range(6, fl.k - 5):
        if not legit(cloud(fl, t), fl.B[:, :, t]): continue
        x = queries(fl, t, r, 2)
        u, caps = call_u(fl, x, t)
        box = joint_box(fl, cloud(fl, t), fl.B[:, :, t])
        prev = None
        for q in caps:
            if prev is not None and np.array_equal(prev, q["S"]): continue
            prev = q["S"]
            if not run.true(c, tag + ": control uses M inducing points", q["S"].shape == (c["M"], c["dim"]), got=list(q["S"].shape)): return
            if unif(run, c, tag + ", control", q["S"], box, t) is None: return
            if not fresh(run, c, tag + ", control", q["S"], box, (cloud(fl, t), fl.B[:, :, t]), t): return

def fresh(run, c, tag, S, box, clouds, t):
    """no particle of a cloud serves as an inducing point: its coordinates are a continuous draw of their own"""
    w = np.abs(box[1] - box[0])
    ok = w > 1e-4 * (1 + np.abs(box[0]))
    for i in np.where(ok)[0]:
        for z in clouds:
            zi = z[i][(np.abs(z[i] - box[0][i]) > 1e-6 * w[i]) & (np.abs(z[i] - box[1][i]) > 1e-6 * w[i])]
            if zi.size and np.any(np.abs(S[:, i][:, None] - zi[None, :]) <= 1e-14 * w[i]):
                run.bad(c, tag + ": particles serve as inducing points", t=t, dimension=int(i)); return False
    return True

def unif(run, c, tag, S, box, t):
    lo, hi = box
    w = hi - lo
    run.assertions += 1
    ok = np.abs(w) > 1e-9
    if not np.all(np.abs(S[:, ~ok] - lo[~ok]) < 1e-6): run.bad(c, tag + ": inducing points outside the box", t=t); return None
    u = (S[:, ok] - lo[ok]) / w[ok]
    slack = 1e-5 + 1e-6 / np.min(np.abs(w[ok])) * (1 + np.max(np.abs(lo[ok]))) * (0 if c["cls"] == "DPFC" else 1) if np.any(ok) else 0
    if u.size and (u.min() < -slack or u.max() > 1 + slack):
        run.bad(c, tag + ": inducing points outside the prescribed box", t=t, lo=lo, hi=hi, relative=u); return None
    if u.size:
        nm = tag.split(" (")[0] + ", " + tag.rsplit(", ", 1)[-1]
        run.pool(nm + " uniform", u.reshape(-1))
        v = np.sqrt(12.0) * (u - 0.5)
        run.pool(nm + " columns, unit variance", np.sqrt(u.shape[0]) * v.mean(0))     # mean over the M points of one estimate
        if u.shape[1] > 1: run.pool(nm + " coordinates, unit products", (v[:, 1:] * v[:, :-1]).reshape(-1))
        if u.shape[0] > 1: run.pool(nm + " points, unit products", (v[1:] * v[:-1]).reshape(-1))
        if np.any(np.abs(w[ok]) > 1e-5):
            if u.size - len(np.unique(np.round(u, 10))) > u.size // 40: run.bad(c, tag + ": repeated coordinates among the inducing points", t=t, relative=u); return None
    return u

def check_C21(run, c):
    tag = "%s (%s)" % (c["cls"], c["mode"])
    r = rng_of(c)
    import torch, random, time
    def flows(o): return [W.npy(getattr(o, n)) for n in ("Z", "B", "Ztr") if hasattr(o, n)]
    def ctrl(o):
        fl.o = o
        out = []
        for t, x in qs:
            with W.quiet_log(), np.errstate(all="ignore"): out.append(W.npy(o.calculate_u(q_of(fl, x), t)))
        return out
    eqs = lambda a, b: len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))
    fl = Flow(c); a = fl.o; fa = flows(a)
    ts = [t for t in range(1, fl.k - 1)]
    qs = [(int(t), queries(fl, int(t), r, c.get("K") or 2)) for t in (list(r.choice(ts, size=min(4, len(ts)))) if ts else [])]
    W.set_seed(5); ua = ctrl(a)
    # other computations in between
    other = dict(c, seed=c["seed"] ^ 77, N=c["N"] + 1, g=c["g"] * 1.1)
    o2 = Flow(other).o
    W.set_seed(3)
    np.random.rand(7); torch.rand(3); random.random()
    f2 = flows(o2)
    run.true(c, tag + ": building another object changes an existing one", eqs(fa, flows(a)))
    b = Flow(c).o
    run.true(c, tag + ": same seed and arguments give different flows", eqs(fa, flows(b)))
    W.set_seed(5); ub = ctrl(b)
    run.true(c, tag + ": same seed and queries give different controls", eqs(ua, ub))
    run.true(c, tag + ": querying one object changes another", eqs(f2, flows(o2)) and eqs(fa, flows(a)))
    fl.o = a
    W.set_seed(5); uc = ctrl(a)
    run.true(c, tag + ": same seed and queries give different controls on the same object", eqs(ua, uc))
    # no reseeding: a second construction without reseeding differs, and different seeds differ
    with Seeding() as sd, W.quiet_log():
        x1 = W.build(c, seed=False)[0]
        fl.o = x1
        for t, x in qs:
            with np.errstate(all="ignore"): x1.calculate_u(q_of(fl, x), t)
    run.true(c, tag + ": a global random generator is reseeded", not sd.names, calls=sd.names[:3])
    with W.quiet_log():
        W.set_seed(c["seed"]); x1 = W.build(c, seed=False)[0]; x2 = W.build(c, seed=False)[0]
    run.true(c, tag + ": constructions after seeding differ from the seeded one", eqs(fa, flows(x1)))
    run.true(c, tag + ": two successive constructions use the same random numbers (reseeded)", not eqs(flows(x1), flows(x2)) or fl.k < 3)
    W.set_seed(c["seed"] + 1)
    with W.quiet_log(): x3 = W.build(c, seed=False)[0]
    run.true(c, tag + ": the seed of the global generator has no influence", not eqs(fa, flows(x3)) or fl.k < 3)
    # the generator of the other library must not matter
    W.set_seed(c["seed"])
    if fl.torch: np.random.seed(99)
    else: torch.manual_seed(99)
    random.seed(4)
    with W.quiet_log(): x4 = W.build(c, seed=False)[0]
    if fl.torch or True: run.true(c, tag + ": flows depend on a generator other than the one of their library", eqs(fa, flows(x4)))
    # an object of the same sizes, built and queried after the others and again as the first one of freshly imported modules
    same = dict(c, seed=c["seed"] ^ 1234, g=c["g"] * 0.7, y1=[v + 0.31 for v in c["y1"]])
    def alone():
        W.set_seed(same["seed"])
        with W.quiet_log(): o = W.build(same, seed=False)[0]
        z = flows(o); W.set_seed(5)
        return z, ctrl(o)
    z1, u1 = alone(); W.reimport(); z2, u2 = alone()
    run.true(c, tag + ": flows depend on what was computed before", eqs(z1, z2))
    run.true(c, tag + ": controls depend on what was computed before", eqs(u1, u2))

def check_C22(run, c):
    tag = "%s (%s)" % (c["cls"], c["mode"])
    with W.quiet_log(): o1, _ = W.build(dict(c, kern="RBF"))
    with W.Recorder() as rec, W.quiet_log() as q: o2, _ = W.build(dict(c, kern="periodic"))
    run.true(c, tag + ": no warning for the periodic kernel", q.warned())
    f = lambda o: [W.npy(getattr(o, n)) for n in ("Z", "B", "Ztr") if hasattr(o, n)]
    run.true(c, tag + ": periodic request gives other flows than the Gaussian kernel", all(np.array_equal(a, b, equal_nan=True) for a, b in zip(f(o1), f(o2))))
    fl = Flow.__new__(Flow); fl.cfg = c; fl.o = o1; fl.torch = c["cls"] == "torched_DPFC"; fl.load()
    r = rng_of(c)
    for t in range(1, fl.k - 1):
        if 5 < t < fl.k - 5 and r.rand() < 0.4: continue
        x = queries(fl, t, r, 2)
        with W.quiet_log(), np.errstate(all="ignore"), W.Recorder() as rec2:
            W.set_seed(5); u1 = W.npy(o1.calculate_u(q_of(fl, x), t)); W.set_seed(5); u2 = W.npy(o2.calculate_u(q_of(fl, x), t))
        run.true(c, tag + ": periodic request gives other controls than the Gaussian kernel", np.array_equal(u1, u2, equal_nan=True), t=t)
        rec.calls += rec2.calls
    run.true(c, tag + ": a score estimate uses another kernel", all(q["kern"] == "RBF" for q in rec.calls))

# ================================================================== registry
def G_est(lks):
    return lambda rng, mi, hints, i: est_case(rng, mi, hints, dict(lk=lks), i)
NPK = ["float", "int", "list", "tuple", "array", "int list", "mixed list", "int array"]
TK = ["float", "list", "tuple", "array", "tensor", "0-d tensor", "int", "int list", "mixed list", "int array", "int tensor"]
def G_flow(modes, classes=("DPFC", "torched_DPFC"), **kw):
    return lambda rng, mi, hints, i: flow_case(rng, mi, hints, i, modes, classes, **kw)
ALL = ["det", "det_rw", "det_rw_bb", "det_bb", "sto", "sto_rw", "sto_rw_bb"]
NPC, TC = ("DPFC",), ("torched_DPFC",)

def G_noise(inner, modes, classes):
    """every fourth case has many particles and few steps, for the statistics of the draws"""
    def g(rng, mi, hints, i):
        c = inner(rng, mi, hints, i)
        if i % 4 == 3:
            c["N"] = 150; c["M"] = 3; st = 3; c["steps"] = st; c["t2"] = c["t1"] + st * DT
            c.update(BITS[modes[0]]); c["mode"] = modes[0]
        return c
    return g

def G_manyM(inner):
    """some cases have many inducing points, for the statistics of the draws"""
    def g(rng, mi, hints, i):
        c = inner(rng, mi, hints, i)
        if i % 5 == 4: c["M"] = 300; c["N"] = 3; c["steps"] = 14 if i % 2 else 6; c["t2"] = c["t1"] + c["steps"] * DT; c["dim"] = 4; c["y1"] = (c["y1"] * 4)[:4]; c["y2"] = (c["y2"] * 4)[:4]
        return c
    return g

def G_bigU(inner):
    """some cases have large path costs, which differ within the cloud a little or by several orders of magnitude of the weight"""
    def g(rng, mi, hints, i):
        c = inner(rng, mi, hints, i)
        if i % 5 in (1, 3) and c["N"] >= 5 and c["steps"] <= 5:
            amp = float(rng.choice([3e4, 1e5, 2.5e5])); c["U"].update(amp=amp, zoom=3e3 / amp)
            if rng.rand() < 0.5 and not c["U"].get("kind"):                # in a single step: a cloud that its weights collapse has no scores
                c["U"]["zoom"] = float(rng.choice([3e4, 1e5])) / amp
                c["steps"] = 1; c["t2"] = c["t1"] + DT; c.pop("frac", None)
        return c
    return g

def G_C05(rng, mi, hints, i):
    """point sets of the sizes the source mentions, in every one of the three directions"""
    c = est_case(rng, mi, hints, dict(lk=["float"]), i)
    plain = i < 60 or i % 20                                          # every other layout or type costs a compilation
    if plain: c["order"] = "C"; c["shape"] = {"int dtype": "integers"}.get(c.get("shape"), c.get("shape"))
    if i >= 2 and rng.rand() < 0.5:
        big = [v for v in list(mi[0]) + [int(x) for x in mi[1] if x == int(x)] + [16, 32, 64, 128, 256, 1000, 1024, 2048, 4096] if 2 <= v <= 6000]
        k = str(rng.choice(["N", "M", "d"])); v = int(rng.choice(big)) + int(rng.choice([-1, 0, 1, 1, 5]))
        c["N"], c["M"], c["d"] = (int(x) for x in rng.choice([1, 2, 3, 5, 8], 3)); c[k] = v
        for q in ("arrays", "l0"): c.pop(q, None)
    elif hints and i < 3 * len(hints):
        h = hints[i % len(hints)]
        z = [max(1, min(int(h.get(k, 2)), 6000)) for k in ("N", "M", "d")]
        if z[0] * z[1] * z[2] <= 4e7 and max(z) > 80: c["N"], c["M"], c["d"] = z; c.pop("arrays", None)
    return c

def G_C18(rng, mi, hints, i):
    c = flow_case(rng, mi, hints, i, ["det", "sto", "det_rw_bb", "det_rw", "sto_rw"], steps=[1, 2, 3, 7, 10, 25])
    if i % 3 == 1:                                                    # long intervals, any start, with few particles
        c.pop("frac", None); c["N"] = 2; c["M"] = 1; c["steps"] = int(np.exp(rng.rand() * np.log(900))) + 1; c["t1"] = float(rng.choice([0.0, 0.5, -1.25, 3.1, 40.0, round(rng.randn(), 3)]))
        if c["steps"] > 60: c.update(BITS["sto"]); c["mode"] = "sto"
        if i % 12 == 10: c.update(BITS["sto"]); c["mode"] = "sto"; c["t1"] = int(rng.randint(-2, 3)); c["steps"] = 1000
        c["t2"] = c["t1"] + 1 if isinstance(c["t1"], int) else c["t1"] + c["steps"] * DT
    elif i % 5 == 4:
        c["t2"] = c["t1"] + (c["steps"] + float(rng.choice([0.3, 0.7, 0.45]))) * DT; c["frac"] = True
    return c

def G_C19(rng, mi, hints, i):
    if i % 2 == 0: c = est_case(rng, mi, hints, dict(lk=["float", "list", "array"]), i); c["part"] = "est"; return c
    c = flow_case(rng, mi, hints, i // 2, ["det", "det_rw_bb", "det_rw", "sto"], steps=[13, 16])
    if rng.rand() < 0.1:                                              # far from the origin
        v = [x for x in mi[1] if x > 20]; v = float(rng.choice(v)) if v else 1e3
        c["y1"] = [round(a * v * 3, 3) for a in c["y1"]]; c["y2"] = [round(a * v * 3, 3) for a in c["y2"]]
    return c

CTRL_STEPS = [12, 13, 16, 20]
PROPS = {
    "C01": (G_est(NPK), check_C01), "C02": (G_est(NPK), check_C02), "C03": (G_est(TK), check_C03),
    "C04": (G_est(["float", "0-d tensor", "list", "array", "tensor"]), check_C04), "C05": (G_C05, check_C05), "C06": (G_est(["float"]), check_C06),
    "C07": (G_bigU(G_flow(["det_rw", "sto_rw", "det_rw_bb", "sto_rw_bb", "det", "sto"], steps=[2, 4, 5, 7])), check_C07),
    "C08": (G_flow(ALL, steps=[1, 2, 3, 6]), check_C08),
    "C09": (G_noise(G_flow(["det", "det_rw", "det_bb", "det_rw_bb"], NPC), ["det"], NPC), check_fwd), "C10": (G_noise(G_flow(["det", "det_rw", "det_rw_bb", "det_bb"], NPC), ["det"], NPC), check_bwd),
    "C11": (G_noise(G_flow(["det", "det_rw", "det_bb", "det_rw_bb"], TC), ["det"], TC), check_fwd), "C12": (G_noise(G_flow(["det", "det_rw", "det_rw_bb", "det_bb"], TC), ["det"], TC), check_bwd),
    "C13": (G_noise(G_flow(["sto", "sto_rw"]), ["sto"], None), check_C13),
    "C14": (G_flow(["det", "det_rw", "det_bb", "sto", "sto_rw", "det_rw_bb", "sto_rw_bb"], steps=CTRL_STEPS), check_C14),
    "C15": (G_flow(["det", "det_rw", "det_bb", "sto", "sto_rw", "det_rw_bb", "sto_rw_bb"], steps=[3, 8, 12, 15]), check_C15),
    "C16": (G_flow(["det_rw_bb", "det_rw_bb", "det_bb", "sto_rw_bb", "det_rw", "det"], steps=CTRL_STEPS), check_C16),
    "C17": (G_flow(["det", "sto", "det_rw", "det_rw_bb"], steps=[3, 6, 12], near=True, Ns=(3, 9, 25)), check_C17),
    "C18": (G_C18, check_C18), "C19": (G_C19, check_C19),
    "C20": (G_manyM(G_flow(["det", "det_rw_bb", "sto", "det_rw", "sto_rw", "sto_rw_bb"], steps=[4, 8, 14])), check_C20),
    "C21": (G_flow(["det", "sto", "det_rw_bb", "det_rw", "sto_rw", "sto_rw_bb"], steps=[3, 8, 14], Ns=(2, 4, 7), bigM=400), check_C21),
    "C22": (G_flow(["det", "sto", "det_rw_bb", "det_rw", "sto_rw", "sto_rw_bb"], steps=[3, 14], Ns=(2, 4, 7)), check_C22),
}

def pooled(run):
    """statistics over all cases of the run; thresholds at about 1e-10"""
    import math
    for name, xs in run.pools.items():
        x = np.concatenate(xs); n = x.size
        if n < 60: continue
        x = np.sort(x)
        if name.endswith("noise"):
            z = 6.5
            if abs(x.mean()) > z / math.sqrt(n): run.bad(dict(pool=name), name + ": mean %.4f over %d draws" % (x.mean(), n))
            v = float(np.mean(x * x))
            if abs(v - 1) > z * math.sqrt(2.0 / n) + 3.0 / n: run.bad(dict(pool=name), name + ": variance %.4f over %d draws" % (v, n))
            from math import erf
            F = np.array([0.5 * (1 + erf(t / math.sqrt(2))) for t in x])
        elif name.endswith("unit variance"):      # mean square 1; the fourth moment of a mean of uniforms is below 3
            v = float(np.mean(x * x)); run.assertions += 1
            if n > 120 and abs(v - 1) > 7 * math.sqrt(2.0 / n) + (8.0 / n if v > 1 else 0): run.bad(dict(pool=name), name + ": mean square %.4f over %d, independent draws give 1" % (v, n))
            continue
        elif name.endswith("unit products"):
            v = float(np.mean(x)); run.assertions += 1
            if n > 120 and abs(v) > 7 / math.sqrt(n) + 8.0 / n: run.bad(dict(pool=name), name + ": mean product %.4f over %d, independent draws give 0" % (v, n))
            continue
        elif name.endswith("uniform"):
            F = np.clip(x, 0, 1)
            v = float(12 * np.mean((F - 0.5) ** 2)); run.assertions += 1
            if abs(v - 1) > 7 * math.sqrt(0.8 / n) + 3.0 / n: run.bad(dict(pool=name), name + ": variance off by a factor %.4f over %d draws" % (v, n))
        else: continue
        i = np.arange(1, n + 1)
        D = float(max(np.max(np.abs(F - i / n)), np.max(np.abs(F - (i - 1) / n))))
        run.assertions += 1
        if D > 3.6 / math.sqrt(n): run.bad(dict(pool=name), name + ": distribution off by %.4f over %d draws" % (D, n))
