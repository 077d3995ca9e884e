"""C01-C05: score estimators, kernel, distances."""
from dv import interp, lib, norm, solver, terms as tm
from dv.terms import *
from dv.values import *
from dv.prove import Prover, paths, needs
from . import spec, world
from .world import *

norm.POS |= {"l", "ls", "sv", "l2", "li", "lint"}
NP_ESTIMATORS = [(EST_NP, "score_function_multid_seperate", False), (EST_NP, "score_function_multid_seperate_old", False),
                 (EST_NP, "score_function_multid_seperate_all_dims", True), (EST_SC, "score_function_multid_seperate2", False)]
T_ESTIMATOR = (EST_T, "torched_score_function_multid_seperate_all_dims", True)
d, W = sym("d", "I"), sym("w", "I")
BASE = [le(ONE, N), le(ONE, M), le(ONE, d), le(ONE, K), le(ONE, W), le(W, d)]

def lengthscale(m, kind, lb):
    """(value, function of the dimension index)"""
    vec = lambda k: sel("l", k)
    if kind == "number": return Sc(sym("ls"), "float"), (lambda k: sym("ls"))
    if kind == "not given": return Sc(ONE, "float"), (lambda k: ONE)
    if kind == "int number":
        return Sc(sym("li", "I"), "int"), (lambda k: sym("li", "I"))
    if kind in ("array", "tensor"): return arr(m, "l", (d,), "np" if kind == "array" else "torch"), vec
    if kind == "array of one": return arr(m, "l", (ONE,), "np"), (lambda k: sel("l", ZERO))
    if kind in ("list", "tuple"):
        r = ListRef(m.new(SymList(d, lambda i: Sc(sel("l", i), "float"))), kind)
        return r, vec
    if kind == "mixed list":              # a list whose first entry is an integer and the others are not
        return ListRef(m.new(SymList(d, lambda i: Sc(sel("l", i), "int" if i is ZERO else "float")))), vec
    if kind in ("int list", "int array", "int tensor"):
        tm.ARRSORT["lint"] = "I"
        if kind == "int list": return ListRef(m.new(SymList(d, lambda i: Sc(sel("lint", i), "int")))), (lambda k: sel("lint", k))
        a = arr(m, "lint", (d,), "np" if kind == "int array" else "torch"); c = m.heap[a.cid]
        m.heap[a.cid] = ACell(c.shape, c.vs, c.body, c.lib, "int")
        return a, (lambda k: sel("lint", k))
    if kind == "0-d tensor": return Sc(sym("ls"), "float", "torch"), (lambda k: sym("ls"))
    if kind == "0-d array": return Sc(sym("ls"), "float", "np"), (lambda k: sym("ls"))
    raise AssertionError(kind)

def machine(P, contracts=None):
    m = interp.Machine(P.repo, contracts=contracts)
    m.budget = 60
    return m

def get(P, m, path, name):
    mod = m.load(path)
    f = m.heap[mod.fid].get(name)
    if f is None or isinstance(f, Poison): raise Unsupported("%s not found in %s" % (name, path))
    return f

def estimator(P, est, lkind, fo, xlib="np", zlib=None, qlib=None, calls=1):
    """one estimator under one shape of arguments: postcondition of the values or of the returned function"""
    if not P.turn(): return
    path, name, all_ = est
    lb = "torch" if est is T_ESTIMATOR else "np"
    tag = "%s(l: %s%s%s)" % (name, lkind, "" if xlib == lb else ", %s samples" % xlib, ", func_out" if fo else "")
    if zlib and (zlib != xlib or (qlib or xlib) != xlib): tag += "[Z %s, q %s]" % (zlib, qlib)
    try:
        m = machine(P)
        f = get(P, m, path, name)
    except (Unsupported, OSError, SyntaxError) as e:
        P.undecided(tag, str(e)); return
    m.ctx += BASE
    if lkind == "int number": m.ctx.append(le(ONE, sym("li", "I")))
    X = arr(m, "X", (N, d), xlib); Z = arr(m, "Z", (M, d), zlib or xlib)
    l, lf = lengthscale(m, lkind, lb)
    kw = dict(func_out=TRUEV if fo else FALSEV, C=Sc(sym("C"), "float"), l=l)
    if not all_: kw["which_dim"] = Sc(W, "int")
    Cv, W0 = sym("C"), W
    if lkind == "not given":            # documented defaults: lengthscale 1, C 0.001, first dimension, values at the samples
        kw = dict(func_out=TRUEV) if fo else {}
        Cv, W0 = num("1/1000"), ONE
    def go():
        r = m.call(f, [X, Z], kw)
        out = []
        if not fo: out.append(("value at the samples", lib.content(m, r), "X", "X", "Z", "l"))
        else:
            for qn in (["x"] if calls == 1 else ["x", "y", "x"]):
                q = arr(m, qn, (K if qn == "x" else M, d), qlib or xlib)
                v = m.call(r, [q], {})
                out.append(("value of the function at query set %s" % qn, lib.content(m, v), qn, "X", "Z", "l"))
            v = m.call(r, [X], {})
            out.append(("value of the function at the samples", lib.content(m, v), "X", "X", "Z", "l"))
            if calls > 1:
                overwrite(m, q, "x2"); v = m.call(r, [q], {})
                out.append(("value of the function at a query set changed in place", lib.content(m, v), "x2", "X", "Z", "l"))
        if calls > 1:                   # another request with the same objects, their contents changed in between
            overwrite(m, X, "X2"); overwrite(m, Z, "Z2")
            ln = "l"
            if isinstance(l, Arr) and lkind in ("array", "tensor"): overwrite(m, l, "l2"); ln = "l2"
            r = m.call(f, [X, Z], kw)
            if fo: r = m.call(r, [q], {})
            out.append(("value after the arguments changed in place", lib.content(m, r), "x2" if fo else "X2", "X2", "Z2", ln))
        return out
    def sp_of(xn, zn, ln):
        return spec.score(lambda n, k: sel(xn, n, k), lambda n, k: sel(zn, n, k), lf if ln == "l" else (lambda k: sel(ln, k)), Cv, N, M, d)
    base = list(m.ctx)
    for c, outs, s in paths(P, m, tag, go):
        ctx = base + c
        for nm, (shape, vs, body, _, _), src, xn, zn, ln in outs:
            n = {"x": K, "x2": K, "y": M}.get(src, N)
            sp = sp_of(xn, zn, ln)
            want = (n, d) if all_ else (n,)
            if len(shape) != len(want):
                P.undecided("%s: shape of the %s" % (tag, nm), str([show(x) for x in shape])); continue
            for a, b in zip(shape, want): P.valid("%s: shape of the %s" % (tag, nm), eq(a, b), ctx, refute=True)
            wd = vs[1] if all_ else sub(W0, ONE)
            P.eq("%s: %s is the sparse kernel estimate" % (tag, nm), body, sp(lambda k: sel(src, vs[0], k), wd), ctx + [lt(vs[0], n)])
    needs(P, m, tag, base)

def C01(P):
    for est in NP_ESTIMATORS:
        for lk in ("number", "int number", "array", "list", "tuple"): estimator(P, est, lk, False, calls=2)
        for lk in ("not given", "int list", "mixed list", "int array"): estimator(P, est, lk, False)

def C02(P):
    for est in NP_ESTIMATORS:
        for lk in ("number", "array", "list", "tuple"): estimator(P, est, lk, True, calls=3)
        for lk in ("not given", "int number", "int list", "mixed list", "int array"): estimator(P, est, lk, True)

def C03(P):
    for fo in (False, True):
        for lk in ("number", "list", "tuple", "array", "tensor", "0-d tensor", "0-d array"): estimator(P, T_ESTIMATOR, lk, fo, "torch", calls=3)
        for lk in ("not given", "int number", "int list", "mixed list", "int array", "int tensor"): estimator(P, T_ESTIMATOR, lk, fo, "torch")
        for xl, zl, ql in (("np", "np", "np"), ("np", "torch", "np"), ("torch", "np", "torch"), ("torch", "torch", "np"), ("np", "np", "torch")):
            for lk in ("number", "tensor"):
                if fo or ql == xl: estimator(P, T_ESTIMATOR, lk, fo, xl, zl, ql)

# ------------------------------------------------------------------ C04
def C04(P):
    RB = KERN + "/RBF_pytorch.py"
    Mx, Nx = sym("M", "I"), N
    for multil, lk in ((False, "not given"), (False, "number"), (False, "0-d tensor"), (True, "array"), (True, "list"), (True, "tensor")):
        for xl, yl in (("np", "np"), ("torch", "torch"), ("np", "torch"), ("torch", "np"), ("torch", None), ("np", None)):
            if not P.turn(): continue
            tag = "RBF(length_scale: %s; X %s, Y %s)" % (lk, xl, yl)
            try:
                m = machine(P); c = get(P, m, RB, "RBF")
            except (Unsupported, OSError, SyntaxError) as e:
                P.undecided(tag, str(e)); continue
            m.ctx += [le(ONE, N), le(ONE, M), le(ONE, d)]
            base = list(m.ctx)
            l, lf = lengthscale(m, lk, "torch")
            X = arr(m, "X", (N, d), xl); Y = arr(m, "Z", (M, d), yl) if yl else None
            A = arr(m, "A1", (M, d), xl); Bq = arr(m, "A2", (N, d), xl)
            def go():
                o = m.call(c, [], {} if lk == "not given" else dict(length_scale=l, signal_variance=Sc(sym("sv"), "float"), multil=TRUEV if multil else FALSEV))
                args = [X] + ([Y] if yl else [])
                k = lambda n, a: lib.content(m, m.call(m.getattr(o, n), a, {}))
                r = [k("Kernel", args)]
                r.append(k("gradient_X", args))
                k("Kernel", [A, Bq]); k("gradient_X", [Bq, A])            # history must not matter
                r.append(k("gradient_X", args)); r.append(k("Kernel", args))
                overwrite(m, X, "X2")                                        # the same objects with other contents
                r.append(k("gradient_X", args)); r.append(k("Kernel", args))
                if Y: overwrite(m, Y, "Z2")
                r.append(k("Kernel", args)); r.append(k("gradient_X", args))
                return r
            for cs, outs, s in paths(P, m, tag, go):
                ctx = base + cs
                n2 = M if yl else N
                for i, (shape, vs, body, _, _) in enumerate(outs):
                    g = i in (1, 2, 4, 7)
                    xn = "X" if i < 4 else "X2"; y = ("Z" if i < 6 else "Z2") if yl else xn
                    nm = ("gradient_X" if g else "Kernel") + (" after other calls" if 1 < i < 4 else " after a change of %s in place" % ("X" if i < 6 else "Y") if i > 3 else "")
                    want = (N, n2, d) if g else (N, n2)
                    if len(shape) != len(want): P.undecided(tag + ": shape of " + nm, str([show(x) for x in shape])); continue
                    for a, b in zip(shape, want): P.valid("%s: shape of %s" % (tag, nm), eq(a, b), ctx, refute=True)
                    kv = mul(ONE if lk == "not given" else sym("sv"), spec.kern(lambda q: sel(xn, vs[0], q), lambda q: sel(y, vs[1], q), lf, d))
                    if g: kv = neg(mul(kv, div(sub(sel(xn, vs[0], vs[2]), sel(y, vs[1], vs[2])), power(lf(vs[2]), TWO))))
                    P.eq("%s: %s is exact" % (tag, nm), body, kv, ctx)
            needs(P, m, tag, base)

# ------------------------------------------------------------------ C05
def C05(P):
    for dist in ("euclidean", "sqeuclidean", "l1", None):
        if not P.turn(): continue
        tag = "my_cdist(%s)" % (dist or "default")
        try:
            m = machine(P); f = get(P, m, EST_NP, "my_cdist")
        except (Unsupported, OSError, SyntaxError) as e:
            P.undecided(tag, str(e)); continue
        m.ctx += [le(ONE, N), le(ONE, M), le(ONE, d)]
        base = list(m.ctx)
        X = arr(m, "X", (N, d)); Y = arr(m, "Z", (M, d)); O = arr(m, "O", (N, M))
        cx, cy = m.heap[X.cid], m.heap[Y.cid]
        for cs, _, s in paths(P, m, tag, lambda: m.call(f, [X, Y, O] + ([dist] if dist else []), {})):
            m.restore(s)
            shape, vs, body, _, _ = lib.content(m, O)
            df = lambda k: sub(sel("X", vs[0], k), sel("Z", vs[1], k))
            if dist == "l1": goal = bigf("sum", d, lambda k: fn("abs", df(k)))
            else:
                goal = bigf("sum", d, lambda k: power(df(k), TWO))
                if dist != "sqeuclidean": goal = sqrt(goal)
            P.eq(tag + ": every entry is the requested distance", body, goal, base + cs)
            P.fact(tag + ": point sets unchanged", m.heap[X.cid] is cx and m.heap[Y.cid] is cy, "an input array is written")
        needs(P, m, tag, base)
