"""The specification, evaluated in double precision and independently of the code under test."""
import numpy as np

EPS = 1e-3
DT = 0.001

def kern(A, B, l):
    l = np.asarray(l, float)
    d = (A[:, None, :] - B[None, :, :]) / l
    return np.exp(-0.5 * np.sum(d * d, axis=2))

def score(X, S, Q, l, C=1e-3, err=False, f32=False, eps=EPS):
    """sparse kernel estimate of the score of the samples X (N x d) with inducing points S (M x d) at the queries Q (K x d).
    With err, also an estimate of the rounding error any evaluation of the formula may show on this input."""
    X = np.asarray(X, float); S = np.asarray(S, float); Q = np.asarray(Q, float)
    d = X.shape[1]; M = S.shape[0]
    l = np.broadcast_to(np.asarray(l, float).reshape(-1), (d,))
    K = kern(X, S, l)
    Ks = kern(S, S, l) + eps * np.eye(M)
    grad = -np.einsum("nmd,nm->md", (X[:, None, :] - S[None, :, :]), K) / l ** 2
    A = K.T @ K; KQ = kern(Q, S, l)
    r = -KQ @ np.linalg.solve((C + eps) * Ks + A, grad)
    if not err: return r
    Ki = np.linalg.inv(Ks)
    r2 = -KQ @ (np.linalg.inv((C + eps) * np.eye(M) + Ki @ A) @ (Ki @ grad))
    e = float(np.max(np.abs(r - r2))) if r.size else 0.0
    g = np.random.RandomState(M)                                      # the same with the kernel matrices rounded otherwise
    for _ in range(2):
        try: Kp = np.linalg.inv(Ks * (1 + 4e-16 * g.randn(M, M)))
        except np.linalg.LinAlgError: continue
        r4 = -KQ @ (np.linalg.inv((C + eps) * np.eye(M) + Kp @ (A * (1 + 4e-16 * g.randn(M, M)))) @ (Kp @ grad))
        if r.size: e = max(e, float(np.max(np.abs(r - r4))))
    if f32:     # the PyTorch code adds single-precision multiples of the identity
        for q in (5e-8, -5e-8):
            r3 = score(X, S, Q, l, C * (1 + q), eps=EPS * (1 + q))
            e = max(e, float(np.max(np.abs(r - r3)))) if r.size else e
    return r, e

def rbf(X, Y, l, sv):
    return sv * kern(X, Y, np.broadcast_to(np.asarray(l, float).reshape(-1), (X.shape[1],)))

def rbf_grad(X, Y, l, sv):
    l = np.broadcast_to(np.asarray(l, float).reshape(-1), (X.shape[1],))
    return -rbf(X, Y, l, sv)[:, :, None] * (X[:, None, :] - Y[None, :, :]) / l ** 2

def dist(X, Y, kind):
    df = X[:, None, :] - Y[None, :, :]
    if kind == "l1": return np.abs(df).sum(2)
    s = (df ** 2).sum(2)
    return s if kind == "sqeuclidean" else np.sqrt(s)

def emd(a, b, C):
    import ot
    return ot.emd(np.ascontiguousarray(a), np.ascontiguousarray(b), np.ascontiguousarray(C))

def transport(X, w, cost):
    """N times an optimal plan from the weights to equal weights; X is N x d"""
    n = X.shape[0]
    C = dist(X, X, "euclidean" if cost.startswith("euclid") else "sqeuclidean")
    if cost.endswith("/max"): C = C / C.max()
    return n * emd(w, np.full(n, 1.0 / n), C), C

def pyemd_transport(X, w, cost):
    """the same by the solver of the pyemd package (nearly optimal plans may differ from one solver to the next)"""
    try: from pyemd import emd_with_flow
    except Exception: return None
    n = X.shape[0]
    C = dist(X, X, "euclidean" if cost.startswith("euclid") else "sqeuclidean")
    if cost.endswith("/max"): C = C / C.max()
    return n * np.array(emd_with_flow(np.ascontiguousarray(w, float), np.full(n, 1.0 / n), np.ascontiguousarray(C))[1])

def may_be_transported(X, w, Y, tol):
    """necessary conditions for Y = N X^T P with an optimal plan P: the mean, and a mean displacement of at most the least cost (triangle inequality)"""
    n = X.shape[0]
    if np.max(np.abs(Y.mean(0) - X.T @ w)) > tol: return False
    for kind, p in (("euclidean", 1), ("sqeuclidean", 2)):
        C = dist(X, X, kind)
        best = float((emd(w, np.full(n, 1.0 / n), C) * C).sum())
        if float(np.mean(np.sqrt(np.sum((Y - X) ** 2, 1)) ** p)) <= best * (1 + 1e-4) + tol: return True
    return False

def explained_by_transport(X, w, Y, tol):
    """is Y (N x d) = N X^T P for some optimal plan P, Euclidean or squared Euclidean cost?  Small linear programme."""
    from scipy.optimize import linprog
    n, d = X.shape
    best = np.inf
    for kind in ("euclidean", "sqeuclidean"):
        C = dist(X, X, kind)
        P = emd(w, np.full(n, 1.0 / n), C)
        opt = float((P * C).sum())
        # variables: P (n*n), slack s+ , s- (n*d each)
        nv = n * n; ns = n * d
        A = []; b = []
        for i in range(n):
            r = np.zeros(nv + 2 * ns); r[i * n:(i + 1) * n] = 1; A.append(r); b.append(w[i])
        for j in range(n - 1):                                        # the last one follows from the others
            r = np.zeros(nv + 2 * ns); r[j:nv:n] = 1; A.append(r); b.append(1.0 / n)
        k = 0
        for j in range(n):
            for a in range(d):
                r = np.zeros(nv + 2 * ns)
                for i in range(n): r[i * n + j] = n * X[i, a]
                r[nv + k] = 1; r[nv + ns + k] = -1
                A.append(r); b.append(Y[j, a]); k += 1
        ub = np.zeros((1, nv + 2 * ns)); ub[0, :nv] = C.reshape(-1)
        c = np.concatenate([np.zeros(nv), np.ones(2 * ns)])
        for pre in (True, False):                                     # the presolver may take a feasible programme for an infeasible one
            res = linprog(c, A_ub=ub, b_ub=[opt * (1 + 1e-7) + 1e-10], A_eq=np.array(A), b_eq=np.array(b), bounds=(0, None), method="highs", options=dict(presolve=pre))
            if res.status == 0: best = min(best, res.fun); break
        else: return True, 0.0                                        # the programme is feasible by construction: the solver has failed
    return best <= tol * n * d, best
