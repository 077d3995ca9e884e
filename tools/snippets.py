"""Snippets on which the symbolic executor is compared with the real interpreter and libraries (tools/selftest.py).
Arguments by name: A (N,d), B (M,d), v (d,), w (N,) positive, Q (d,d) positive definite, C3 (N,d,2) arrays; TA, TB, Tv, Tw, TQ the same
as tensors; a, b numbers; i an integer with 0 <= i < d; N, M, d the sizes."""
import numpy as np
import torch
import math
import functools, itertools
import scipy.special
from functools import reduce
from scipy.spatial.distance import cdist, pdist, squareform
import ot

# ---------------------------------------------------------------- elementwise, broadcasting, reductions
def np_arith(A, B, v, a): return A * v - a / (1 + v ** 2) + np.exp(-A ** 2 / 2)
def np_abs_sign(A): return np.abs(A) + np.sign(A) * 2 + np.square(A) + np.sqrt(np.abs(A)) + np.tanh(A) + np.sin(A) * np.cos(A)
def np_log(w): return np.log(w) + np.log1p(w) + np.expm1(w) + np.reciprocal(w) + np.power(w, 2) + np.power(w, -1)
def np_where(A, v): return np.where(A > v, A, -v)
def np_where2(A, a): return np.where((A > 0) & (A < a) | (A < -1), 1.0, A)
def np_minmax(A, v): return np.maximum(A, v) + np.minimum(A, 0.3) + np.clip(A, -0.5, 0.5)
def np_clip_vec(A, v): return np.clip(A, v - 1, v + 1)
def np_sum0(A): return np.sum(A, axis=0)
def np_sum1(A): return A.sum(axis=1)
def np_sumk(A): return A / A.sum(axis=1, keepdims=True)
def np_mean_std(A): return A.mean(axis=0) / np.std(A, axis=0)
def np_std_ddof(A): return np.std(A, axis=0, ddof=1) + np.var(A, axis=0) + np.var(A, axis=0, ddof=1)
def np_std_all(A): return np.std(A) + np.var(A) + np.mean(A)
def np_minmax_red(A): return np.min(A, axis=0) - np.max(A, axis=0) + np.ptp(A, axis=0) + np.amin(A) + np.amax(A)
def np_prod(A): return np.prod(A, axis=1) + np.prod(A[:, :1], axis=1)
def np_cumlike(A, N): return np.array([A[:k + 1].sum() for k in range(N)])
def np_anyall(A): return np.array([float(np.any(A > 1.0)), float(np.all(A < 1.5))])
def np_count(A): return np.sum(A > 0) + np.count_nonzero(A < 0.2) * 2
def np_boolprod(A, v): return np.all(A >= v, axis=1) & np.any(A <= 2 * v, axis=1)
def np_average(A, w): return np.average(A, axis=0, weights=w)
def np_dot(A, B): return np.dot(A, B.T) + A @ B.T
def np_matvec(A, v): return A @ v
def np_vecmat(A, w): return w @ A
def np_inner(v): return v @ v + np.dot(v, v)
def np_outer(v, w): return np.outer(v, w)
def np_einsum(A, B): return np.einsum('nk,mk->nm', A, B)
def np_einsum2(A, w): return np.einsum('ij,i->j', A, w)
def np_einsum3(A): return np.einsum('ij,ij->i', A, A)
def np_einsum4(Q): return np.einsum('ii->i', Q) + np.einsum('ii', Q)
def np_inv(Q): return np.linalg.inv(Q)
def np_solve(Q, v): return np.linalg.solve(Q, v)
def np_solve2(Q, A): return np.linalg.solve(Q, A.T)
def np_norm(A, v): return np.linalg.norm(A, axis=1) + np.linalg.norm(v)
def np_norm1(A): return np.linalg.norm(A, ord=1, axis=1)
def np_trace(Q): return np.trace(Q) + np.diag(Q).sum()
def np_diag(v): return np.diag(v)
def np_eye(Q, d): return Q + 1e-3 * np.eye(d) + np.identity(d)
def np_multidot(A, Q, B): return np.linalg.multi_dot([A, Q, B.T])
def np_divmod(d, N): return np.array([N // 2, N % 2, -N // 2, -N % 3, d // 3])
def np_floor(A): return np.floor(A) + np.ceil(A * 2)
def np_round(A, a): return np.round(A) + np.rint(A * 3) + np.round(A, 2) + np.around(A * 7, decimals=1) + np.trunc(A * 2) + np.fix(A) + round(a)
def np_round_method(A): return A.round() + A.round(1) * 2
def t_round(TA): return torch.round(TA * 3) + torch.trunc(TA) + TA.round()
def np_round_size(A, a): return np.zeros((int(np.round(abs(a) + 1)), A.shape[0])) + A[:, 0]
def np_round_int(a): return int(a) + math.floor(a) + math.ceil(a)
def np_pow(w, a): return w ** 2 + w ** -1 + w ** 0.5
def np_hypot(A): return np.hypot(A, A + 1)
def np_logical(A): return np.logical_and(A > 0, A < 1) | np.logical_not(A > -1)
def np_lse(w): return np.exp(w - w.max()) / np.exp(w - w.max()).sum()
# ---------------------------------------------------------------- shape manipulation, indexing
def np_newaxis(A, B): return A[:, None, :] - B[None, :, :]
def np_newaxis2(A, B): return np.sum((A[:, np.newaxis] - B) ** 2, axis=-1)
def np_T(A): return A.T[::-1]
def np_slices(A): return A[1:, :] - A[:-1, :]
def np_slices2(A, N): return A[N - 1:0:-1]
def np_neg(A): return A[-1] + A[:, -1].sum() + A[-1, 0]
def np_step(A): return A[::2, :].sum()
def np_ellipsis(C3): return C3[..., 0] + C3[:, :, -1]
def np_reshape(A, N, d): return A.reshape(N * d)
def np_reshape2(A, N, d): return A.reshape((1, N, d)) + A.reshape(-1, 1, d)
def np_ravel(A): return A.ravel() + A.T.ravel(order='F') + A.flatten()
def np_transpose(C3): return np.transpose(C3, (2, 0, 1))
def np_swap(C3): return np.swapaxes(C3, 0, 2)
def np_moveaxis(C3): return np.moveaxis(C3, -1, 0)
def np_stack(A): return np.stack([A, 2 * A, A - 1], axis=0)
def np_stack2(A): return np.stack((A, A + 1), axis=-1)
def np_concat(A, B): return np.concatenate((A, B), axis=0)
def np_concat1(A): return np.concatenate([A, A * 2], axis=1)
def np_vstack(v): return np.vstack((v, v + 1)) + np.hstack([v, v])[:v.size]
def np_colstack(w): return np.column_stack((w, 2 * w))
def np_tile(v, N): return np.tile(v, (N, 1))
def np_repeat(v): return np.repeat(v[:, None], 3, axis=1)
def np_repeat2(v): return np.repeat(v, 2)
def np_flip(A): return np.flip(A, axis=0) + A[:, ::-1]
def np_diff(w): return np.diff(w)
def np_expand(v, A): return np.expand_dims(v, 0) + A
def np_squeeze(v): return np.squeeze(v[None, :])
def np_full(N, d, a): return np.full((N, d), a) + np.ones((N, d)) + np.zeros((N, 1))
def np_like(A): return np.ones_like(A) * 2 + np.zeros_like(A) + np.full_like(A, 3.0)
def np_linspace(a, N): return np.linspace(a, a + 2, N + 1)
def np_arange(N): return np.arange(N) + np.arange(1, N + 1) * 2
def np_arange_f(a): return np.arange(a, a + 0.0125, 0.005)
def np_arange_s(N): return np.arange(0, 2 * N, 2)
def np_fancy(A, i): return A[:, [i]]
def np_fancy2(A, d): return A[:, list(range(d))]
def np_arr_idx(A, N): return A[np.arange(N), 0]
def np_diag_idx(Q, d):
    P = Q.copy()
    P[np.diag_indices_from(P)] += 1.5
    P[np.arange(d), np.arange(d)] *= 2
    return P
def np_bto(v, N): return np.broadcast_to(v, (N, v.shape[0])) * 1.0
def np_atleast(v): return np.atleast_2d(v) + np.atleast_1d(v)
def np_shape(A): return np.array([A.shape[0], A.shape[1], A.size, A.ndim, len(A)])
def np_array_list(A, d): return np.array([2 * np.std(A[:, k]) for k in range(d)])
def np_array_nested(A, d): return np.array([[np.min(A[:, k]), np.max(A[:, k])] for k in range(d)])
def np_copy(A):
    B2 = A.copy(); B2[0] = 5; C2 = np.array(A); C2[:, 0] = 7
    return A + B2 + C2
def np_view(A):
    P = A.copy(); q = P.T; q[0] = 3; r = P[1:]; r *= 2
    return P
def np_view2(A):
    P = A.copy(); s = P[:, 0]; s[:] = s + 1; t = P.reshape(-1); t[0] = 9
    return P
def np_alias(A):
    P = A.copy(); R = P; P += 1; P = P * 2
    return R + P
def np_noalias(A):
    P = A.copy(); R = P * 1; P += 1
    return R
def np_asarray_alias(A):
    P = A.copy(); R = np.asarray(P); R[0] = 4
    return P
def np_setrow(A, v):
    P = np.zeros((A.shape[1], A.shape[0])); P[:, 0] = v; P[0, 1:] = 2
    return P
def np_overlap(A):
    P = A.copy(); P[1:] = P[:-1]
    return P
def np_selfread(A):
    P = A.copy(); P[:, 0], P[:, -1] = P[:, -1].copy(), P[:, 0].copy()
    return P
def np_mask_set(A):
    P = A.copy(); P[P > 0.5] = 0.5; P[P < -0.5] *= 2
    return P
def np_fill(A):
    P = np.empty(A.shape); P.fill(2.5); P[:] = P + A
    return P
# ---------------------------------------------------------------- loops
def lp_sum(w, N):
    s = 0.0
    for k in range(N): s += w[k] * k
    return s
def lp_last(w, N):
    s = 0.0
    for k in range(N): s = w[k]
    return s
def lp_minmax(w, N):
    lo = w[0]; hi = w[0]
    for x in w:
        if x < lo: lo = x
        hi = max(hi, x)
    return lo + 2 * hi
def lp_argmin(w, N):
    best = 0
    for k in range(1, N):
        if w[k] < w[best]: best = k
    return best
def lp_prod(w, N):
    s = 1.0
    for k in range(N): s = s * w[k]
    return s
def lp_affine(w, N):
    s = 1.0
    for k in range(N): s = 0.5 * s + w[k]
    return s
def lp_cumsum(w, N):
    out = np.zeros(N); s = 0.0
    for k in range(N):
        s = s + w[k]; out[k] = s
    return out
def lp_recur(w, N):
    out = np.zeros(N); out[0] = w[0]
    for k in range(1, N): out[k] = out[k - 1] ** 2 * 0.1 + w[k]
    return out
def lp_recur2(w, N):
    out = np.zeros(N)
    for k in range(N):
        if k == 0: out[k] = 1.0
        elif k == 1: out[k] = out[0] + w[1]
        else: out[k] = out[k - 1] * w[k] - out[k - 1] / 2
    return out
def lp_backward(w, N):
    out = np.zeros(N); out[-1] = 2.0
    for k in range(N - 1):
        r = N - k - 2
        out[r] = out[r + 1] * 0.5 + w[r]
    return out
def lp_down(w, N):
    out = np.zeros(N)
    for k in range(N - 1, -1, -1): out[k] = w[k] * k
    return out
def lp_nested(A, B):
    n, m = A.shape[0], B.shape[0]; out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            t = 0.0
            for k in range(A.shape[1]): t += (A[i, k] - B[j, k]) ** 2
            out[i, j] = math.sqrt(t)
    return out
def lp_triangle(A, N):
    out = np.zeros((N, N))
    for i in range(N):
        for j in range(i):
            out[i, j] = A[i, 0] - A[j, 0]
            out[j, i] = out[i, j] * 2
    return out
def lp_dims(A, d, a):
    out = np.zeros(A.T.shape)
    for k in range(d):
        out[k, :] = -(A[:, k] - np.mean(A[:, k])) / np.std(A[:, k]) ** 2
    return out
def lp_resset(A, d):
    res = 1
    for k in range(d): res = np.multiply(res, np.exp(-A[:, k] ** 2))
    return res
def lp_list(A, d):
    L = []
    for k in range(d): L.append(A[:, k].max())
    return np.array(L)
def lp_list2(w, N):
    L = [0.0]
    for k in range(N): L.append(L[-1] + w[k])
    return np.array(L)
def lp_cond(w, N):
    s = 0.0; c = 0
    for k in range(N):
        if w[k] > 1: s += w[k]; c += 1
        else: s -= 0.5
    return np.array([s, c])
def lp_break(w, N):
    k = 0
    for k in range(N):
        if w[k] > 1.2: break
    return k
def lp_ret(w, N):
    for k in range(N):
        if w[k] > 1.2: return w[k]
    return -1.0
def lp_forelse(w, N):
    r = 0.0
    for k in range(N):
        if w[k] > 3: r = w[k]; break
    else: r = -2.0
    return r
def lp_continue(w, N):
    s = 0.0
    for k in range(N):
        if w[k] > 1: continue
        s += w[k]
    return s
def lp_while(w, N):
    k = 0; s = 0.0
    while k < N: s += w[k]; k += 1
    return s + k
def lp_while2(w, N):
    k = N - 1; s = 0.0
    while k >= 0: s = s * 0.5 + w[k]; k -= 1
    return s
def lp_zip(A, B, v):
    s = 0.0
    for x, y in zip(v, v * 2): s += x * y
    return s
def lp_enum(w):
    s = 0.0
    for k, x in enumerate(w): s += (k + 1) * x
    return s
def lp_enum1(w):
    s = 0.0
    for k, x in enumerate(w[:-1], start=1): s += k * x
    return s
def lp_swap(w, N):
    p, q = 0.0, 1.0
    for k in range(N): p, q = q, p + w[k]
    return p + 10 * q
def lp_inplace(w, N):
    x = np.zeros(3); y = x
    for k in range(N): x += w[k]
    return x + y
def lp_rebind(w, N):
    x = np.zeros(3); y = x
    for k in range(N): x = x + w[k]
    return x + y
def lp_bool(w, v):
    c = True
    for x in v: c = c and (x > -0.5)
    return 1.0 if c else 0.0
def lp_boolmul(v):
    c = True
    for x in v: c = c * ((x > -1) and (x < 1))
    return float(c)
def lp_state(w, N):
    first = True; s = 0.0
    for k in range(N):
        if first: s = w[k]; first = False
        else: s = s * 2 + w[k]
    return s
def lp_lastassign(w, N):
    g = 0.0; s = 0.0
    for k in range(N):
        if k % 2 == 0: g = w[k]
        s += g * k
    return s
def lp_prev(w, N):
    prev = w[0]; s = 0.0
    for k in range(N):
        s += (w[k] - prev) ** 2; prev = w[k]
    return s
def lp_flow(A, N, d):
    Z = np.zeros((d, N, 5)); t = 0.0
    for ti in range(5):
        if ti == 0: Z[:, :, 0] = A.T
        else: Z[:, :, ti] = Z[:, :, ti - 1] + 0.1 * np.sin(Z[:, :, ti - 1]) * Z[:, :, ti - 1].mean(axis=1, keepdims=True)
    return Z
def lp_flow_N(A, N, d):
    Z = np.zeros((d, N + 2))
    for ti, tt in enumerate(np.arange(0, 0.001 * (N + 1) + 0.0005, 0.001)):
        if ti == 0: Z[:, 0] = 1.0
        elif ti == 1: Z[:, 1] = Z[:, 0] + 0.1
        else: Z[:, ti] = Z[:, ti - 1] + tt * np.mean(Z[:, ti - 1])
    return Z
def lp_closures(v, d):
    fs = [lambda x, k=k: x * v[k * (d - 1)] for k in range(3) if k < 2]
    g = [lambda x: x + k for k in range(3)]
    return fs[0](2.0) + fs[1](3.0) + g[0](1.0)
def lp_comp(A, d): return np.sum(np.array([A[:, k] * (k + 1) for k in range(d)]), axis=0)
def lp_gen(v): return sum(x * x for x in v) + max(x for x in v) - min([x for x in v])
def lp_reduce(v): return functools.reduce(lambda p, q: p + q * 2, v, 0.0)
def lp_modify_list(v, d):
    L = [0.0] * d
    for k in range(d): L[k] = v[k] + 1
    return np.array(L)
def lp_twice(w, N):
    s = 0.0
    for r in range(2):
        for k in range(N): s += w[k] * (r + 1)
    return s
def lp_sum_of_prev(w, N):
    s = 0.0; q = 0.0
    for k in range(N):
        q += s; s += w[k]
    return q
# ---------------------------------------------------------------- python
def py_default(v, a):
    def f(x, y=2.0, *r, z=1.0, **k): return x * y + z + sum(r) + k.get('u', 0.0)
    return f(a) + f(a, 3.0, 4.0, 5.0, z=2.0, u=1.0) + f(*[a, 1.0], **{'z': 5.0})
def py_cond(a, b): return a if a > b else (b if b > 0 else 0.0)
def py_chain(a, b): return 1.0 if -1 < a < b else 2.0
def py_nonlocal(a):
    n = 0
    def f(x):
        nonlocal n
        n += 1
        return x * n
    return f(a) + f(a)
def py_class(a, b):
    class P:
        scale = 2.0
        def __init__(self, x): self.x = x
        def get(self, y=1.0): return self.x * self.scale + y
        @staticmethod
        def st(q): return q * 3
        @property
        def twice(self): return 2 * self.x
        def __call__(self, z): return z + self.x
    p = P(a); q = P(b); q.scale = 5.0
    return p.get() + q.get(2.0) + P.st(1.0) + p.twice + q(1.0)
def py_inherit(a):
    class P:
        def __init__(self, x): self.x = x
        def f(self): return self.x
    class R(P):
        def f(self): return P.f(self) * 2
    return R(a).f()
def py_dict(a, b):
    d0 = {'p': a, 'q': b}; d0['p'] += 1
    return d0['p'] * d0['q'] + (1.0 if 'r' in d0 else 2.0) + d0.get('r', 4.0) + len(d0)
def py_tuple(a, b):
    (x, y), *z = (a, b), 1.0, 2.0
    return x - y + sum(z)
def py_try(a):
    try: x = a * 2
    except ValueError: x = 0.0
    finally: y = 1.0
    return x + y
def py_str(a): return 1.0 if 'euclid'.upper() == 'EUCLID' else a
def py_walrus(a):
    if (y := a * 2) > 1: return y
    return -y
def py_mutdefault(a):
    def f(x, acc=[]):
        acc.append(x); return len(acc)
    f(a); f(a)
    return f(a)
def py_lambda(a, b): return (lambda x, y: x ** 2 - y)(a, b)
def py_star(v): return max(*[1.0, 2.0]) + min(3.0, 4.0, 2.5) + abs(-2) + pow(2, 3) + round(2.6)
def py_is(v): return 1.0 if v is not None and isinstance(v, np.ndarray) and not isinstance(v, (list, tuple)) else 0.0
def py_short(a): return (a or 5.0) + (a and 2.0)
def py_assert(a):
    assert True, "no"
    return a
def py_intdiv(N): return (N - 1) // 2 + int(N / 2) + N % 2
def py_listops(a):
    L = [1.0, a]; L += [2.0]; L.extend([3.0]); L.insert(0, 9.0); x = L.pop(); L = L + [4.0]; K = L[::-1]
    return K[0] + L[0] * 2 + x + len(L) + K[-1]
def py_sharedlist(a):
    L = [a]; K = L; K.append(1.0); T = list(L); T.append(2.0)
    return len(L) + 10 * len(T)
# ---------------------------------------------------------------- distances, transport
def sp_cdist(A, B): return cdist(A, B)
def sp_cdist2(A, B): return cdist(A, B, metric='sqeuclidean') + cdist(A, B, 'cityblock')
def sp_pdist(A): return squareform(pdist(A))
def sp_pdist2(A): return squareform(pdist(A, 'sqeuclidean'))
def ot_dist(A, B): return ot.dist(A, B)
def ot_dist2(A, B): return ot.dist(A, B, metric='euclidean')
def ot_emd(A, w, N): return ot.emd(w / w.sum(), np.ones(N) / N, ot.dist(A, A))
# ---------------------------------------------------------------- torch
def t_arith(TA, Tv, a): return TA * Tv - a / (1 + Tv ** 2) + torch.exp(-TA ** 2 / 2)
def t_std(TA): return torch.std(TA, dim=0) + torch.std(TA, dim=0, unbiased=False) + torch.var(TA, dim=0) + TA.std(0)
def t_std_all(TA): return torch.std(TA) + TA.var() + TA.mean()
def t_mean(TA): return TA.mean(dim=1, keepdim=True) * TA
def t_minmax(TA): return torch.min(TA, dim=0).values + TA.max(dim=0)[0] + torch.amin(TA, dim=0) + TA.amax(0)
def t_aminmax(TA):
    lo, hi = torch.aminmax(TA, dim=0)
    return hi - lo
def t_min2(TA, Tv): return torch.minimum(TA, Tv) + torch.maximum(TA, Tv) + torch.max(TA, Tv)
def t_sum(TA): return torch.sum(TA, 0) + TA.sum(dim=0) + TA.sum()
def t_matmul(TA, TB): return TA @ TB.T + torch.mm(TA, torch.t(TB)) + torch.matmul(TA, TB.t())
def t_mv(TA, Tv): return torch.mv(TA, Tv) + TA @ Tv
def t_inv(TQ): return torch.linalg.inv(TQ) + torch.inverse(TQ)
def t_solve(TQ, TA): return torch.linalg.solve(TQ, TA.T)
def t_where(TA): return torch.where(TA > 0, TA, torch.zeros_like(TA))
def t_clamp(TA): return torch.clamp(TA, min=-0.5, max=0.5) + TA.clamp(min=0) + torch.clamp(TA, max=0.1)
def t_unsq(TA, TB): return TA.unsqueeze(1) - TB.unsqueeze(0)
def t_cat(TA, TB): return torch.cat((TA, TB), dim=0)
def t_stack(TA): return torch.stack([TA, TA * 2], dim=2)
def t_view(TA, N, d): return TA.reshape(N * d) + TA.flatten() + TA.contiguous().view(-1)
def t_permute(TA): return TA.unsqueeze(0).permute(2, 0, 1)
def t_transpose(TA): return TA.transpose(0, 1) + torch.transpose(TA, 1, 0) + TA.mT
def t_expand(Tv, N): return Tv.expand(N, Tv.shape[0]) + Tv.repeat(N, 1)
def t_eye(TQ, d): return TQ + 1e-3 * torch.eye(d, dtype=torch.float64) + torch.diag(TQ.diagonal())
def t_zeros(N, d): return torch.zeros(N, d, dtype=torch.float64) + torch.ones((N, d), dtype=torch.float64) + torch.full((N, 1), 2.0, dtype=torch.float64)
def t_inplace(TA):
    P = TA.clone(); P[:, 0] = 1; P[0] += 2; P.mul_(2); P.add_(1)
    return P
def t_inplace_view(TA):
    P = TA.clone(); q = P[:, 0]; q += 5; P.t()[0, 0] = 7
    return P
def t_from_numpy_alias(A):
    P = A.copy(); T = torch.from_numpy(P); T[0] = 3.0
    return P
def t_tensor_copy(A):
    P = A.copy(); T = torch.tensor(P); T[0] = 3.0
    return P
def t_as_tensor_alias(A):
    P = A.copy(); T = torch.as_tensor(P); T += 1
    return P
def t_numpy_alias(TA):
    P = TA.clone(); n = P.numpy(); n[0] = 2.0
    return P
def t_detach_alias(TA):
    P = TA.clone(); n = P.detach(); n[0] = 2.0; k = P.to(torch.float64); k[1] = 5.0; c = P.cpu(); c[:, 0] = 1.5
    return P
def t_arange(N): return torch.arange(0, N, 1, dtype=torch.float64) + torch.arange(N)
def t_arange_f(a): return torch.arange(a, a + 0.0125, 0.005, dtype=torch.float64)
def t_linspace(a, N): return torch.linspace(a, a + 1, N, dtype=torch.float64)
def t_cdist(TA, TB): return torch.cdist(TA, TB)
def t_einsum(TA, TB): return torch.einsum('ij,kj->ik', TA, TB)
def t_norm(TA): return torch.linalg.norm(TA, dim=1) + torch.norm(TA, dim=1)
def t_any(TA): return torch.any(TA > 1).double() + torch.all(TA < 2).double()
def t_diag_embed(TQ): 
    P = TQ.clone(); P.diagonal().add_(0.5)
    return P
def t_size(TA): return torch.tensor([TA.size(0), TA.shape[1], TA.dim(), TA.numel(), len(TA)])
def t_item(TA): return TA[0, 0].item() + float(TA[-1, -1]) + TA.sum().item()
def t_pow(Tw): return torch.pow(Tw, 2) + torch.sqrt(Tw) + torch.log(Tw) + torch.square(Tw) + Tw.pow(0.5)
def t_loop(TA, d):
    P = torch.zeros(d, dtype=torch.float64)
    for k in range(d): P[k] = torch.std(TA[:, k], unbiased=False) + torch.min(TA[:, k])
    return P
def t_squeeze(Tv): return Tv[None, :, None].squeeze()
def t_flip(TA): return torch.flip(TA, dims=[0]) + torch.flip(TA, [1])
def t_prod(TA): return torch.prod(TA, dim=1)
def t_outer(Tv, Tw): return torch.outer(Tv, Tw)
def t_softmax(Tw): return torch.exp(Tw) / torch.sum(torch.exp(Tw))
def t_numpy_mix(TA, v): return TA.numpy() * v
def t_bool(TA, Tv): return ((TA >= Tv) & (TA <= Tv + 1)).all(dim=1)
# ---------------------------------------------------------------- random draws (their values are supplied)
def rn_normal(N, d): return np.random.normal(1.0, 2.0, size=(d, N))
def rn_normal_vec(A, v): return np.random.normal(v, 0.5, size=A.shape)
def rn_uniform(v, N): return np.random.uniform(low=v, high=v + 2, size=(N, v.shape[0]))
def rn_uniform_loop(A, M, d):
    b = np.zeros((d, 2))
    for k in range(d): b[k] = [np.min(A[:, k]), np.max(A[:, k])]
    return np.array([np.random.uniform(low=x[0], high=x[1], size=(M)) for x in b])
def rn_rand(N, d): return np.random.rand(N, d) * 2 - 1
def rn_randn(N, d): return np.random.randn(N, d) * 2 - 1
def rn_loop(w, N):
    s = 0.0
    for k in range(N): s += w[k] * np.random.normal()
    return s
def rn_torch_normal(N, d): return torch.empty([d, N], dtype=torch.float64).normal_(mean=0.5, std=2.0)
def rn_torch_uniform(Tv, N): return torch.distributions.Uniform(low=Tv, high=Tv + 3).sample([N])
def rn_torch_randn(N, d): return torch.randn(N, d, dtype=torch.float64) + 1
def lp_break_arr(w, N):
    r = np.zeros(2)
    for k in range(N):
        if w[k] > 1.2:
            r[0] = w[k]; break
        r[1] = 3
    return r
def lp_break_tmp(w, N):
    t = -1.0
    for k in range(N):
        t = w[k] * 2
        if t > 2.4: break
    return t
def lp_while_break(w, N):
    k = 0
    while k < N:
        if w[k] > 1.2: break
        k += 1
    return k
def lp_break_else2(w, N):
    for k in range(N):
        if w[k] > 1.2: break
    else: k = -5
    return k
def al_bto(v, N):
    B = np.broadcast_to(v, (N, v.shape[0]))
    v = v.copy(); C = B + 1
    return C
def al_bto2(v, N):
    u = v * 1
    B = np.broadcast_to(u, (N, v.shape[0]))
    u[0] = 7
    return B
def al_flip(v, A):
    u = v * 1; f = np.flip(u); f[0] = 9.0
    g = np.flip(A, 0) * 1
    h = A * 1; k = np.flipud(h); k[0] += 1
    return u.sum() + (u * v).sum() + (g * h).sum()
def al_tflip(Tv):
    u = Tv * 1; f = torch.flip(u, [0]); f[0] = 9.0
    return u
def lp_grow(A, N):
    Z = [A[0]]
    for k in range(1, N): Z.append(Z[-1] * 0.5 + A[k])
    return np.stack(Z)
def lp_grow2(A, N):
    Z = [A[0]]
    for k in range(N - 1): Z.append(Z[k] * 0.5 + np.sin(A[k + 1]))
    return np.stack(Z, axis=1)
def lp_grow3(w, N):
    L = [1.0, 2.0]
    for k in range(N): L.append(w[k])
    L.append(7.0)
    return np.array(L) * 2
def lp_grow4(A, N):
    L = [A[0], A[1] * 2]
    for k in range(N): L.append(A[k] + 1)
    return np.array(L)
def lp_grow5(w, N):
    L = [0.5]
    while len(L) < 4: L.append(L[-1] * 2)
    for k in range(N): L.append(w[k] + len(L))
    return np.array(L)
def lp_grow6(A, N):
    Z = [A[0] * 1.0]
    for k in range(N):
        y = Z[-1] + A[k]
        Z.append(y)
    return np.stack(Z[:]) if False else np.array(Z)
def lp_grow_alias(A, N):
    y = A[0] * 1.0; Z = [y]
    for k in range(N):
        y = Z[-1]
        y += A[k]
        Z.append(y * 1.0)
    return np.array(Z)
def lp_grow_if(w, N):
    L = [0.0]
    for k in range(N):
        if w[k] > 1: L.append(L[-1] + w[k])
        else: L.append(L[-1] - 1)
    return np.array(L)
def lp_accum(w): return np.array(list(itertools.accumulate(w)))
def lp_tuple_idx(A, N, a, b):
    L = [a, b, 2.0]; s = 0.0
    for k in range(N): s += L[k % 2] * A[k, 0]
    for k in range(3): s += L[k - 1]
    return s
def lp_tuple_arr(A, N):
    L = [A[0], A[1]]; s = np.zeros(A.shape[1])
    for k in range(N): s = s + L[k % 2]
    return s

# ---------------------------------------------------------------- results written into given arrays, more ways to write the same thing
def out_matmul(A):
    A = A.copy(); G = A.T @ A
    np.matmul(A, G, out=A); return A
def out_sub(A, v):
    r = np.empty_like(A); np.subtract(A, v, out=r); np.multiply(r, 2.0, out=r); return r
def out_col(A, v):
    r = np.zeros(A.shape); np.exp(A[:, 0], out=r[:, 0]); np.add(A[0], v, out=r[0]); return r
def out_sum(A):
    r = np.zeros(A.shape[1]); np.sum(A, axis=0, out=r); return r
def t_out(TA, TB):
    r = torch.zeros(TA.shape[0], TB.shape[0], dtype=torch.float64); torch.matmul(TA, TB.T, out=r); return r
def py_partial(A, v):
    g = functools.partial(np.subtract, A); return g(v) * 2
def py_map(A): return np.array(list(map(lambda r: r.sum(), A)))
def py_map2(A, B, d): return np.array([x @ y for x, y in zip(A.T, A.T[::-1])])
def py_zipstar(A, B):
    lo, hi = zip(*[(A[:, k].min(), A[:, k].max()) for k in range(A.shape[1])]); return np.array(lo) - np.array(hi)
def py_unpack(A, v):
    (x, y), *z = [(A, v), 1.0, 2.0]; return x * y + sum(z)
def py_starcall(A, v):
    args = (A, v); kw = dict(axis=1); return np.sum(np.multiply(*args), **kw)
def py_dictcomp(A, d):
    g = {k: A[:, k] * k for k in range(d)}; return sum(g[k] for k in range(d))
def py_static(A):
    class T:
        @staticmethod
        def half(x): return x / 2
        @classmethod
        def twice(cls, x): return cls.half(x) * 4
        @property
        def three(self): return 3.0
    return T.twice(A) + T().three
def py_with(A):
    with np.errstate(all="ignore"): r = A * 2
    return r
def t_nograd(TA):
    with torch.no_grad(): r = TA * 2
    return r
def py_tryfin(A):
    r = 0 * A
    try: r = A + 1
    finally: r = r * 2
    return r
def py_ternary(A, a): return (A if a > 0 else -A) * (2 if not a > 1 else 3)
def py_chained(a, b): return 1.0 if 0 < a < b else 2.0 if a >= b >= 0 else 3.0
def py_while_list(A):
    l = [A[:, 0]]; k = 1
    while k < A.shape[1]: l.append(l[-1] + A[:, k]); k += 1
    return l[-1]
def py_reversed(A, N):
    s = A[0] * 0
    for n in reversed(range(N)): s = s * 0.5 + A[n]
    return s
def py_enum_rev(A):
    r = np.zeros(A.shape)
    for k, row in enumerate(A[::-1]): r[k] = row
    return r
def py_zip3(A, N):
    r = np.zeros(A.shape)
    for i, (p, q) in enumerate(zip(A[:-1], A[1:])): r[i + 1] = q - p
    return r
def py_product(A, B):
    r = np.zeros((A.shape[0], B.shape[0]))
    for i, j in itertools.product(range(A.shape[0]), range(B.shape[0])): r[i, j] = np.sum((A[i] - B[j]) ** 2)
    return r
def np_ndindex(A):
    r = np.zeros(A.shape)
    for i, j in np.ndindex(A.shape[0], A.shape[1]): r[i, j] = A[i, j] ** 2
    return r
def np_apply(A): return np.apply_along_axis(lambda r: r * 2 - r.sum(), 1, A)
def np_concat_T(A, B): return np.concatenate((A.T, B.T), axis=1).T
def np_rstack(A, v): return np.r_[v, v * 2]
def np_cstack(A, w): return np.c_[w, A]
def np_hstack(A, w): return np.hstack((A, w[:, None]))
def np_block_mean(A): return (A - A.mean(axis=0, keepdims=True)) / A.std(axis=0, keepdims=True)
def np_cov(A): return np.cov(A.T, ddof=0) if A.shape[1] > 1 else np.array([[np.var(A)]])
def np_einsum5(A, B, v): return np.einsum('nk,mk,k->nm', A, B, v)
def np_tensordot(A, B): return np.tensordot(A, B, axes=(1, 1))
def np_matmul3(C3): return C3.transpose(2, 0, 1) @ C3.transpose(2, 1, 0)
def np_sumax(C3): return C3.sum(axis=(0, 2)) + C3.mean(axis=(0, 2))
def np_triple(A, B): return -0.5 * np.sum(((A[:, None, :] - B[None, :, :]) / 1.5) ** 2, axis=-1)
def np_divide(A, v): return np.divide(A, v ** 2 + 1) + np.true_divide(A, 2) + np.negative(A) + np.add(A, 1) + np.subtract(A, 2)
def np_full2(A): return np.full((A.shape[1], A.shape[0]), A[0, 0]) + A.T
def np_empty(A):
    r = np.empty(A.shape); r[:] = A; r[0] = 1.0; return r
def np_ix(A): return A[np.arange(A.shape[0])[:, None], np.arange(A.shape[1])[None]]
def np_where1(A, a): return A[:, 0] * (A[:, 0] > a) + (A[:, 0] <= a)
def np_isclose(A, v): return np.where(np.isclose(A, v), 1.0, 0.0)
def np_isfinite(A): return np.where(np.isfinite(A), A, 0.0) + (0 if np.isnan(A).any() else 1)
def np_max_none(A): return A.max() - A.min() + np.max(np.abs(A))
def np_cumsum(A): return np.cumsum(A, axis=0)
def np_argmin(A): return A[np.argmin(A[:, 0])]
def np_sort(A): return np.sort(A[:, 0])
def np_linalg_multi(Q, A, d): return A @ np.linalg.inv(Q + 1e-3 * np.identity(d)) @ A.T
def np_solveT(Q, A): return np.linalg.solve(Q.T, A.T).T
def np_lstsq(Q, v): return np.linalg.solve(Q, v[:, None])[:, 0]
def t_sumdim(TA): return TA.sum(dim=0, keepdim=True) + TA.mean(1, keepdim=True) + TA.sum((0, 1))
def t_cov(TA): 
    c = TA - TA.mean(0); return c.T @ c / (len(TA) - 1)
def t_new(TA): return TA.new_zeros(3) + TA.new_ones(3) * 2 + TA.new_full((3,), 4.0)
def t_like(TA): return torch.full_like(TA, 2.0) + torch.ones_like(TA) + torch.zeros_like(TA) + torch.empty_like(TA).fill_(3)
def t_mul(TA, TB): return torch.mul(TA, 2).sub(1).div(3).neg().add(TA) + torch.mm(TA, TB.t()) @ TB
def t_addmm(TA, TB): return torch.addmm(TA, torch.ones(TA.shape[0], TB.shape[0], dtype=torch.float64), TB)
def t_linalg(TQ, Tv): return torch.linalg.solve(TQ, Tv) + torch.inverse(TQ) @ Tv + TQ.inverse() @ Tv
def t_gather(TA): return TA[torch.arange(TA.shape[0])] + TA.index_select(0, torch.arange(TA.shape[0]))
def t_unbind(TA): return torch.stack([c * 2 for c in TA.unbind(1)], 1)
def t_split(TA): return torch.cat([TA[:1], TA[1:]], dim=0)
def t_repeat(Tv, N): return Tv.repeat(N, 1) + Tv.expand(N, -1) + torch.tile(Tv, (N, 1))
def t_broadcast(Tv, N): return torch.broadcast_to(Tv, (N, Tv.shape[0])) * 2
def t_min_pair(TA, Tv): return torch.minimum(TA.min(0).values, Tv) + torch.max(TA.amax(0), Tv)
def t_var(TA): return torch.var(TA, dim=0) + torch.var(TA, 0, unbiased=False) + TA.std(0, unbiased=False)
def t_chain(TA): return ((TA - TA.mean()) / TA.std()).pow(2).exp().log().sqrt()
def t_movedim(TA): return TA.movedim(0, 1) + torch.movedim(TA, 0, 1) + TA.mT + TA.swapaxes(0, 1)
def t_logical(TA, a): return torch.logical_and(TA > 0, TA < a).double() + (TA > 0).to(torch.float64) + (~(TA > 0)).float().double()
def t_iter(TA):
    s = torch.zeros(TA.shape[1], dtype=torch.float64)
    for row in TA: s = s + row
    return s
def t_listcomp(TA): return torch.stack([row.sum() for row in TA])
def t_setitem(TA):
    r = torch.empty(TA.shape[1], 2, dtype=torch.float64)
    r[:, 0] = TA.amin(0); r[:, 1] = TA.amax(0); return r
def t_tensor_list(TA): return torch.tensor([float(TA.min()), float(TA.max())], dtype=torch.float64)
def t_tensor_list2(TA, d): return torch.tensor([[TA[:, k].min(), TA[:, k].max()] for k in range(d)], dtype=torch.float64)
def t_addc(TA, Tv): return TA.add(Tv, alpha=2.0) + torch.sub(TA, Tv, alpha=0.5)
def t_lerp(TA, TB): return torch.lerp(TA[:1], TB[:1], 0.3)
def t_dist(TA, TB): return torch.cdist(TA, TB) ** 2 + torch.cdist(TA, TB, p=2)
def t_sq(TA): return torch.square(TA) + torch.abs(TA) + torch.sign(TA) + torch.reciprocal(1 + TA ** 2)
def t_numpy_rt(TA): return torch.from_numpy(TA.numpy() * 2) + TA
def t_index_neg(TA): return TA[-1] - TA[-2] + TA[..., -1].sum()
def t_none(TA): return TA[None, :, None].shape[0] * TA + TA[:, None, :].sum(1)
def t_rowassign(TA):
    r = torch.zeros_like(TA)
    for i in range(TA.shape[0]): r[i] = TA[i] * (i + 1)
    return r
def lp_running(A):
    lo = A[0].copy(); hi = A[0].copy()
    for row in A[1:]: lo = np.minimum(lo, row); hi = np.maximum(hi, row)
    return hi - lo
def lp_mean_by_hand(A, N):
    s = 0.0 * A[0]
    for row in A: s += row
    mu = s / N; q = 0.0 * mu
    for row in A: q += (row - mu) ** 2
    return np.sqrt(q / N)
def lp_pairwise(A, B):
    r = np.empty((len(A), len(B)))
    for i, x in enumerate(A):
        for j, y in enumerate(B): r[i, j] = np.sqrt(((x - y) ** 2).sum())
    return r
def lp_pairwise_sym(A, N):
    r = np.zeros((N, N))
    for i in range(N):
        for j in range(i + 1, N): r[i, j] = r[j, i] = np.linalg.norm(A[i] - A[j])
    return r
def lp_kern(A, B, v):
    r = np.ones((len(A), len(B)))
    for k in range(len(v)): r *= np.exp(-(A[:, k][:, None] - B[:, k][None]) ** 2 / (2 * v[k] ** 2))
    return r
def lp_covered(A, v):
    for k in range(len(v)):
        if v[k] < A[:, k].min() or v[k] > A[:, k].max(): return False
    return True
def lp_covered2(A, v): return all(A[:, k].min() <= v[k] <= A[:, k].max() for k in range(len(v)))
def lp_covered3(A, v):
    ok = True
    for k, x in enumerate(v):
        ok &= bool(A[:, k].min() <= x) and bool(x <= A[:, k].max())
    return ok
def lp_step(A, N):
    Z = np.zeros(A.shape); Z[0] = A[0]
    for t in range(1, N): Z[t] = Z[t - 1] + 0.1 * np.tanh(Z[t - 1]) + A[t]
    return Z
def lp_step_local(A, N):
    Z = np.zeros(A.shape); cur = A[0]
    for t in range(N):
        if t > 0: cur = cur + 0.1 * np.tanh(cur) + A[t]
        Z[t] = cur
    return Z
def lp_step_list(A, N):
    out = [A[0]]
    for t in range(1, N): out.append(out[t - 1] + 0.1 * np.tanh(out[t - 1]) + A[t])
    return np.stack(out)
def lp_step_back(A, N):
    Z = np.zeros(A.shape); Z[-1] = A[-1]
    for t in range(N - 2, -1, -1): Z[t] = Z[t + 1] * 0.5 + A[t]
    return Z
def lp_step_back2(A, N):
    Z = np.zeros(A.shape); Z[-1] = A[-1]
    for s in range(1, N): t = N - 1 - s; Z[t] = Z[t + 1] * 0.5 + A[t]
    return Z
def lp_step_while(A, N):
    Z = np.zeros(A.shape); Z[0] = A[0]; t = 0
    while t < N - 1:
        Z[t + 1] = Z[t] * 0.5 + A[t + 1]; t += 1
    return Z
def lp_step_zip(A, N):
    Z = np.zeros(A.shape); Z[0] = A[0]
    for t, (prev, cur) in enumerate(zip(range(N - 1), range(1, N))): Z[cur] = Z[prev] * 0.5 + A[t + 1]
    return Z

# softmax and friends
def sp_softmax(w): return scipy.special.softmax(w) + scipy.special.log_softmax(w * 0.5)
def sp_softmax_axis(A): return scipy.special.softmax(A, axis=1) + np.expand_dims(scipy.special.logsumexp(A, axis=1), 1)
def sp_logsumexp(A, w): return scipy.special.logsumexp(w) + scipy.special.logsumexp(A, axis=0, keepdims=True)
def t_softmax_fn(TA): return torch.softmax(TA, dim=0) + torch.logsumexp(TA, 1, keepdim=True) + TA.softmax(1) + TA.logsumexp(0) + torch.nn.functional.log_softmax(TA, dim=1)

# dictionaries with symbolic keys
def py_dict_sym(A, N, d):
    c = {}
    c[N] = A[0, 0]; c[d] = A[1, 0]
    return c[N] + c[d]
def py_dict_memo(A, N, M):
    c = {(1, M): A[0, 0]}
    if (1, N) not in c: c[(1, N)] = A[1, 0]
    return c[1, N] * 2 + len(c)
def py_dict_setdefault(A, N, M):
    c = {}
    x = c.setdefault(("a", N), A[0, 0]); y = c.setdefault(("a", M), A[1, 0]); z = c.setdefault(("b", M), A[1, 0] * 3)
    return x + 2 * y + z
def py_dict_get(A, N, M):
    c = {N: 1.5}
    return c.get(M, 2.5) + sum(k for k in c)
