"""Contracts of the libraries the code under verification uses (numpy, torch, scipy, numba, POT, pyemd, builtins).

These contracts are assumed (they are listed in the evidence as trusted): array creation, indexing and views,
elementwise arithmetic, reductions, linear algebra, pairwise distances, random draws and optimal transport.
"""
import math
from fractions import Fraction
from . import terms as tm
from .terms import *
from .values import *
from . import interp as I_

USED = set()        # library functions whose assumed contract was used

class Ten:
    """a tensor value: shape and entry function"""
    __slots__ = ("shape", "f", "lib", "ty")
    def __init__(self, shape, f, lib, ty):
        self.shape = tuple(shape); self.f = f; self.lib = lib; self.ty = ty

class Condensed:
    def __init__(self, n, f): self.n = n; self.f = f
class Generator:
    def __init__(self, why): self.why = why

LIBORD = {"py": 0, "np": 1, "torch": 2}
def jlib(*ls): return max(ls, key=lambda l: LIBORD[l])
TYORD = {"bool": 0, "int": 1, "float": 2}
def jty(*ts): return max(ts, key=lambda t: TYORD[t])
def sort_of(ty): return {"bool": "B", "int": "I", "float": "R"}[ty]

def as_bool(t): return t if t.sort == "B" else cmp("!=", t, ZERO)

# ------------------------------------------------------------------ tensors <-> heap
def vshape(v): return v.shape if isinstance(v, Arr) else ()

def base_index(a, idx):
    out = []
    for d in a.vm:
        if d[0] == "i": out.append(d[1])
        else: out.append(add(d[2], mul(num(d[3]), idx[d[1]])) if d[3] != 1 or d[2] is not ZERO else idx[d[1]])
    return out

def lib_of_arr(m, a): return a.lb or m.heap[a.cid].lib
def as_lib(m, a, lib):
    """the same memory seen as an array of the other library"""
    return a if lib_of_arr(m, a) == lib else Arr(a.cid, a.vm, a.shape, lib)

def read(m, a, idx):
    c = m.heap[a.cid]
    b = base_index(a, idx)
    return subst(c.body, {v.args[0]: x for v, x in zip(c.vs, b)})

def ten(m, v):
    if isinstance(v, Ten): return v
    if isinstance(v, Sc): return Ten((), lambda idx, t=v.t: t, v.lib, v.ty)
    if isinstance(v, Arr):
        c = m.heap[v.cid]
        body, vs = c.body, c.vs
        def f(idx):
            b = base_index(v, idx)
            return subst(body, {x.args[0]: y for x, y in zip(vs, b)})
        return Ten(v.shape, f, v.lb or c.lib, c.ty)
    if isinstance(v, (tuple, ListRef, SymList, Seq, RangeV)): return seq_ten(m, v)
    if isinstance(v, Poison): raise Unsupported("use of an undetermined value: " + v.why)
    raise Unsupported("array of %s" % type(v).__name__)

def seq_ten(m, v):
    it = m.iterate(v)
    if isinstance(it, Seq):
        probe = ten(m, it.elem(tm.fresh("c", "I", ZERO, it.n)))
        def f(idx): return ten(m, it.elem(idx[0])).f(idx[1:])
        return Ten((it.n,) + probe.shape, f, "np", probe.ty)
    ts = [ten(m, x) for x in it]
    if not ts: return Ten((ZERO,), lambda idx: ZERO, "np", "float")
    sh = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(sh) or not all(same_dim(m, a, b) for a, b in zip(sh, t.shape)): raise Unsupported("ragged array")
    def f(idx):
        i = idx[0]
        if isnum(i) and 0 <= val(i) < len(ts): return ts[int(val(i))].f(idx[1:])
        r = ts[-1].f(idx[1:])
        for k in range(len(ts) - 2, -1, -1): r = ite(eq(i, num(k)), ts[k].f(idx[1:]), r)
        return r
    return Ten((num(len(ts)),) + sh, f, jlib("np", *[t.lib for t in ts]), jty(*[t.ty for t in ts]))

def out(m, t, keep0=False):
    if not t.shape: return Sc(t.f([]), t.ty, t.lib if t.lib != "py" else "py")
    vs = [tm.fresh("x", "I", ZERO, s) for s in t.shape]
    body = t.f(vs)
    return make(m, t.shape, vs, body, t.lib if t.lib != "py" else "np", t.ty)

def make(m, shape, vs, body, lib, ty):
    if not shape: return Sc(body, ty, lib)
    # give the cell its own variables when the sizes differ from the ranges of vs
    cid = m.new(ACell(shape, vs, body, lib, ty))
    return Arr(cid, [("v", k, ZERO, 1) for k in range(len(shape))], shape)

def content(m, a):
    t = ten(m, a)
    vs = [tm.fresh("x", "I", ZERO, s) for s in t.shape]
    return t.shape, vs, t.f(vs), t.lib, t.ty

def to_arr(m, v):
    """Arr with a cell, also for scalars"""
    if isinstance(v, Arr): return v
    t = ten(m, v)
    vs = [tm.fresh("x", "I", ZERO, s) for s in t.shape]
    cid = m.new(ACell(t.shape, vs, t.f(vs), t.lib, t.ty))
    return Arr(cid, [("v", k, ZERO, 1) for k in range(len(t.shape))], t.shape)

def copy_of(m, v, lib=None, ty=None):
    t = ten(m, v)
    return out(m, Ten(t.shape, t.f, lib or t.lib, ty or t.ty))

# ------------------------------------------------------------------ shapes
def same_dim(m, a, b):
    return a is b or (isnum(a) and isnum(b) and val(a) == val(b)) or (not (isnum(a) and isnum(b)) and m.valid(eq(a, b)))

ONES = {}           # symbolic sizes that were found to be 1 on some path (re-checked at every use)
def bshape(m, *shapes):
    n = max(len(s) for s in shapes)
    res = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0: continue
            x = s[j]
            if x is ONE: continue
            if d is ONE: d = x
            elif not same_dim(m, d, x):
                if m.valid(eq(x, ONE)): ONES[x] = m; continue
                if m.valid(eq(d, ONE)): ONES[d] = m; d = x; continue
                if m.valid(lnot(eq(d, x))) and m.valid(lnot(eq(d, ONE))) and m.valid(lnot(eq(x, ONE))):
                    raise PyRaise("ValueError", "shapes do not broadcast")
                raise ShapeError("broadcast of %s and %s" % (show(d), show(x)))
        res.append(d)
    return tuple(res)

def bidx(t, idx):
    s = t.shape
    k = len(idx) - len(s)
    return [ZERO if s[j] is ONE or (s[j] in ONES and ONES[s[j]].valid(eq(s[j], ONE))) else idx[k + j] for j in range(len(s))]

def need_same(m, a, b, what):
    if not same_dim(m, a, b):
        if m.valid(lnot(eq(a, b))): raise PyRaise("ValueError", what)
        raise ShapeError("%s: %s vs %s" % (what, show(a), show(b)))

def ew(m, f, vals, ty, lib=None):
    ts = [ten(m, v) for v in vals]
    sh = bshape(m, *[t.shape for t in ts])
    l = lib or jlib(*[t.lib for t in ts])
    return out(m, Ten(sh, lambda idx: f(*[t.f(bidx(t, idx)) for t in ts]), l, ty))

def ew1(m, f, v, ty=None):
    t = ten(m, v)
    return out(m, Ten(t.shape, lambda idx: f(t.f(idx)), t.lib, ty or ("int" if t.ty == "bool" else t.ty)))

# ------------------------------------------------------------------ operators
def pyfloor(m, a, b):
    if isnum(a) and isnum(b): return num(val(a) // val(b))
    if b.sort == "I" and a.sort == "I":
        return fn("floor", div(a, b))
    return fn("floor", div(a, b))

def binop(m, op, a, b):
    if op == "Add":
        if isinstance(a, str) and isinstance(b, str): return a + b
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            pa, pb = m.heap[a.lid], m.heap[b.lid]
            if isinstance(pa, tuple) and isinstance(pb, tuple): return ListRef(m.new(pa + pb))
            if isinstance(pa, I_PreList) and isinstance(pb, tuple): return ListRef(m.new(pa.plus(pb)))
            raise Unsupported("list concatenation")
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (tuple, ListRef)) and isinstance(y, Sc) and y.ty in ("int", "bool") and not isinstance(y, Arr):
                p = x if isinstance(x, tuple) else m.heap[x.lid]
                if isinstance(p, tuple) and isnum(y.t):
                    r = p * int(val(y.t))
                    return r if isinstance(x, tuple) else ListRef(m.new(r))
                if isinstance(p, tuple) and len(p) == 1 and y.ty == "int":
                    return ListRef(m.new(SymList(y.t, lambda i, e=p[0]: e)))
                raise Unsupported("list repetition")
    if op == "Mod" and isinstance(a, str): return Ignored("string")
    if isinstance(a, Ignored) or isinstance(b, Ignored): return Ignored("value")
    for x in (a, b):
        if x is None or isinstance(x, (str, DictRef, FnV, Inst, tuple, ListRef)):
            if isinstance(x, (tuple, ListRef)) and any(isinstance(y, (Arr,)) or isinstance(y, Sc) and y.lib == "np" for y in (a, b)): continue
            if isinstance(x, Inst): raise Unsupported("operator overloading")
            raise PyRaise("TypeError", "unsupported operand for " + op)
    if op == "MatMult": return matmul(m, a, b)
    ta, tb = ten(m, a), ten(m, b)
    ty = jty(ta.ty, tb.ty)
    isb = ta.ty == "bool" and tb.ty == "bool"
    lib = jlib(ta.lib, tb.lib)
    if op == "Add":
        if isb and lib != "py": return ew(m, lambda x, y: lor(as_bool(x), as_bool(y)), (a, b), "bool")
        return ew(m, lambda x, y: add(x, y), (a, b), "int" if isb else ty)
    if op == "Sub":
        if isb and lib != "py": raise PyRaise("TypeError", "boolean subtract")
        return ew(m, lambda x, y: sub(x, y), (a, b), "int" if isb else ty)
    if op == "Mult":
        if isb and lib != "py": return ew(m, lambda x, y: land(as_bool(x), as_bool(y)), (a, b), "bool")
        return ew(m, lambda x, y: mul(x, y), (a, b), "int" if isb else ty)
    if op == "Div":
        return ew(m, lambda x, y: div(x, y), (a, b), "float")
    if op == "Pow":
        return ew(m, lambda x, y: power(x, y), (a, b), "float" if ty == "float" or not (isnum(tb.f([])) if not tb.shape else False) else "int")
    if op == "FloorDiv":
        return ew(m, lambda x, y: pyfloor(m, x, y), (a, b), ty)
    if op == "Mod":
        return ew(m, lambda x, y: sub(x, mul(y, pyfloor(m, x, y))), (a, b), ty)
    if op == "BitAnd":
        if isb: return ew(m, lambda x, y: land(as_bool(x), as_bool(y)), (a, b), "bool")
    if op == "BitOr":
        if isb: return ew(m, lambda x, y: lor(as_bool(x), as_bool(y)), (a, b), "bool")
    if op == "BitXor":
        if isb: return ew(m, lambda x, y: lor(land(as_bool(x), lnot(as_bool(y))), land(lnot(as_bool(x)), as_bool(y))), (a, b), "bool")
    raise Unsupported("operator " + op)

def compare(m, o, a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)): raise Unsupported("array compared with " + type(b).__name__)
        if o in ("==", "!="):
            if isinstance(a, Ignored) or isinstance(b, Ignored): raise Unsupported("comparison of an ignored value")
            r = (a == b) if (isinstance(a, str) and isinstance(b, str)) else (a is None and b is None)
            return TRUEV if r == (o == "==") else FALSEV
        raise PyRaise("TypeError", "ordering")
    if isinstance(a, (tuple, ListRef)) and isinstance(b, (tuple, ListRef)):
        if o in ("==", "!="):
            x = a if isinstance(a, tuple) else m.heap[a.lid]
            y = b if isinstance(b, tuple) else m.heap[b.lid]
            if isinstance(a, tuple) != isinstance(b, tuple): return TRUEV if o == "!=" else FALSEV
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y): return TRUEV if o == "!=" else FALSEV
                c = land(*[m.truth_term(compare(m, "==", p, q)) for p, q in zip(x, y)])
                return Sc(c if o == "==" else lnot(c), "bool")
        raise Unsupported("sequence comparison")
    if isinstance(a, Lib) or isinstance(b, Lib):
        if o in ("==", "!="):
            if isinstance(a, Lib) and isinstance(b, Lib): return TRUEV if (a == b) == (o == "==") else FALSEV
        raise Unsupported("comparison of library objects")
    if isinstance(a, (Inst, FnV)) or isinstance(b, (Inst, FnV)):
        if o in ("==", "!="): return TRUEV if (a is b) == (o == "==") else FALSEV
    def f(x, y):
        if x.sort == "B" and y.sort == "B" and o in ("==", "!="):
            e = lor(land(x, y), land(lnot(x), lnot(y)))
            return e if o == "==" else lnot(e)
        return cmp(o, x, y)
    return ew(m, f, (a, b), "bool")

def logical(m, k, a, b):
    f = (lambda x, y: land(as_bool(x), as_bool(y))) if k == "and" else (lambda x, y: lor(as_bool(x), as_bool(y)))
    return ew(m, f, (a, b), "bool")

def matmul(m, a, b):
    A, B = ten(m, a), ten(m, b)
    lib = jlib(A.lib, B.lib)
    ty = jty(A.ty, B.ty)
    na, nb = len(A.shape), len(B.shape)
    if na == 0 or nb == 0: raise PyRaise("ValueError", "matmul of a scalar")
    if na == 1 and nb == 1:
        need_same(m, A.shape[0], B.shape[0], "matmul")
        return out(m, Ten((), lambda i: bigf("sum", A.shape[0], lambda q: mul(A.f([q]), B.f([q]))), lib, ty))
    if na == 2 and nb == 1:
        need_same(m, A.shape[1], B.shape[0], "matmul")
        return out(m, Ten((A.shape[0],), lambda i: bigf("sum", A.shape[1], lambda q: mul(A.f([i[0], q]), B.f([q]))), lib, ty))
    if na == 1 and nb == 2:
        need_same(m, A.shape[0], B.shape[0], "matmul")
        return out(m, Ten((B.shape[1],), lambda i: bigf("sum", A.shape[0], lambda q: mul(A.f([q]), B.f([q, i[0]]))), lib, ty))
    if na == 2 and nb == 2:
        need_same(m, A.shape[1], B.shape[0], "matmul")
        return out(m, Ten((A.shape[0], B.shape[1]), lambda i: bigf("sum", A.shape[1], lambda q: mul(A.f([i[0], q]), B.f([q, i[1]]))), lib, ty))
    ea, eb = (A.f, A.shape) if na > 1 else (lambda i: A.f([i[-1]]), (ONE,) + A.shape), None
    fA, sA = ea
    fB, sB = (B.f, B.shape) if nb > 1 else (lambda i: B.f([i[-2]]), B.shape + (ONE,))
    need_same(m, sA[-1], sB[-2], "matmul")
    pre = bshape(m, tuple(sA[:-2]), tuple(sB[:-2]))
    TA, TB = Ten(tuple(sA[:-2]), None, lib, ty), Ten(tuple(sB[:-2]), None, lib, ty)
    def f(idx):
        idx = list(idx); k = len(pre); p = idx[:k]; r = idx[k:]
        i = r.pop(0) if na > 1 else ZERO
        j = r.pop(0) if nb > 1 else ZERO
        return bigf("sum", sA[-1], lambda q: mul(fA(list(bidx(TA, p)) + [i, q]), fB(list(bidx(TB, p)) + [q, j])))
    return out(m, Ten(tuple(pre) + ((sA[-2],) if na > 1 else ()) + ((sB[-1],) if nb > 1 else ()), f, lib, ty))

# ------------------------------------------------------------------ indexing
def int_index(m, k, size, what="index"):
    i = k.t
    if k.ty == "float": raise PyRaise("IndexError", "float index")
    if isnum(i):
        if val(i) < 0: i = add(size, i)
    elif m.valid(le(ZERO, i)): pass
    elif m.valid(lt(i, ZERO)): i = add(size, i)
    else: i = ite(lt(i, ZERO), add(size, i), i)
    if m.valid(lor(lt(i, ZERO), le(size, i))): raise PyRaise("IndexError", "index out of bounds")
    m.need("index within bounds", land(le(ZERO, i), lt(i, size)))
    return i

def clampi(m, x, size, dflt):
    if x is None: return dflt
    if not isinstance(x, Sc) or x.ty == "float": raise PyRaise("TypeError", "slice index")
    t = x.t
    if isnum(t):
        if val(t) < 0:
            t = add(size, t)
            return t if m.valid(le(ZERO, t)) else fn("max", ZERO, t)
        return t if m.valid(le(t, size)) else fn("min", t, size)
    if m.valid(le(ZERO, t)):
        return t if m.valid(le(t, size)) else fn("min", t, size)
    if m.valid(lt(t, ZERO)):
        t = add(size, t)
        return t if m.valid(le(ZERO, t)) else fn("max", ZERO, t)
    raise Unsupported("slice bound of unknown sign")

def slice_of(m, s, size):
    st = 1
    if s.s is not None:
        if not isnum(s.s.t): raise Unsupported("slice step")
        st = int(val(s.s.t))
    if st == 1:
        a = clampi(m, s.a, size, ZERO); b = clampi(m, s.b, size, size)
        n = sub(b, a)
        if isnum(n): n = num(max(0, val(n)))
        elif n is not size and not m.valid(le(ZERO, n)): n = fn("max", ZERO, n)
        return a, 1, n
    if st == -1:
        a = sub(size, ONE)
        if s.a is not None: 
            a = clampi(m, s.a, size, None)
            if not m.valid(le(a, sub(size, ONE))): raise Unsupported("negative slice")
        e = MONE if s.b is None else clampi(m, s.b, size, None)
        n = sub(a, e)
        if not m.valid(le(ZERO, n)): n = fn("max", ZERO, n)
        return a, -1, n
    if st > 1:
        a = clampi(m, s.a, size, ZERO); b = clampi(m, s.b, size, size)
        n = fn("ceil", div(sub(b, a), num(st)))
        return a, st, n
    raise Unsupported("slice step")

def view(m, a, keys):
    """view of a selected by keys (basic indexing only)"""
    ks = list(keys)
    nreal = sum(1 for k in ks if k is not None and k is not ELLIPSIS)
    if sum(1 for k in ks if k is ELLIPSIS) > 1: raise PyRaise("IndexError", "two ellipses")
    if nreal > len(a.shape): raise PyRaise("IndexError", "too many indices")
    full = SliceV(None, None, None)
    if ELLIPSIS in [k if k is ELLIPSIS else 0 for k in ks]:
        p = [i for i, k in enumerate(ks) if k is ELLIPSIS][0]
        ks[p:p + 1] = [full] * (len(a.shape) - nreal)
    else: ks += [full] * (len(a.shape) - nreal)
    shape = []
    sel_ = {}     # old view axis -> ('i', term) or ('v', newaxis, start, step)
    ax = 0
    for k in ks:
        if k is None:
            shape.append(ONE); continue
        size = a.shape[ax]
        if isinstance(k, Sc):
            if k.ty == "bool": raise Unsupported("boolean index")
            sel_[ax] = ("i", int_index(m, k, size))
        elif isinstance(k, SliceV):
            s, st, n = slice_of(m, k, size)
            sel_[ax] = ("v", len(shape), s, st); shape.append(n)
        else: raise Unsupported("index of kind %s" % type(k).__name__)
        ax += 1
    vm = []
    for d in a.vm:
        if d[0] == "i": vm.append(d); continue
        _, x, start, step = d
        s = sel_[x]
        if s[0] == "i": vm.append(("i", add(start, mul(num(step), s[1]))))
        else: vm.append(("v", s[1], add(start, mul(num(step), s[2])), step * s[3]))
    return Arr(a.cid, vm, shape, a.lb)

def is_fancy(m, k): return isinstance(k, (Arr, ListRef))

def index(m, a, keys):
    if any(is_fancy(m, k) for k in keys):
        return fancy(m, a, keys)
    v = view(m, a, keys)
    if not v.shape:
        c = m.heap[a.cid]
        return Sc(read(m, v, []), c.ty, v.lb or c.lib)
    return v

def split_keys(m, a, keys):
    """(keys with the index arrays replaced by full slices, view axes of the index arrays, the index arrays)"""
    ks = list(keys); full = SliceV(None, None, None)
    nreal = sum(1 for k in ks if k is not None and k is not ELLIPSIS)
    el = [i for i, k in enumerate(ks) if k is ELLIPSIS]
    if len(el) > 1: raise PyRaise("IndexError", "two ellipses")
    if nreal > len(a.shape): raise PyRaise("IndexError", "too many indices")
    if el: ks[el[0]:el[0] + 1] = [full] * (len(a.shape) - nreal)
    pos = [i for i, k in enumerate(ks) if is_fancy(m, k) or isinstance(k, Sc)]
    I = []
    for i in pos:
        K = ten(m, ks[i])
        if K.ty == "bool": raise Unsupported("boolean mask")
        if K.ty != "int": raise PyRaise("IndexError", "float index array")
        I.append(K)
    if pos[-1] - pos[0] >= len(pos) and any(isinstance(ks[i], Sc) for i in pos) and lib_of_arr(m, a) == "torch": raise Unsupported("mixed indexing")
    return [full if i in pos else k for i, k in enumerate(ks)], pos, I

def bounded(m, K, size):
    """the entries of an index array are within bounds; negative ones count from the end"""
    q = [tm.fresh("q", "I", ZERO, s) for s in K.shape]
    m.need("index within bounds", land(le(neg(size), K.f(q)), lt(K.f(q), size)))
    def f(idx):
        i = K.f(idx)
        return i if m.valid(le(ZERO, i)) else ite(lt(i, ZERO), add(i, size), i)
    return f

def fancy(m, a, keys):
    ks, pos, I = split_keys(m, a, keys)
    v = view(m, a, ks)
    T = ten(m, v)
    bs = ()
    for K in I: bs = tuple(bshape(m, bs, K.shape))
    nb = len(bs)
    fs = [bounded(m, K, v.shape[p]) for K, p in zip(I, pos)]
    at = pos[0] if pos[-1] - pos[0] < len(pos) else 0
    rest = [k for k in range(len(v.shape)) if k not in pos]
    def f(idx):
        b = list(idx[at:at + nb]); r = dict(zip(rest, list(idx[:at]) + list(idx[at + nb:])))
        for p, K, g in zip(pos, I, fs): r[p] = g(bidx(K, b))
        return T.f([r[k] for k in range(len(v.shape))])
    before = [v.shape[k] for k in rest[:at]]; after = [v.shape[k] for k in rest[at:]]
    return out(m, Ten(tuple(before) + bs + tuple(after), f, T.lib, T.ty))

def masked(m, a, mask, new):
    """write new(old, idx) where the mask holds"""
    mk = ten(m, mask)
    if len(mk.shape) > len(a.shape): raise PyRaise("IndexError", "mask")
    for x, y in zip(mk.shape, a.shape): need_same(m, x, y, "mask")
    T = ten(m, a); k = len(mk.shape)
    r, ty = new(T)
    store_view(m, a, Ten(a.shape, lambda idx: ite(as_bool(mk.f(idx[:k])), r(idx), T.f(idx)), T.lib, jty(T.ty, ty)))

def is_mask(m, keys): return len(keys) == 1 and isinstance(keys[0], Arr) and m.heap[keys[0].cid].ty == "bool"

def store(m, a, keys, v):
    if is_mask(m, keys):
        V = ten(m, v)
        if any(x is not ONE for x in V.shape): raise Unsupported("masked store")
        return masked(m, a, keys[0], lambda T: (lambda idx: V.f([ZERO] * len(V.shape)), V.ty))
    if any(is_fancy(m, k) for k in keys): return store_fancy(m, a, keys, ten(m, v))
    store_view(m, view(m, a, keys), ten(m, v))

def store_fancy(m, a, keys, V):
    """store through index arrays that run through consecutive entries"""
    ks, pos, I = split_keys(m, a, keys)
    w = view(m, a, ks); T = ten(m, w)
    if any(len(K.shape) > 1 for K in I): raise Unsupported("store through an index array")
    ax = [K for K in I if K.shape and K.shape[0] is not ONE]
    if not ax: raise Unsupported("store through an index array")
    n = ax[0].shape[0]; q = tm.fresh("q", "I", ZERO, n); base = None; cs = []
    for K, p in zip(I, pos):
        if K in ax: need_same(m, K.shape[0], n, "index arrays")
        t = bounded(m, K, w.shape[p])(bidx(K, [q])); c = sub(t, q)
        if K not in ax: cs.append((None, t))
        elif q.args[0] in c.fv: raise Unsupported("store through an index array")
        else:
            cs.append((c, None)); base = (p, c) if base is None else base
    at = pos[0] if pos[-1] - pos[0] < len(pos) else 0
    rest = [k for k in range(len(w.shape)) if k not in pos]
    sh = [w.shape[k] for k in rest[:at]] + [n] + [w.shape[k] for k in rest[at:]]
    r = bshape(m, sh, V.shape)
    if len(r) != len(sh) or not all(same_dim(m, x, y) for x, y in zip(r, sh)): raise PyRaise("ValueError", "could not broadcast into the target")
    def f(idx):
        j = sub(idx[base[0]], base[1]); conds = []
        if not same_dim(m, n, w.shape[base[0]]) or base[1] is not ZERO: conds = [le(ZERO, j), lt(j, n)]
        conds += [eq(idx[p], add(j, c)) if t is None else eq(idx[p], t) for p, (c, t) in zip(pos, cs) if (p, c) != base]
        vi = [idx[k] for k in rest[:at]] + [j] + [idx[k] for k in rest[at:]]
        return ite(land(*conds), V.f(bidx(V, vi)), T.f(idx))
    store_view(m, w, Ten(w.shape, f, T.lib, jty(T.ty, V.ty)))

def store_view(m, w, V):
    c = m.heap[w.cid]
    if c.ro == "user": m.need("an array handed out by a user function is not written", FALSE)
    elif c.ro: raise Unsupported("write to an item of a list of symbolic length")
    if c.ty == "int" and V.ty == "float": raise Unsupported("float stored in an integer array")
    if c.ty == "bool" and V.ty != "bool":
        f0 = V.f
        V = Ten(V.shape, lambda idx: as_bool(f0(idx)), V.lib, "bool")
    # numpy drops leading unit axes of the value
    sh = list(V.shape); extra = 0
    while len(sh) > len(w.shape) and sh[0] is ONE: sh = sh[1:]; extra += 1
    if extra:
        f1 = V.f
        V = Ten(sh, lambda idx: f1([ZERO] * extra + list(idx)), V.lib, V.ty)
    r = bshape(m, w.shape, V.shape)
    if len(r) != len(w.shape) or not all(same_dim(m, x, y) for x, y in zip(r, w.shape)): raise PyRaise("ValueError", "could not broadcast into the target")
    conds = []; vidx = [ZERO] * len(w.shape); taken = set()
    if any(x is not ONE and not any(d[0] == "v" and d[1] == k for d in w.vm) for k, x in enumerate(w.shape)): raise PyRaise("ValueError", "write to a broadcast array")
    for k, d in enumerate(w.vm):
        b = c.vs[k]
        if d[0] == "v" and d[1] in taken:              # a diagonal
            if d[3] not in (1, -1): raise Unsupported("strided store")
            conds.append(eq(vidx[d[1]], sub(b, d[2]) if d[3] == 1 else sub(d[2], b))); continue
        if d[0] == "v": taken.add(d[1])
        if d[0] == "i":
            if c.shape[k] is not ONE: conds.append(eq(b, d[1]))
        else:
            _, x, start, step = d
            if step == 1:
                vidx[x] = sub(b, start)
                if not (start is ZERO and same_dim(m, w.shape[x], c.shape[k])):
                    conds += [le(start, b), lt(b, add(start, w.shape[x]))]
            elif step == -1:
                vidx[x] = sub(start, b)
                if not (same_dim(m, w.shape[x], c.shape[k])):
                    conds += [le(b, start), lt(sub(start, w.shape[x]), b)]
            else: raise Unsupported("strided store")
    cond = simp(m, land(*conds))
    body = ite(cond, V.f(bidx(V, vidx)), c.body)
    m.heap[w.cid] = ACell(c.shape, c.vs, body, c.lib, c.ty)

def simp(m, c):
    if c.op == "and":
        return land(*[x for x in c.args if not m.valid(x)])
    return c

def inplace(m, old, new):
    t = ten(m, new)
    store_view(m, old, t)

def list_extend(m, l, r):
    p = m.heap[l.lid]
    it = m.iterate(r)
    if not isinstance(it, list): raise Unsupported("extend")
    if isinstance(p, tuple): m.heap[l.lid] = p + tuple(it)
    elif isinstance(p, PreList): list_put(m, l, p, tuple(it))
    else: raise Unsupported("extend")

def list_append(m, l, x):
    p = m.heap[l.lid]
    if isinstance(p, tuple): m.heap[l.lid] = p + (x,)
    elif isinstance(p, PreList): list_put(m, l, p, (x,))
    elif isinstance(p, SymList): m.heap[l.lid] = SymList(add(p.n, ONE), listed(m, p, x))
    else: raise Unsupported("append")

def list_put(m, l, p, items):
    m.heap[l.lid] = p.plus(items)
    if p.last is not None and items: m.setvar(p.last[1], items[-1], p.last[0])

def listed(m, p, x):
    """items of a list of symbolic length with x put at its end"""
    n, elem = p.n, p.elem
    if not isinstance(x, (Sc, Arr)): raise Unsupported("append")
    g = frozen_item(m, x)
    def f(j):
        if j is n or same_dim(m, j, n): return g(None)
        if m.valid(lt(j, n)): return elem(j)
        return pick(m, lt(j, n), elem(j), g(None))
    return f

def frozen_item(m, x):
    """the present value of x, as a function of nothing"""
    if isinstance(x, Sc): return lambda j: x
    sh, vs, body, lib, ty = content(m, x)
    return lambda j: make_ro(m, sh, vs, body, lib, ty)

def make_ro(m, sh, vs, body, lib, ty):
    if not sh: return Sc(body, ty, lib)
    return Arr(m.new(ACell(sh, vs, body, lib, ty, True)), [("v", k, ZERO, 1) for k in range(len(sh))], sh)

def pick(m, cond, x, y):
    """x where cond holds, else y (a value that may only be read)"""
    if isinstance(x, Sc) and isinstance(y, Sc):
        ty = jty(x.ty, y.ty)
        c = (lambda t, k: b2n(t) if k == "bool" and ty != "bool" else t)
        return Sc(ite(cond, c(x.t, x.ty), c(y.t, y.ty)), ty, jlib(x.lib, y.lib))
    if isinstance(x, Arr) and isinstance(y, Arr):
        a, b = ten(m, x), ten(m, y)
        if len(a.shape) != len(b.shape): raise Unsupported("ragged list")
        for p, q in zip(a.shape, b.shape): need_same(m, p, q, "list items")
        vs = [tm.fresh("v", "I", ZERO, s) for s in a.shape]
        return make_ro(m, a.shape, vs, ite(cond, a.f(vs), b.f(vs)), a.lib, jty(a.ty, b.ty))
    raise Unsupported("list items of different kinds")

I_PreList = PreList

# ------------------------------------------------------------------ reshaping as views
def axes_view(m, v, axes):
    """axes: list of source axis numbers or None (new unit axis); dropped source axes have size one"""
    a = to_arr(m, v)
    kept = {x: i for i, x in enumerate(axes) if x is not None}
    vm = []
    for d in a.vm:
        if d[0] == "i": vm.append(d)
        elif d[1] in kept: vm.append(("v", kept[d[1]], d[2], d[3]))
        else: vm.append(("i", d[2]))
    shape = [ONE if x is None else a.shape[x] for x in axes]
    r = Arr(a.cid, vm, shape, a.lb)
    if not shape: return Sc(read(m, r, []), m.heap[a.cid].ty, a.lb or m.heap[a.cid].lib)
    return r

def expand(m, v, sh):
    """view of v broadcast to the shape sh"""
    if not isinstance(v, Arr):
        t = ten(m, v); bshape(m, t.shape, sh)
        return out(m, Ten(sh, lambda i: t.f(bidx(t, i)), t.lib, t.ty))
    r = bshape(m, v.shape, sh)
    if len(r) != len(sh) or not all(same_dim(m, x, y) for x, y in zip(r, sh)): raise PyRaise("ValueError", "broadcast")
    k = len(sh) - len(v.shape); vm = []
    for d in v.vm:
        if d[0] == "v" and v.shape[d[1]] is ONE and sh[d[1] + k] is not ONE: vm.append(("i", d[2]))
        elif d[0] == "v": vm.append(("v", d[1] + k, d[2], d[3]))
        else: vm.append(d)
    return Arr(v.cid, vm, sh, v.lb)

def dims_arg(m, args):
    """sizes from f(n, m) or f((n, m)) or f([n, m])"""
    if len(args) == 1 and isinstance(args[0], (tuple, ListRef)):
        it = m.iterate(args[0])
        if not isinstance(it, list): raise Unsupported("shape")
        args = it
    res = []
    for x in args:
        if isinstance(x, Arr) and all(s is ONE for s in x.shape): x = Sc(read(m, x, [ZERO] * len(x.shape)), m.heap[x.cid].ty, "np")
        if not isinstance(x, Sc): raise PyRaise("TypeError", "shape")
        if x.ty == "float": raise PyRaise("TypeError", "float as a size")
        res.append(b2n(x.t))
    return res

def reshape(m, v, dims):
    t = ten(m, v)
    src = [(i, s) for i, s in enumerate(t.shape) if s is not ONE]
    neg = [i for i, d in enumerate(dims) if isnum(d) and val(d) == -1]
    if len(neg) > 1: raise PyRaise("ValueError", "two unknown dimensions")
    known = [(i, d) for i, d in enumerate(dims) if d is not ONE and i not in neg]
    # match nonunit dimensions in order
    axes = [None] * len(dims)
    if not neg:
        if len(known) != len(src):
            # symbolic sizes that equal one
            raise Unsupported("reshape merging axes")
        for (i, d), (j, s) in zip(known, src):
            need_same(m, d, s, "reshape"); axes[i] = j
        return axes_view(m, v, axes)
    # one unknown: source must have len(known) or len(known)+1 nonunit axes
    p = neg[0]
    before = [k for k in known if k[0] < p]; after = [k for k in known if k[0] > p]
    if len(src) not in (len(known), len(known) + 1): raise Unsupported("reshape merging axes")
    sb = src[:len(before)]; sa = src[len(src) - len(after):] if after else []
    for (i, d), (j, s) in list(zip(before, sb)) + list(zip(after, sa)):
        need_same(m, d, s, "reshape"); axes[i] = j
    mid = src[len(before):len(src) - len(after)]
    if len(mid) > 1: raise Unsupported("reshape merging axes")
    if mid: axes[p] = mid[0][0]
    return axes_view(m, v, axes)

def transpose(m, v, perm=None):
    t = ten(m, v)
    n = len(t.shape)
    if n == 0: return v
    if perm is None: perm = list(range(n))[::-1]
    perm = [p % n for p in perm]
    if sorted(perm) != list(range(n)): raise PyRaise("ValueError", "axes")
    return axes_view(m, v, perm)

# ------------------------------------------------------------------ reductions
def axes_of(m, ax, n):
    if ax is None: return list(range(n))
    if isinstance(ax, (tuple, ListRef)): xs = [m.conc_int(x) for x in m.iterate(ax)]
    else: xs = [m.conc_int(ax)]
    for x in xs:
        if not -n <= x < n: raise PyRaise("IndexError", "axis")
    return sorted(x % n for x in xs)

def reduce_(m, v, kind, ax=None, keep=False, ty=None, pre=None, lib=None):
    t = ten(m, v)
    xs = axes_of(m, ax, len(t.shape))
    if kind in ("min", "max"):
        for x in xs: m.need("reduction of a nonempty axis", lt(ZERO, t.shape[x]))
    def f(idx):
        idx = list(idx)
        if keep: idx = [idx[k] for k in range(len(t.shape)) if k not in xs]
        vs = {}
        full = []
        it = iter(idx)
        for k in range(len(t.shape)):
            if k in xs:
                q = tm.fresh("q", "I", ZERO, t.shape[k]); vs[k] = q; full.append(q)
            else: full.append(next(it))
        b = t.f(full)
        if pre: b = pre(b)
        for k in reversed(xs): b = big(kind, vs[k], ZERO, t.shape[k], b)
        return b
    sh = tuple((ONE if keep else None) if k in xs else s for k, s in enumerate(t.shape))
    sh = tuple(s for s in sh if s is not None)
    return Ten(sh, f, lib or (t.lib if t.lib != "py" else "np"), ty or ("int" if t.ty == "bool" else t.ty))

def count(m, v, ax):
    t = ten(m, v)
    return mul(*[t.shape[x] for x in axes_of(m, ax, len(t.shape))]) if t.shape else ONE

def mean_(m, v, ax=None, keep=False):
    s = reduce_(m, v, "sum", ax, keep, "float")
    n = count(m, v, ax)
    return Ten(s.shape, lambda idx: div(s.f(idx), n), s.lib, "float")

def var_(m, v, ax=None, keep=False, ddof=0):
    t = ten(m, v)
    xs = axes_of(m, ax, len(t.shape))
    mu = mean_(m, v, ax, True)
    d = Ten(t.shape, lambda idx: power(sub(t.f(idx), mu.f([ZERO if k in xs else i for k, i in enumerate(idx)])), TWO), t.lib, "float")
    s = reduce_(m, d, "sum", ax, keep, "float")
    n = sub(count(m, v, ax), num(ddof))
    return Ten(s.shape, lambda idx: div(s.f(idx), n), s.lib, "float")

def anyall(m, v, kind, ax=None, keep=False):
    """all as product of brackets, any as not all not"""
    if kind == "all":
        s = reduce_(m, v, "prod", ax, keep, "bool", pre=lambda b: ite(as_bool(b), ONE, ZERO))
        return Ten(s.shape, lambda idx: cmp("!=", s.f(idx), ZERO), s.lib, "bool")
    s = reduce_(m, v, "prod", ax, keep, "bool", pre=lambda b: ite(as_bool(b), ZERO, ONE))
    return Ten(s.shape, lambda idx: cmp("==", s.f(idx), ZERO), s.lib, "bool")

# ------------------------------------------------------------------ random draws
def draw(m, kind, shape, lib):
    s = tm.fresh("xi_" + kind, "R")
    name = s.args[0].replace("$", "#")
    lp = list(m.loopidx)
    I_.DRAWS[name] = dict(kind=kind, lib=lib, nloop=len(lp), nidx=len(shape))
    return Ten(tuple(shape), lambda idx: sel(name, *(lp + list(idx))), lib, "float")

def size_arg(m, size):
    if size is None: return None
    if isinstance(size, (tuple, ListRef)): return dims_arg(m, [size])
    return dims_arg(m, [size])

def d_normal(m, loc, scale, size, lib):
    L, S = ten(m, loc), ten(m, scale)
    sh = size_arg(m, size)
    if sh is None: sh = bshape(m, L.shape, S.shape)
    else:
        r = bshape(m, tuple(sh), L.shape, S.shape)
        if len(r) != len(sh): raise PyRaise("ValueError", "size")
    x = draw(m, "normal", sh, lib)
    return out(m, Ten(sh, lambda idx: add(L.f(bidx(L, idx)), mul(S.f(bidx(S, idx)), x.f(idx))), lib, "float"))

def d_uniform(m, low, high, size, lib):
    L, H = ten(m, low), ten(m, high)
    sh = size_arg(m, size)
    if sh is None: sh = bshape(m, L.shape, H.shape)
    else:
        r = bshape(m, tuple(sh), L.shape, H.shape)
        if len(r) != len(sh): raise PyRaise("ValueError", "size")
    x = draw(m, "uniform", sh, lib)
    def f(idx):
        lo, hi = L.f(bidx(L, idx)), H.f(bidx(H, idx))
        return add(lo, mul(sub(hi, lo), x.f(idx)))
    return out(m, Ten(sh, f, lib, "float"))

# ------------------------------------------------------------------ function table
FN = {}
def F(*names):
    def d(f):
        for n in names: FN[n] = f
        return f
    return d

class A:
    """argument access by position or keyword"""
    def __init__(self, args, kw, *names):
        self.v = dict(zip(names, args)); self.extra = list(args[len(names):])
        for k, x in kw.items():
            if k in names and k in self.v: raise PyRaise("TypeError", "multiple values for " + k)
            self.v[k] = x
    def __getattr__(self, k): return self.v.get(k)
    def get(self, k, d=None):
        return self.v[k] if k in self.v else d
    def has(self, k): return k in self.v

def deny(kw, *ok):
    for k in kw:
        if k not in ok: raise Unsupported("keyword argument " + k)

DT = ("dtype", "device", "requires_grad", "order", "layout", "memory_format", "generator_none")

def dtype_ty(m, d, dflt):
    if d is None: return dflt
    if isinstance(d, Lib):
        n = d.name.split(".")[-1]
        if n in ("float64", "float32", "float", "double", "float_"): return "float"
        if n in ("int", "int64", "int32", "long", "intp", "int_"): return "int"
        if n in ("bool", "bool_"): return "bool"
    if isinstance(d, str):
        if d in ("float", "float32", "float64"): return "float"
        if d in ("int", "int32", "int64"): return "int"
        if d == "bool": return "bool"
    if isinstance(d, DTypeOf): return d.ty
    raise Unsupported("dtype")

class DTypeOf:
    def __init__(self, ty): self.ty = ty

def const_arr(m, sh, t, lib, ty):
    return out(m, Ten(tuple(sh), lambda idx: t, lib, ty))

def lib_of(name): return "torch" if name.startswith("torch") else "np"

def mk_const(value, dty="float"):
    def f(m, name, args, kw):
        deny(kw, "dtype", "device", "requires_grad", "order", "shape", "size")
        lib = lib_of(name)
        if lib == "np":
            a = A(args, kw, "shape", "dtype")
            sh = dims_arg(m, [a.shape]); dt = a.dtype
        else:
            sh = dims_arg(m, list(args) if args else [kw.get("size")]); dt = kw.get("dtype")
        ty = dtype_ty(m, dt, dty)
        v = value if ty != "bool" else (TRUE if value is ONE else FALSE)
        return const_arr(m, sh, v, lib, ty)
    return f
FN["numpy.zeros"] = FN["torch.zeros"] = mk_const(ZERO)
FN["numpy.ones"] = FN["torch.ones"] = mk_const(ONE)

@F("numpy.empty", "torch.empty")
def _empty(m, name, args, kw):
    deny(kw, "dtype", "device", "requires_grad", "order", "shape", "size")
    lib = lib_of(name)
    a = A(args, kw, "shape", "dtype") if lib == "np" else None
    sh = dims_arg(m, [a.shape]) if lib == "np" else dims_arg(m, list(args) if args else [kw.get("size")])
    ty = dtype_ty(m, a.dtype if lib == "np" else kw.get("dtype"), "float")
    u = tm.fresh("junk", "R").args[0].replace("$", "#")
    tm.ARRSORT[u] = sort_of(ty)
    I_.UNK.add(u)
    lp = list(m.loopidx)
    return out(m, Ten(tuple(sh), lambda idx: sel(u, *(lp + list(idx))), lib, ty))

@F("numpy.full", "torch.full")
def _full(m, name, args, kw):
    deny(kw, "dtype", "device", "shape", "size", "fill_value")
    a = A(args, kw, "shape", "fill_value", "dtype")
    sh = dims_arg(m, [a.shape if a.has("shape") else a.size])
    v = ten(m, a.fill_value)
    ty = dtype_ty(m, a.dtype, v.ty)
    r = bshape(m, tuple(sh), v.shape)
    return cast(m, Ten(tuple(sh), lambda idx: v.f(bidx(v, idx)), lib_of(name), v.ty), ty)

def _like(value):
    def f(m, name, args, kw):
        deny(kw, "dtype", "device", "requires_grad")
        t = ten(m, args[0])
        ty = dtype_ty(m, kw.get("dtype"), t.ty)
        lib = lib_of(name)
        v = value if ty != "bool" else (TRUE if value is ONE else FALSE)
        return out(m, Ten(t.shape, lambda idx: v, lib, ty))
    return f
FN["numpy.zeros_like"] = FN["torch.zeros_like"] = _like(ZERO)
FN["numpy.ones_like"] = FN["torch.ones_like"] = _like(ONE)
@F("numpy.empty_like", "torch.empty_like")
def _empty_like(m, name, args, kw):
    deny(kw, "dtype", "device")
    t = ten(m, args[0])
    return _empty(m, name.replace("_like", ""), [tuple(Sc(s, "int") for s in t.shape)], {})
@F("numpy.full_like", "torch.full_like")
def _full_like(m, name, args, kw):
    deny(kw, "fill_value", "device", "dtype")
    t = ten(m, args[0]); v = ten(m, args[1] if len(args) > 1 else kw["fill_value"])
    return cast(m, Ten(t.shape, lambda idx: v.f(bidx(v, idx)), lib_of(name), v.ty), dtype_ty(m, kw.get("dtype"), t.ty))

@F("numpy.eye", "torch.eye", "numpy.identity")
def _eye(m, name, args, kw):
    deny(kw, "dtype", "device", "M", "N", "m", "n")
    sizes = [a for a in list(args) + [kw[k] for k in ("N", "n", "M", "m") if k in kw] if isinstance(a, (Sc, Arr))]
    d = dims_arg(m, sizes[:2])
    if len(d) == 1: d = [d[0], d[0]]
    return out(m, Ten(tuple(d), lambda i: ite(eq(i[0], i[1]), ONE, ZERO), lib_of(name), "float"))

@F("numpy.diag", "torch.diag", "numpy.diagonal", "torch.diagonal")
def _diag(m, name, args, kw):
    if len(args) != 1 or kw: raise Unsupported("diag")
    t = ten(m, args[0])
    if len(t.shape) == 1 and name.endswith("diag"):
        return out(m, Ten((t.shape[0], t.shape[0]), lambda i: ite(eq(i[0], i[1]), t.f([i[0]]), ZERO), t.lib, t.ty))
    if len(t.shape) == 2:
        need_same(m, t.shape[0], t.shape[1], "diag")
        if isinstance(args[0], Arr) and name != "torch.diag":
            a = args[0]
            return Arr(a.cid, [d if d[0] == "i" else ("v", 0, d[2], d[3]) for d in a.vm], (a.shape[0],), a.lb)
        return out(m, Ten((t.shape[0],), lambda i: t.f([i[0], i[0]]), t.lib, t.ty))
    raise Unsupported("diag")

@F("numpy.array", "torch.tensor", "numpy.copy", "torch.clone")
def _array(m, name, args, kw):
    deny(kw, "dtype", "device", "requires_grad", "copy", "order", "ndmin", "data", "object")
    x = args[0] if args else kw.get("data", kw.get("object"))
    if "copy" in kw and not (isinstance(kw["copy"], Sc) and kw["copy"].t is TRUE): raise Unsupported("copy=False")
    if "ndmin" in kw: raise Unsupported("ndmin")
    t = ten(m, x)
    lib = lib_of(name)
    if isinstance(x, (Ignored, str)): raise Unsupported("array of ignored value")
    dt = kw.get("dtype") or (args[1] if len(args) > 1 else None)
    ty = dtype_ty(m, dt, t.ty)
    return cast(m, Ten(t.shape, t.f, lib, t.ty), ty)

def cast(m, t, ty):
    if ty == t.ty: return out(m, t)
    if ty == "float": return out(m, Ten(t.shape, lambda idx: b2n(t.f(idx)), t.lib, ty))
    if ty == "int" and t.ty == "bool": return out(m, Ten(t.shape, lambda idx: b2n(t.f(idx)), t.lib, ty))
    if ty == "bool": return out(m, Ten(t.shape, lambda idx: as_bool(t.f(idx)), t.lib, ty))
    if ty == "int":
        def f(idx):
            x = t.f(idx)
            if x.sort == "I": return x
            if m.valid(le(ZERO, x)): return fn("floor", x)
            return ite(le(ZERO, x), fn("floor", x), fn("ceil", x))
        return out(m, Ten(t.shape, f, t.lib, ty))
    raise Unsupported("cast")

@F("numpy.asarray", "numpy.ascontiguousarray", "numpy.atleast_1d_", "torch.as_tensor", "torch.from_numpy", "numpy.asanyarray", "torch.asarray")
def _asarray(m, name, args, kw):
    deny(kw, "dtype", "device", "order")
    x = args[0]
    lib = lib_of(name)
    dt = kw.get("dtype") or (args[1] if len(args) > 1 else None)
    if isinstance(x, Arr):
        c = m.heap[x.cid]
        ty = dtype_ty(m, dt, c.ty)
        if ty == c.ty:
            return as_lib(m, x, lib)                       # shares memory with the argument
    t = ten(m, x)
    return cast(m, Ten(t.shape, t.f, lib, t.ty), dtype_ty(m, dt, t.ty))

@F("numpy.atleast_2d")
def _at2(m, name, args, kw):
    t = ten(m, args[0])
    if len(t.shape) >= 2: return args[0]
    return axes_view(m, args[0], [None] * (2 - len(t.shape)) + list(range(len(t.shape))))
@F("numpy.atleast_1d")
def _at1(m, name, args, kw):
    t = ten(m, args[0])
    if len(t.shape) >= 1: return args[0] if isinstance(args[0], Arr) else out(m, t)
    return axes_view(m, args[0], [None])

@F("numpy.arange", "torch.arange")
def _arange(m, name, args, kw):
    deny(kw, "dtype", "device", "start", "stop", "end", "step", "requires_grad")
    xs = list(args)
    a = kw.get("start"); b = kw.get("stop", kw.get("end")); s = kw.get("step")
    if len(xs) == 1 and b is None: b = xs[0]
    elif len(xs) == 1: a = xs[0]
    elif len(xs) >= 2:
        a, b = xs[0], xs[1]
        if len(xs) >= 3 and not isinstance(xs[2], Lib): s = xs[2]
    A_ = ten(m, a).f([]) if a is not None else ZERO
    B_ = ten(m, b).f([]); S_ = ten(m, s).f([]) if s is not None else ONE
    ty = jty(*[ten(m, x).ty for x in (a, b, s) if x is not None])
    ty = dtype_ty(m, kw.get("dtype"), ty)
    n = fn("ceil", div(sub(B_, A_), S_))
    if isnum(n): n = num(max(0, val(n)))
    elif not m.valid(le(ZERO, n)): n = fn("max", ZERO, n)
    if ty == "int" and n.sort != "I": raise Unsupported("arange")
    return out(m, Ten((n,), lambda i: add(A_, mul(i[0], S_)), lib_of(name), ty))

@F("numpy.linspace", "torch.linspace")
def _linspace(m, name, args, kw):
    a = A(args, kw, "start", "stop", "num")
    if name.startswith("torch"): a = A(args, kw, "start", "end", "steps")
    deny(kw, "start", "stop", "end", "num", "steps", "endpoint", "dtype", "device")
    st = a.start; en = a.get("stop", a.get("end")); n_ = a.get("num", a.get("steps", Sc(num(50), "int")))
    S_, E_, N_ = ten(m, st).f([]), ten(m, en).f([]), n_.t
    if n_.ty != "int": raise PyRaise("TypeError", "num")
    ep = a.endpoint
    D = N_ if (isinstance(ep, Sc) and ep.t is FALSE) else sub(N_, ONE)
    return out(m, Ten((N_,), lambda i: add(S_, div(mul(i[0], sub(E_, S_)), D)), lib_of(name), "float"))

# elementwise unary
def un(names, f, ty=None):
    def g(m, name, args, kw):
        deny(kw, "dtype")
        if len(args) != 1: raise Unsupported(name + " with out argument")
        t = ten(m, args[0])
        r = out(m, Ten(t.shape, lambda idx: f(b2n(t.f(idx)) if ty != "boolin" else t.f(idx)), lib_of(name) if not name.startswith("math") else "py", (ty or "float") if ty != "same" else ("int" if t.ty == "bool" else t.ty)))
        return r
    for n in names: FN[n] = g
def ul(n): return ["numpy." + n, "torch." + n, "math." + n]
un(ul("exp"), lambda x: fn("exp", x))
un(ul("sqrt"), lambda x: sqrt(x))
un(["torch.rsqrt"], lambda x: power(sqrt(x), MONE))
un(ul("log"), lambda x: fn("log", x))
un(ul("sin"), lambda x: fn("sin", x))
un(ul("cos"), lambda x: fn("cos", x))
un(ul("tanh"), lambda x: fn("tanh", x))
un(["numpy.square", "torch.square"], lambda x: power(x, TWO), "same")
un(["numpy.abs", "numpy.absolute", "numpy.fabs", "torch.abs", "math.fabs"], lambda x: fn("abs", x), "same")
un(["numpy.log1p", "torch.log1p", "math.log1p"], lambda x: fn("log", add(ONE, x)))
un(["numpy.expm1", "torch.expm1", "math.expm1"], lambda x: sub(fn("exp", x), ONE))
un(["numpy.negative", "torch.neg", "torch.negative"], lambda x: neg(x), "same")
un(["numpy.reciprocal", "torch.reciprocal"], lambda x: power(x, MONE))
un(["numpy.sign", "torch.sign"], lambda x: ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), MONE, ZERO)), "same")
un(["numpy.floor", "torch.floor"], lambda x: fn("floor", x))
un(["numpy.ceil", "torch.ceil"], lambda x: fn("ceil", x))
un(["numpy.isnan", "torch.isnan", "math.isnan", "numpy.isinf", "torch.isinf", "math.isinf"], lambda x: FALSE, "bool")
un(["numpy.isfinite", "torch.isfinite", "math.isfinite"], lambda x: TRUE, "bool")
def _lnot(m, name, args, kw):
    t = ten(m, args[0]); return out(m, Ten(t.shape, lambda idx: lnot(as_bool(t.f(idx))), lib_of(name), "bool"))
FN["numpy.logical_not"] = FN["torch.logical_not"] = _lnot
@F("numpy.round", "numpy.around", "numpy.rint", "torch.round", "numpy.fix", "torch.trunc", "numpy.trunc")
def _npround(m, name, args, kw):
    d = kw.get("decimals", args[1] if len(args) > 1 else None)
    nm = name.split(".")[1]
    if nm in ("fix", "trunc"): g = lambda x: ite(le(ZERO, x), fn("floor", x), fn("ceil", x)); p = ONE
    else: g = lambda x: fn("round", x); p = num(10 ** m.conc_int(d)) if d is not None else ONE
    t = ten(m, args[0])
    if t.ty == "bool": raise Unsupported(name)
    return out(m, Ten(t.shape, lambda i: div(b2n(g(mul(t.f(i), p))), p) if t.ty == "float" else t.f(i), t.lib, t.ty))

@F("math.floor", "math.ceil")
def _mfloor(m, name, args, kw): return Sc(fn(name[5:], ten(m, args[0]).f([])), "int")
@F("math.pow")
def _mpow(m, name, args, kw): return Sc(power(args[0].t, args[1].t), "float")
@F("numpy.nan_to_num", "torch.nan_to_num")
def _n2n(m, name, args, kw): return copy_of(m, args[0])

def bi(names, op):
    def g(m, name, args, kw):
        if "alpha" in kw and name in ("torch.add", "torch.sub", "torch.subtract") and len(args) == 2:
            kw = dict(kw); args = [args[0], binop(m, "Mult", kw.pop("alpha"), args[1])]
        deny(kw)
        if len(args) != 2: raise Unsupported(name + " with out argument")
        if name.startswith("torch") and not any(ten(m, a).lib == "torch" for a in args): raise PyRaise("TypeError", name)
        r = binop(m, op, args[0], args[1]) if not callable(op) else op(m, args[0], args[1])
        if isinstance(r, Sc) and r.lib == "py": r = Sc(r.t, r.ty, lib_of(name))
        return r
    for n in names: FN[n] = g
bi(["numpy.add", "torch.add", "operator.add"], "Add")
bi(["numpy.subtract", "torch.sub", "torch.subtract", "operator.sub"], "Sub")
bi(["numpy.multiply", "torch.mul", "torch.multiply", "operator.mul"], "Mult")
bi(["numpy.divide", "numpy.true_divide", "torch.div", "torch.divide", "torch.true_divide", "operator.truediv"], "Div")
bi(["numpy.power", "torch.pow", "numpy.float_power"], "Pow")
bi(["numpy.logical_and", "torch.logical_and"], lambda m, a, b: logical(m, "and", a, b))
bi(["numpy.logical_or", "torch.logical_or"], lambda m, a, b: logical(m, "or", a, b))
for nm, o in (("greater", ">"), ("greater_equal", ">="), ("less", "<"), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!="), ("gt", ">"), ("ge", ">="), ("lt", "<"), ("le", "<="), ("eq", "=="), ("ne", "!=")):
    bi(["numpy." + nm, "torch." + nm], lambda m, a, b, o=o: compare(m, o, a, b))
def _minmax2(k):
    return lambda m, a, b: ew(m, lambda x, y: fn(k, x, y), (a, b), jty(ten(m, a).ty, ten(m, b).ty))
bi(["numpy.maximum", "torch.maximum", "numpy.fmax", "torch.fmax"], _minmax2("max"))
bi(["numpy.minimum", "torch.minimum", "numpy.fmin", "torch.fmin"], _minmax2("min"))

@F("numpy.clip", "torch.clip", "torch.clamp")
def _clip(m, name, args, kw):
    a = A(args, kw, "x", "lo", "hi")
    lo = a.get("lo", a.get("a_min", a.get("min"))); hi = a.get("hi", a.get("a_max", a.get("max")))
    r = args[0] if args else kw.get("a", kw.get("input"))
    if lo is not None: r = ew(m, lambda x, y: fn("max", x, y), (r, lo), jty(ten(m, r).ty, ten(m, lo).ty))
    if hi is not None: r = ew(m, lambda x, y: fn("min", x, y), (r, hi), jty(ten(m, r).ty, ten(m, hi).ty))
    return r

@F("numpy.where", "torch.where")
def _where(m, name, args, kw):
    if len(args) != 3: raise Unsupported("where with one argument")
    return ew(m, lambda c, x, y: ite(as_bool(c), x, y), args, jty(ten(m, args[1]).ty, ten(m, args[2]).ty), lib_of(name))

# reductions
def axis_of(a): return a.get("axis", a.get("dim"))
def keep_of(a):
    k = a.get("keepdims", a.get("keepdim"))
    if k is None: return False
    if isinstance(k, Sc) and k.t in (TRUE, FALSE): return k.t is TRUE
    raise Unsupported("keepdims")
RK = ("axis", "dim", "keepdims", "keepdim", "dtype", "ddof", "unbiased", "correction")

def rd(kind):
    def g(m, name, args, kw):
        if len(args) == 2 and name == "torch." + kind and kind in ("min", "max") and isinstance(args[1], (Arr,)):
            return _minmax2(kind)(m, args[0], args[1])
        deny(kw, *(RK + ("a", "input")))
        a = A(args, kw, "x", "axis", "d1")
        x = a.get("x", a.get("a", a.get("input")))
        ax = a.get("axis", a.get("dim"))
        if kind in ("min", "max") and lib_of(name) == "torch" and ax is not None:
            if isinstance(x, (tuple, ListRef)): raise PyRaise("TypeError", name)
            m.conc_int(ax)
            return Named((out(m, reduce_(m, x, kind, ax, keep_of(a), lib="torch")), Poison("index of the extremum")), ("values", "indices"))
        if isinstance(x, (tuple, ListRef)) and lib_of(name) == "torch": raise PyRaise("TypeError", name)
        return out(m, reduce_(m, x, kind, ax, keep_of(a), lib=lib_of(name)))
    return g
for k in ("sum", "prod", "min", "max"):
    for l in ("numpy.", "torch."): FN[l + k] = rd(k)
FN["numpy.amin"] = FN["torch.amin"] = None; FN["numpy.amax"] = FN["torch.amax"] = None
def amm(kind):
    def g(m, name, args, kw):
        deny(kw, *RK)
        a = A(args, kw, "x", "axis")
        return out(m, reduce_(m, a.x, kind, axis_of(a), keep_of(a), lib=lib_of(name)))
    return g
for k in ("min", "max"):
    for l in ("numpy.a", "torch.a", "numpy.nan"): FN[l + k] = amm(k)
@F("numpy.mean", "torch.mean", "numpy.average")
def _mean(m, name, args, kw):
    deny(kw, *(RK + ("weights",)))
    a = A(args, kw, "x", "axis")
    if a.has("weights"):
        if a.weights is None: return out(m, mean_(m, a.x, axis_of(a), keep_of(a)))
        w = a.weights
        if axis_of(a) is not None:
            t = ten(m, a.x); W = ten(m, w); xs = axes_of(m, axis_of(a), len(t.shape))
            if len(xs) != 1: raise Unsupported("weighted average")
            k = xs[0]
            if len(W.shape) == 1:
                need_same(m, W.shape[0], t.shape[k], "weights")
                w = out(m, Ten(tuple(W.shape[0] if j == k else ONE for j in range(len(t.shape))), lambda i: W.f([i[k]]), W.lib, W.ty))
            nm = reduce_(m, binop(m, "Mult", a.x, w), "sum", xs_arg(xs), keep_of(a)); dn = reduce_(m, w, "sum", xs_arg(xs), keep_of(a))
            return binop(m, "Div", out(m, nm), out(m, dn))
        num_ = reduce_(m, binop(m, "Mult", a.x, w), "sum"); den = reduce_(m, w, "sum")
        return out(m, Ten((), lambda i: div(num_.f([]), den.f([])), "np", "float"))
    return out(m, mean_(m, a.x, axis_of(a), keep_of(a)))
def xs_arg(xs): return Sc(num(xs[0]), "int")
@F("numpy.count_nonzero", "torch.count_nonzero")
def _cnz(m, name, args, kw):
    a = A(args, kw, "x", "axis"); t = ten(m, a.x)
    def nz(idx):
        x = t.f(idx)
        return ite(x if t.ty == "bool" else ne(x, ZERO), ONE, ZERO)
    return out(m, reduce_(m, out(m, Ten(t.shape, nz, lib_of(name), "int")), "sum", axis_of(a), keep_of(a), ty="int"))
@F("numpy.hypot", "torch.hypot", "math.hypot")
def _hyp(m, name, args, kw):
    p = FN["numpy.sqrt"](m, "numpy.sqrt" if name[0] != "t" else "torch.sqrt", [binop(m, "Add", binop(m, "Mult", args[0], args[0]), binop(m, "Mult", args[1], args[1]))], {})
    return p
@F("numpy.diag_indices_from", "numpy.diag_indices")
def _dgi(m, name, args, kw):
    if name.endswith("from"):
        t = ten(m, args[0]); n = t.shape[0]
        for x in t.shape[1:]: need_same(m, n, x, "diag_indices")
        k = len(t.shape)
    else: n = args[0].t; k = m.conc_int(args[1]) if len(args) > 1 else 2
    return tuple(out(m, Ten((n,), lambda i: i[0], "np", "int")) for _ in range(k))
def ddof_of(m, a, lib, pos=None):
    if lib == "np":
        d = a.get("ddof")
        return m.conc_int(d) if d is not None else 0
    if a.has("correction"): return m.conc_int(a.correction)
    u = a.get("unbiased")
    if u is not None:
        if not (isinstance(u, Sc) and u.t in (TRUE, FALSE)): raise Unsupported("unbiased")
        return 1 if u.t is TRUE else 0
    return 1
@F("numpy.std", "torch.std", "numpy.var", "torch.var")
def _std(m, name, args, kw):
    deny(kw, *RK)
    lib = lib_of(name)
    a = A(args, kw, "x", "axis", "p3")
    if a.has("p3"): raise Unsupported("positional arguments of std")
    if lib == "torch" and isinstance(a.axis, Sc) and a.axis.ty == "bool":
        a.v["unbiased"] = a.v.pop("axis")
    v = var_(m, a.x, axis_of(a), keep_of(a), ddof_of(m, a, lib))
    if name.endswith("std"): v = Ten(v.shape, lambda idx, f=v.f: sqrt(f(idx)), v.lib, "float")
    return out(m, v)
@F("torch.aminmax")
def _aminmax(m, name, args, kw):
    deny(kw, "dim", "keepdim")
    return Named([out(m, reduce_(m, args[0], k, axis_of(kw), keep_of(kw), lib="torch")) for k in ("min", "max")], ("min", "max"))
@F("numpy.ptp")
def _ptp(m, name, args, kw):
    a = A(args, kw, "x", "axis")
    x = reduce_(m, a.x, "max", a.axis); y = reduce_(m, a.x, "min", a.axis)
    return out(m, Ten(x.shape, lambda i: sub(x.f(i), y.f(i)), x.lib, x.ty))
@F("numpy.any", "torch.any", "numpy.all", "torch.all")
def _anyall(m, name, args, kw):
    deny(kw, *RK)
    a = A(args, kw, "x", "axis")
    return out(m, anyall(m, a.x, name[-3:], axis_of(a), keep_of(a)))
@F("numpy.trace", "torch.trace")
def _trace(m, name, args, kw):
    t = ten(m, args[0]); need_same(m, t.shape[0], t.shape[1], "trace")
    return out(m, Ten((), lambda i: bigf("sum", t.shape[0], lambda q: t.f([q, q])), t.lib, t.ty))

# linear algebra
@F("numpy.dot", "numpy.matmul", "torch.matmul", "torch.mm", "torch.mv", "torch.dot", "numpy.inner_", "operator.matmul")
def _dot(m, name, args, kw):
    deny(kw)
    if name == "numpy.dot" and any(not ten(m, x).shape for x in args): return binop(m, "Mult", args[0], args[1])
    return matmul(m, args[0], args[1])
@F("numpy.linalg.multi_dot", "torch.linalg.multi_dot")
def _mdot(m, name, args, kw):
    xs = m.iterate(args[0]); r = xs[0]
    for x in xs[1:]: r = matmul(m, r, x)
    return r
@F("numpy.outer", "torch.outer")
def _outer(m, name, args, kw):
    a, b = ten(m, args[0]), ten(m, args[1])
    if len(a.shape) != 1 or len(b.shape) != 1: raise Unsupported("outer")
    return out(m, Ten((a.shape[0], b.shape[0]), lambda i: mul(a.f([i[0]]), b.f([i[1]])), jlib(a.lib, b.lib), jty(a.ty, b.ty)))
@F("numpy.linalg.inv", "torch.linalg.inv", "torch.inverse", "scipy.linalg.inv", "numpy.linalg.pinv_")
def _inv(m, name, args, kw):
    deny(kw)
    t = ten(m, args[0])
    if len(t.shape) != 2: raise Unsupported("inverse of a stack")
    need_same(m, t.shape[0], t.shape[1], "inverse")
    L = lamf(t.shape, lambda i, j: t.f([i, j]))
    return out(m, Ten(t.shape, lambda i: app("INV", (L,), (i[0], i[1])), t.lib, "float"))
@F("numpy.linalg.solve", "torch.linalg.solve", "scipy.linalg.solve")
def _solve(m, name, args, kw):
    if kw: raise Unsupported("solve options")
    return matmul(m, _inv(m, name, [args[0]], {}), args[1])
@F("numpy.linalg.norm", "torch.linalg.norm", "torch.norm", "torch.linalg.vector_norm")
def _norm(m, name, args, kw):
    deny(kw, "axis", "dim", "ord", "p", "keepdims", "keepdim")
    a = A(args, kw, "x", "ord", "axis")
    o = a.get("ord", a.get("p"))
    t = ten(m, a.x)
    ax = a.get("axis", a.get("dim"))
    if ax is None and len(t.shape) > 1 and o is not None: raise Unsupported("matrix norm")
    p = 2
    if o is not None:
        if isinstance(o, Sc) and isnum(o.t): p = int(val(o.t))
        else: raise Unsupported("norm order")
    if p == 2:
        r = reduce_(m, t, "sum", ax, keep_of(a), "float", pre=lambda b: power(b, TWO))
        return out(m, Ten(r.shape, lambda i: sqrt(r.f(i)), r.lib, "float"))
    if p == 1: return out(m, reduce_(m, t, "sum", ax, keep_of(a), "float", pre=lambda b: fn("abs", b)))
    raise Unsupported("norm order")
@F("numpy.einsum", "torch.einsum")
def _einsum(m, name, args, kw):
    deny(kw, "optimize")
    spec = args[0]
    if not isinstance(spec, str): raise Unsupported("einsum")
    ops = [ten(m, x) for x in args[1:]]
    spec = spec.replace(" ", "")
    if "." in spec: raise Unsupported("einsum ellipsis")
    if "->" in spec: lhs, rhs = spec.split("->")
    else:
        lhs = spec
        rhs = "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.replace(",", "").count(c) == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops): raise PyRaise("ValueError", "einsum")
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape): raise PyRaise("ValueError", "einsum")
        for c, d in zip(s, o.shape):
            if c in size:
                if size[c] is ONE: size[c] = d
                elif d is not ONE: need_same(m, size[c], d, "einsum")
            else: size[c] = d
    summed = [c for c in size if c not in rhs]
    def f(idx):
        env = dict(zip(rhs, idx))
        vs = {c: tm.fresh("q", "I", ZERO, size[c]) for c in summed}
        env.update(vs)
        b = mul(*[o.f([ZERO if d is ONE else env[c] for c, d in zip(s, o.shape)]) for s, o in zip(ins, ops)])
        for c in summed: b = big("sum", vs[c], ZERO, size[c], b)
        return b
    return out(m, Ten(tuple(size[c] for c in rhs), f, jlib(*[o.lib for o in ops]), jty(*[o.ty for o in ops])))
@F("numpy.tensordot", "torch.tensordot")
def _td(m, name, args, kw): raise Unsupported("tensordot")

# shape manipulation
@F("numpy.transpose", "torch.t", "torch.transpose", "torch.permute", "numpy.swapaxes", "torch.swapaxes")
def _transpose(m, name, args, kw):
    x = args[0]
    t = ten(m, x)
    if name in ("torch.transpose", "numpy.swapaxes", "torch.swapaxes"):
        i, j = [m.conc_int(k) % len(t.shape) for k in args[1:3]]
        p = list(range(len(t.shape))); p[i], p[j] = p[j], p[i]
        return transpose(m, x, p)
    if name == "torch.t" and len(t.shape) > 2: raise PyRaise("RuntimeError", "t() expects at most 2 dimensions")
    perm = args[1] if len(args) > 1 else kw.get("axes", kw.get("dims"))
    if perm is not None: perm = [m.conc_int(k) for k in m.iterate(perm)]
    return transpose(m, x, perm)
@F("numpy.moveaxis", "torch.movedim")
def _moveaxis(m, name, args, kw):
    t = ten(m, args[0]); n = len(t.shape)
    s, d = m.conc_int(args[1]) % n, m.conc_int(args[2]) % n
    p = [k for k in range(n) if k != s]; p.insert(d, s)
    return transpose(m, args[0], p)
@F("numpy.reshape", "torch.reshape")
def _reshape(m, name, args, kw):
    deny(kw, "shape", "newshape")
    sh = args[1] if len(args) > 1 else kw.get("shape", kw.get("newshape"))
    return reshape(m, args[0], dims_arg(m, [sh]))
@F("numpy.expand_dims", "torch.unsqueeze")
def _expand(m, name, args, kw):
    t = ten(m, args[0]); ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    k = m.conc_int(ax); k = k if k >= 0 else k + len(t.shape) + 1
    p = list(range(len(t.shape))); p.insert(k, None)
    return axes_view(m, args[0], p)
@F("numpy.squeeze", "torch.squeeze")
def _squeeze(m, name, args, kw):
    t = ten(m, args[0]); ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    if ax is None:
        p = [k for k, s in enumerate(t.shape) if s is not ONE and (isnum(s) or not m.decide(eq(s, ONE)))]
    else:
        k = m.conc_int(ax) % len(t.shape)
        if t.shape[k] is not ONE and (isnum(t.shape[k]) or not m.decide(eq(t.shape[k], ONE))):
            if name.startswith("torch"): return args[0]
            raise PyRaise("ValueError", "squeeze of an axis longer than one")
        p = [j for j in range(len(t.shape)) if j != k]
    return axes_view(m, args[0], p)
@F("numpy.ravel", "torch.ravel", "torch.flatten")
def _ravel(m, name, args, kw): return reshape(m, args[0], [MONE])
def stack_(m, v, axis, lib):
    it = m.iterate(v)
    t = seq_ten(m, v) 
    n = len(t.shape)
    axis %= n
    def f(idx):
        return t.f([idx[axis]] + list(idx[:axis]) + list(idx[axis + 1:]))
    sh = list(t.shape[1:]); sh.insert(axis, t.shape[0])
    return out(m, Ten(tuple(sh), f, lib, t.ty))
@F("numpy.stack", "torch.stack")
def _stack(m, name, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    return stack_(m, args[0], m.conc_int(ax) if ax is not None else 0, lib_of(name))
def concat_(m, xs, axis, lib):
    ts = [ten(m, x) for x in xs]
    n = len(ts[0].shape)
    axis %= n
    for t in ts[1:]:
        if len(t.shape) != n: raise PyRaise("ValueError", "concatenate")
        for k in range(n):
            if k != axis: need_same(m, t.shape[k], ts[0].shape[k], "concatenate")
    offs = [ZERO]
    for t in ts: offs.append(add(offs[-1], t.shape[axis]))
    def f(idx):
        i = idx[axis]
        r = None
        for k in range(len(ts) - 1, -1, -1):
            j = list(idx); j[axis] = sub(i, offs[k])
            b = ts[k].f(j)
            r = b if r is None else ite(lt(i, offs[k + 1]), b, r)
        return r
    sh = list(ts[0].shape); sh[axis] = offs[-1]
    return out(m, Ten(tuple(sh), f, lib, jty(*[t.ty for t in ts])))
@F("numpy.concatenate", "torch.cat", "torch.concat", "torch.concatenate")
def _concat(m, name, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    xs = m.iterate(args[0])
    if isinstance(xs, Seq): raise Unsupported("concatenation of symbolically many arrays")
    return concat_(m, xs, m.conc_int(ax) if ax is not None else 0, lib_of(name))
@F("numpy.vstack", "torch.vstack", "numpy.hstack", "torch.hstack", "numpy.column_stack", "torch.column_stack")
def _vstack(m, name, args, kw):
    deny(kw)
    k = name.split(".")[1]
    it = m.iterate(args[0])
    if isinstance(it, Seq):
        probe = ten(m, it.elem(ZERO))
        if len(probe.shape) == 1 and k == "vstack": return stack_(m, args[0], 0, lib_of(name))
        if len(probe.shape) == 1 and k == "column_stack": return stack_(m, args[0], 1, lib_of(name))
        raise Unsupported(name)
    nd = len(ten(m, it[0]).shape)
    if k == "vstack":
        if nd == 1: return stack_(m, tuple(it), 0, lib_of(name))
        return concat_(m, it, 0, lib_of(name))
    if k == "column_stack":
        if all(len(ten(m, x).shape) == 1 for x in it): return stack_(m, tuple(it), 1, lib_of(name))
        return concat_(m, [index(m, x, (SliceV(None, None, None), None)) if len(x.shape) == 1 else x for x in it], 1, lib_of(name))
    return concat_(m, it, 0 if nd == 1 else 1, lib_of(name))
@F("numpy.tile", "torch.tile")
def _tile(m, name, args, kw):
    t = ten(m, args[0]); reps = dims_arg(m, [args[1]])
    n = max(len(reps), len(t.shape))
    sh = [ONE] * (n - len(t.shape)) + list(t.shape)
    reps = [ONE] * (n - len(reps)) + reps
    k = n - len(t.shape)
    for s, r in zip(sh, reps):
        if r is not ONE and s is not ONE: raise Unsupported("tile")
    return out(m, Ten(tuple(r if s is ONE else s for s, r in zip(sh, reps)), lambda idx: t.f([ZERO if t.shape[j] is ONE else idx[k + j] for j in range(len(t.shape))]), t.lib, t.ty))
@F("numpy.repeat")
def _repeat(m, name, args, kw):
    ax = args[2] if len(args) > 2 else kw.get("axis")
    t = ten(m, args[0])
    if ax is None:
        if len(t.shape) > 1: raise Unsupported("repeat")
        if t.shape and t.shape[0] is not ONE:
            k = dims_arg(m, [args[1]])[0]
            if not isnum(k): raise Unsupported("repeat")
            return out(m, Ten((mul(k, t.shape[0]),), lambda i: t.f([fn("floor", div(i[0], k))]), t.lib, t.ty))
        return out(m, Ten((dims_arg(m, [args[1]])[0],), lambda i: t.f([ZERO] * len(t.shape)), t.lib, t.ty))
    k = m.conc_int(ax) % len(t.shape)
    if t.shape[k] is not ONE: raise Unsupported("repeat")
    sh = list(t.shape); sh[k] = dims_arg(m, [args[1]])[0]
    def f(idx):
        idx = list(idx); idx[k] = ZERO
        return t.f(idx)
    return out(m, Ten(tuple(sh), f, t.lib, t.ty))
@F("numpy.broadcast_to", "torch.broadcast_to")
def _bto(m, name, args, kw):
    return expand(m, args[0], tuple(dims_arg(m, [args[1]])))
@F("numpy.flip", "numpy.flipud", "numpy.fliplr", "torch.flip")
def _flip(m, name, args, kw):
    t = ten(m, args[0])
    ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dims"))
    if name.endswith("ud"): xs = [0]
    elif name.endswith("lr"): xs = [1]
    else: xs = axes_of(m, ax, len(t.shape))
    a = args[0]
    if name != "torch.flip" and isinstance(a, Arr):
        return Arr(a.cid, [("v", d[1], add(d[2], mul(num(d[3]), sub(a.shape[d[1]], ONE))), -d[3]) if d[0] == "v" and d[1] in xs else d for d in a.vm], a.shape, a.lb)
    return out(m, Ten(t.shape, lambda idx: t.f([sub(sub(t.shape[k], ONE), i) if k in xs else i for k, i in enumerate(idx)]), t.lib, t.ty))
@F("numpy.cumsum", "torch.cumsum", "numpy.cumprod", "torch.cumprod")
def _cumsum(m, name, args, kw):
    deny(kw, "axis", "dim")
    t = ten(m, args[0])
    ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    if ax is None:
        if len(t.shape) != 1: raise Unsupported("cumsum of a flattened array")
        ax = Sc(ZERO, "int")
    k = m.conc_int(ax) % len(t.shape)
    kind = "sum" if name.endswith("sum") else "prod"
    def f(idx):
        idx = list(idx)
        return bigf(kind, add(idx[k], ONE), lambda q: t.f(idx[:k] + [q] + idx[k + 1:]))
    return out(m, Ten(t.shape, f, t.lib, "int" if t.ty == "bool" else t.ty))
@F("numpy.isclose", "torch.isclose", "math.isclose")
def _isclose(m, name, args, kw):
    if name.startswith("math"): raise Unsupported("math.isclose")
    deny(kw, "rtol", "atol", "equal_nan")
    a = A(args, kw, "a", "b", "rtol", "atol")
    rt = kw.get("rtol", args[2] if len(args) > 2 else Sc(num(1e-5), "float")); at = kw.get("atol", args[3] if len(args) > 3 else Sc(num(1e-8), "float"))
    y = ew1(m, lambda t: fn("abs", t), args[1])
    return compare(m, "<=", ew1(m, lambda t: fn("abs", t), binop(m, "Sub", args[0], args[1])), binop(m, "Add", at, binop(m, "Mult", rt, y)))
@F("torch.lerp")
def _lerp(m, name, args, kw):
    deny(kw)
    return binop(m, "Add", args[0], binop(m, "Mult", args[2], binop(m, "Sub", args[1], args[0])))
@F("torch.addmm", "torch.addmv", "torch.addcmul", "torch.addcdiv", "torch.baddbmm")
def _addmm(m, name, args, kw):
    deny(kw, "alpha", "beta", "value")
    k = name[6:]
    if k.startswith("addc"):
        x = binop(m, "Mult" if k == "addcmul" else "Div", args[1], args[2])
        return binop(m, "Add", args[0], binop(m, "Mult", kw["value"], x) if "value" in kw else x)
    x = matmul(m, args[1], args[2])
    if "alpha" in kw: x = binop(m, "Mult", kw["alpha"], x)
    return binop(m, "Add", binop(m, "Mult", kw["beta"], args[0]) if "beta" in kw else args[0], x)
FN["torch.bmm"] = FN["torch.matmul"]
@F("torch.index_select")
def _isel(m, name, args, kw):
    deny(kw, "dim", "index")
    d = args[1] if len(args) > 1 else kw["dim"]; ix = args[2] if len(args) > 2 else kw["index"]
    k = m.conc_int(d) % len(ten(m, args[0]).shape)
    return copy_of(m, index(m, args[0], tuple([SliceV(None, None, None)] * k + [ix])))
@F("torch.select")
def _select(m, name, args, kw):
    k = m.conc_int(args[1]) % len(ten(m, args[0]).shape)
    return index(m, args[0], tuple([SliceV(None, None, None)] * k + [args[2]]))
@F("torch.narrow")
def _narrow(m, name, args, kw):
    k = m.conc_int(args[1]) % len(ten(m, args[0]).shape)
    return index(m, args[0], tuple([SliceV(None, None, None)] * k + [SliceV(args[2], binop(m, "Add", args[2], args[3]), None)]))
@F("torch.unbind")
def _unbind(m, name, args, kw):
    deny(kw, "dim")
    d = args[1] if len(args) > 1 else kw.get("dim")
    k = m.conc_int(d) % len(ten(m, args[0]).shape) if d is not None else 0
    n = ten(m, args[0]).shape[k]
    g = lambda i: index(m, args[0], tuple([SliceV(None, None, None)] * k + [Sc(i, "int")]))
    if isnum(n): return tuple(g(num(i)) for i in range(int(val(n))))
    return SymList(n, g)
@F("builtins.map")
def _map(m, name, args, kw):
    its = [m.iterate(x) for x in args[1:]]
    if all(isinstance(i, list) for i in its): return tuple(m.call(args[0], list(x), {}) for x in zip(*its))
    return m.mapped(args[0], args[1:])
def rc_(m, name, k):
    """numpy.r_[a, b], numpy.c_[a, b] for arrays"""
    ks = k if isinstance(k, tuple) else (k,)
    if any(isinstance(x, (SliceV, str)) for x in ks): raise Unsupported(name + " with slices")
    nd = [len(ten(m, x).shape) for x in ks]
    if name == "numpy.c_":
        return FN["numpy.column_stack"](m, "numpy.column_stack", [tuple(ks)], {})
    if any(n > 1 for n in nd): return concat_(m, ks, 0, "np")
    ks = [x if n else index(m, x, (None,)) if isinstance(x, Arr) else out(m, Ten((ONE,), (lambda x: lambda i: ten(m, x).f([]))(x), "np", x.ty)) for x, n in zip(ks, nd)]
    return concat_(m, ks, 0, "np")
@F("numpy.diff")
def _diff(m, name, args, kw):
    t = ten(m, args[0])
    if len(t.shape) != 1 or len(args) > 1 or kw: raise Unsupported("diff")
    return out(m, Ten((sub(t.shape[0], ONE),), lambda i: sub(t.f([add(i[0], ONE)]), t.f([i[0]])), t.lib, t.ty))
@F("numpy.shape")
def _shape(m, name, args, kw): return tuple(Sc(s, "int") for s in ten(m, args[0]).shape)
@F("numpy.size", "torch.numel")
def _size(m, name, args, kw): return Sc(mul(*ten(m, args[0]).shape) if ten(m, args[0]).shape else ONE, "int")
@F("numpy.ndim")
def _ndim(m, name, args, kw): return Sc(num(len(ten(m, args[0]).shape)), "int")
@F("numpy.isscalar")
def _isscalar(m, name, args, kw): return TRUEV if isinstance(args[0], Sc) and args[0].lib != "torch" or isinstance(args[0], str) else FALSEV
@F("torch.is_tensor")
def _ist(m, name, args, kw):
    v = args[0]
    if isinstance(v, Arr): return TRUEV if lib_of_arr(m, v) == "torch" else FALSEV
    return TRUEV if isinstance(v, Sc) and v.lib == "torch" else FALSEV
@F("numpy.array_equal", "torch.equal")
def _aeq(m, name, args, kw):
    a, b = ten(m, args[0]), ten(m, args[1])
    if len(a.shape) != len(b.shape) or not all(same_dim(m, x, y) for x, y in zip(a.shape, b.shape)): raise Unsupported("array_equal")
    return out(m, anyall(m, compare(m, "==", args[0], args[1]), "all"))
@F("numpy.meshgrid", "torch.meshgrid")
def _mesh(m, name, args, kw): raise Unsupported("meshgrid")
@F("numpy.copyto")
def _copyto(m, name, args, kw):
    deny(kw); store_view(m, args[0], ten(m, args[1])); return None
@F("numpy.fill_diagonal")
def _filldiag(m, name, args, kw):
    T = ten(m, args[0]); v = ten(m, args[1])
    store_view(m, args[0], Ten(T.shape, lambda i: ite(eq(i[0], i[1]), v.f([]), T.f(i)), T.lib, T.ty)); return None

# dtype-like and scalar constructors
@F("numpy.float64", "numpy.float32", "numpy.double", "numpy.int64", "numpy.int32", "numpy.bool_", "numpy.intp")
def _npsc(m, name, args, kw):
    t = ten(m, args[0])
    return cast(m, Ten(t.shape, t.f, "np", t.ty), dtype_ty(m, Lib(name), t.ty))
@F("torch.Tensor", "torch.DoubleTensor", "torch.FloatTensor")
def _tT(m, name, args, kw):
    if len(args) == 1 and isinstance(args[0], (ListRef, tuple, Arr)):
        t = ten(m, args[0]); return cast(m, Ten(t.shape, t.f, "torch", t.ty), "float")
    return _empty(m, "torch.empty", args, kw)

# distances
def cdist_(m, x, y, metric, p, lib):
    X, Y = ten(m, x), ten(m, y)
    if len(X.shape) != 2 or len(Y.shape) != 2: raise PyRaise("ValueError", "cdist needs 2-d arrays")
    need_same(m, X.shape[1], Y.shape[1], "cdist")
    D = X.shape[1]
    def s(i, g): return bigf("sum", D, lambda q: g(sub(X.f([i[0], q]), Y.f([i[1], q]))))
    if metric == "minkowski":
        pp = val(p.t) if p is not None else 2
        metric = {1: "cityblock", 2: "euclidean"}.get(pp)
        if metric is None: raise Unsupported("minkowski order")
    if metric == "sqeuclidean": f = lambda i: s(i, lambda d: power(d, TWO))
    elif metric == "euclidean": f = lambda i: sqrt(s(i, lambda d: power(d, TWO)))
    elif metric in ("cityblock", "l1"): f = lambda i: s(i, lambda d: fn("abs", d))
    else: raise Unsupported("distance " + str(metric))
    return Ten((X.shape[0], Y.shape[0]), f, lib, "float")
@F("scipy.spatial.distance.cdist")
def _cdist(m, name, args, kw):
    deny(kw, "metric", "p")
    a = A(args, kw, "x", "y", "metric")
    return out(m, cdist_(m, a.x, a.y, a.get("metric", "euclidean"), a.p, "np"))
@F("torch.cdist")
def _tcdist(m, name, args, kw):
    deny(kw, "p", "compute_mode")
    a = A(args, kw, "x", "y", "p")
    return out(m, cdist_(m, a.x, a.y, "minkowski", a.p, "torch"))
@F("ot.dist", "ot.utils.dist")
def _otdist(m, name, args, kw):
    deny(kw, "metric", "x2")
    a = A(args, kw, "x", "x2", "metric")
    return out(m, cdist_(m, a.x, a.x2 if a.x2 is not None else a.x, a.get("metric", "sqeuclidean"), None, ten(m, a.x).lib))
@F("ot.utils.euclidean_distances", "sklearn.metrics.pairwise.euclidean_distances")
def _oteu(m, name, args, kw):
    sq = kw.get("squared")
    return out(m, cdist_(m, args[0], args[1] if len(args) > 1 else args[0], "sqeuclidean" if isinstance(sq, Sc) and sq.t is TRUE else "euclidean", None, ten(m, args[0]).lib))
@F("scipy.spatial.distance_matrix")
def _dm(m, name, args, kw):
    deny(kw, "p")
    return out(m, cdist_(m, args[0], args[1], "minkowski", kw.get("p"), "np"))
@F("scipy.spatial.distance.pdist")
def _pdist(m, name, args, kw):
    deny(kw, "metric", "p")
    a = A(args, kw, "x", "metric")
    t = cdist_(m, a.x, a.x, a.get("metric", "euclidean"), a.p, "np")
    return Condensed(t.shape[0], t.f)
@F("scipy.spatial.distance.squareform")
def _sqf(m, name, args, kw):
    deny(kw)
    c = args[0]
    if not isinstance(c, Condensed): raise Unsupported("squareform")
    return out(m, Ten((c.n, c.n), c.f, "np", "float"))

# optimal transport: the assumed contract of the solvers (a least-cost plan with the given marginals)
def emd(m, p, q, D, lib):
    P, Q, C = ten(m, p), ten(m, q), ten(m, D)
    if len(P.shape) != 1 or len(Q.shape) != 1 or len(C.shape) != 2: raise PyRaise("ValueError", "emd")
    need_same(m, P.shape[0], C.shape[0], "emd"); need_same(m, Q.shape[0], C.shape[1], "emd")
    lams = (lamf(P.shape, lambda i: P.f([i])), lamf(Q.shape, lambda i: Q.f([i])), lamf(C.shape, lambda i, j: C.f([i, j])))
    return Ten((P.shape[0], Q.shape[0]), lambda i: app("EMD", lams, (i[0], i[1])), lib, "float")
@F("pyemd.emd_with_flow")
def _emdf(m, name, args, kw):
    deny(kw)
    if len(args) == 4 and not (isinstance(args[3], Sc) and isnum(args[3].t) and val(args[3].t) == -1): raise Unsupported("extra mass penalty")
    P = out(m, emd(m, args[0], args[1], args[2], "np"))
    n = P.shape[0]
    lst = ListRef(m.new(SymList(n, lambda i: index(m, P, (Sc(i, "int"),)))))
    C = ten(m, args[2]); T = ten(m, P)
    cost = bigf("sum", P.shape[0], lambda i: bigf("sum", P.shape[1], lambda j: mul(C.f([i, j]), T.f([i, j]))))
    return (Sc(cost, "float"), lst)
@F("ot.emd", "ot.lp.emd")
def _otemd(m, name, args, kw):
    deny(kw, "numItermax")
    return out(m, emd(m, args[0], args[1], args[2], jlib(ten(m, args[0]).lib, ten(m, args[2]).lib)))

# random generators
@F("numpy.random.normal")
def _rn(m, name, args, kw):
    deny(kw, "loc", "scale", "size")
    a = A(args, kw, "loc", "scale", "size")
    return d_normal(m, a.get("loc", Sc(ZERO, "float")), a.get("scale", Sc(ONE, "float")), a.size, "np")
@F("numpy.random.uniform")
def _ru(m, name, args, kw):
    deny(kw, "low", "high", "size")
    a = A(args, kw, "low", "high", "size")
    return d_uniform(m, a.get("low", Sc(ZERO, "float")), a.get("high", Sc(ONE, "float")), a.size, "np")
@F("numpy.random.randn", "numpy.random.rand")
def _rr(m, name, args, kw):
    k = "normal" if name.endswith("randn") else "uniform"
    return out(m, draw(m, k, dims_arg(m, list(args)) if args else (), "np"))
@F("numpy.random.standard_normal", "numpy.random.random", "numpy.random.random_sample", "numpy.random.sample", "numpy.random.ranf")
def _rs(m, name, args, kw):
    deny(kw, "size")
    a = A(args, kw, "size")
    return out(m, draw(m, "normal" if "normal" in name else "uniform", size_arg(m, a.size) or (), "np"))
@F("torch.randn", "torch.rand")
def _tr(m, name, args, kw):
    deny(kw, "dtype", "device", "requires_grad", "size")
    xs = list(args) if args else [kw["size"]]
    return out(m, draw(m, "normal" if name.endswith("randn") else "uniform", dims_arg(m, xs), "torch"))
@F("torch.randn_like", "torch.rand_like")
def _trl(m, name, args, kw):
    deny(kw, "dtype", "device")
    return out(m, draw(m, "normal" if "randn" in name else "uniform", ten(m, args[0]).shape, "torch"))
@F("torch.normal")
def _tn(m, name, args, kw):
    deny(kw, "mean", "std", "size", "dtype", "device")
    a = A(args, kw, "mean", "std", "size")
    return d_normal(m, a.mean, a.get("std", Sc(ONE, "float")), a.size, "torch")
@F("torch.distributions.Uniform", "torch.distributions.uniform.Uniform")
def _tU(m, name, args, kw):
    deny(kw, "low", "high", "validate_args")
    a = A(args, kw, "low", "high")
    return Distr("uniform", a.low, a.high)
@F("torch.distributions.Normal", "torch.distributions.normal.Normal")
def _tN(m, name, args, kw):
    deny(kw, "loc", "scale", "validate_args")
    a = A(args, kw, "loc", "scale")
    return Distr("normal", a.loc, a.scale)
@F("numpy.random.seed", "torch.manual_seed", "torch.random.manual_seed", "torch.seed", "random.seed", "numpy.random.set_state", "torch.set_rng_state")
def _seed(m, name, args, kw):
    m.effects.append(("reseed", name)); return Ignored("seed")
@F("numpy.random.default_rng", "numpy.random.RandomState", "torch.Generator", "numpy.random.Generator")
def _gen(m, name, args, kw):
    m.effects.append(("own-generator", name)); return Generator(name)
@F("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "os.getpid", "time.time_ns")
def _time(m, name, args, kw):
    s = tm.fresh("clock", "R"); I_.ENTROPY.add(s.args[0])
    return Sc(s, "float")
@F("torch.device")
def _dev(m, name, args, kw): return Lib("torch.device()")
@F("torch.no_grad", "torch.enable_grad", "numpy.errstate", "warnings.catch_warnings", "torch.inference_mode")
def _ctxm(m, name, args, kw): return Ignored("context")
@F("torch.cuda.is_available")
def _cuda(m, name, args, kw): return FALSEV
PRELUDE = """
import numpy as np
import torch
def _reduce(f, xs, *init):
    n = 0
    if init: r = init[0]
    else: r = xs[0]; n = 1
    for x in xs[n:] if n else xs: r = f(r, x)
    return r
def _accumulate(xs, f=None, initial=None):
    r = xs[0]; out = [r]
    for k in range(1, len(xs)):
        r = r + xs[k] if f is None else f(r, xs[k])
        out.append(r)
    return out
def _softmax(x, axis=None):
    e = np.exp(x)
    return e / np.sum(e, axis=axis, keepdims=True)
def _logsumexp(x, axis=None, b=None, keepdims=False):
    return np.log(np.sum(np.exp(x) if b is None else b * np.exp(x), axis=axis, keepdims=keepdims))
def _log_softmax(x, axis=None):
    return x - np.log(np.sum(np.exp(x), axis=axis, keepdims=True))
def _tsoftmax(x, dim):
    e = torch.exp(x)
    return e / torch.sum(e, dim=dim, keepdim=True)
def _tlogsumexp(x, dim, keepdim=False):
    return torch.log(torch.sum(torch.exp(x), dim=dim, keepdim=keepdim))
def _tlog_softmax(x, dim):
    return x - torch.log(torch.sum(torch.exp(x), dim=dim, keepdim=True))
"""
def prelude(m, name):
    """library functions given by their source"""
    md = m.mods.get("$prelude")
    if md is None:
        md = m.load_source("$prelude", PRELUDE)
    return m.heap[md.fid][name]
@F("scipy.special.softmax", "scipy.special.logsumexp", "scipy.special.log_softmax")
def _spsoft(m, name, args, kw): return m.call(prelude(m, "_" + name.split(".")[-1]), list(args), kw)
@F("torch.softmax", "torch.logsumexp", "torch.log_softmax", "torch.nn.functional.softmax", "torch.nn.functional.log_softmax")
def _tsoft(m, name, args, kw): return m.call(prelude(m, "_t" + name.split(".")[-1]), list(args), kw)
@F("functools.reduce")
def _reduce(m, name, args, kw):
    f, xs = args[0], args[1]
    it = m.iterate(xs)
    if isinstance(it, Seq) and isnum(it.n) and val(it.n) <= I_.UNROLL: it = [it.elem(num(i)) for i in range(int(val(it.n)))]
    if isinstance(it, list):
        r = args[2] if len(args) > 2 else None
        for i, x in enumerate(it):
            r = x if (i == 0 and len(args) <= 2) else m.call(f, [r, x], {})
        return r
    kind = None
    if isinstance(f, Lib):
        op = f.name.split(".")[-1]
        kind = {"multiply": "prod", "mul": "prod", "add": "sum"}.get(op)
    if kind is None:
        return m.call(prelude(m, "_reduce"), [f, xs] + list(args[2:]), {})
    m.need("reduce of a nonempty sequence", lt(ZERO, it.n))
    p = ten(m, it.elem(tm.fresh("c", "I", ZERO, it.n)))
    t = Ten(p.shape, lambda idx: bigf(kind, it.n, lambda q: ten(m, it.elem(q)).f(idx)), p.lib, p.ty)
    if len(args) > 2:
        return binop(m, "Mult" if kind == "prod" else "Add", args[2], out(m, t))
    return out(m, t)
@F("functools.partial")
def _partial(m, name, args, kw):
    f, a0, k0 = args[0], list(args[1:]), dict(kw)
    return SpecFn("partial", lambda mm, a, k: mm.call(f, a0 + list(a), {**k0, **k}))
@F("copy.copy", "copy.deepcopy")
def _copy(m, name, args, kw):
    v = args[0]
    if isinstance(v, Arr): return copy_of(m, v)
    if isinstance(v, Sc) or v is None or isinstance(v, (str, tuple)): return v
    if isinstance(v, ListRef) and name.endswith("deepcopy") is False: return ListRef(m.new(m.heap[v.lid]))
    raise Unsupported("copy")
@F("numpy.random.choice", "numpy.random.permutation", "numpy.random.shuffle", "numpy.random.randint", "numpy.random.multivariate_normal", "torch.randperm", "torch.multinomial", "torch.randint")
def _nochoice(m, name, args, kw): raise Unsupported(name)
@F("itertools.accumulate")
def _accu(m, name, args, kw): return m.call(prelude(m, "_accumulate"), args, kw)
@F("itertools.product")
def _iprod(m, name, args, kw):
    import itertools
    its = [m.iterate(x) for x in args]
    if not all(isinstance(i, list) for i in its): raise Unsupported("product")
    return tuple(tuple(x) for x in itertools.product(*its))

# ------------------------------------------------------------------ builtins
def bf(name):
    return Lib("builtins." + name)
BUILTINS = {n: bf(n) for n in ("len", "range", "enumerate", "zip", "min", "max", "sum", "abs", "int", "float", "bool", "list", "tuple", "dict", "set",
    "isinstance", "print", "map", "reversed", "any", "all", "callable", "hasattr", "getattr", "setattr", "str", "type", "object", "pow", "round", "super", "id", "iter", "next", "sorted", "filter",
    "ValueError", "TypeError", "Exception", "RuntimeError", "NotImplementedError", "ImportError", "AssertionError", "AttributeError", "KeyError", "IndexError", "Warning", "UserWarning", "ZeroDivisionError", "FloatingPointError", "divmod", "slice", "repr", "vars", "issubclass", "ArithmeticError")}
def builtin(name):
    if name == "NotImplemented": return Lib("builtins.NotImplemented")
    return BUILTINS.get(name)

def b_(name):
    def d(f): FN["builtins." + name] = f; return f
    return d
@b_("len")
def _len(m, name, args, kw):
    v = args[0]
    if isinstance(v, Arr): return Sc(v.shape[0], "int")
    if isinstance(v, (tuple, str)): return Sc(num(len(v)), "int")
    if isinstance(v, ListRef):
        p = m.heap[v.lid]
        if isinstance(p, tuple): return Sc(num(len(p)), "int")
        if isinstance(p, SymList): return Sc(p.n, "int")
        if p.n is None: raise ListRead(v.lid)
        return Sc(add(p.n, num(len(p.items))), "int")
    if isinstance(v, DictRef): return Sc(num(len(m.heap[v.did])), "int")
    if isinstance(v, (SymList, Seq)): return Sc(v.n, "int")
    if isinstance(v, RangeV): return Sc(m.iterate(v).n, "int")
    if isinstance(v, Sc) or v is None: raise PyRaise("TypeError", "len of a scalar")
    raise Unsupported("len")
@F("builtins.range", "numba.prange", "numpy.ndindex_")
def _range(m, name, args, kw):
    ts = []
    for a in args:
        if isinstance(a, Arr) and all(s is ONE for s in a.shape): a = Sc(read(m, a, [ZERO] * len(a.shape)), m.heap[a.cid].ty, "np")
        if not isinstance(a, Sc): raise PyRaise("TypeError", "range")
        if a.ty == "float": raise PyRaise("TypeError", "range of a float")
        ts.append(b2n(a.t))
    if len(ts) == 1: return RangeV(ZERO, ts[0], ONE)
    if len(ts) == 2: return RangeV(ts[0], ts[1], ONE)
    return RangeV(*ts)
@b_("enumerate")
def _enum(m, name, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start")
    s0 = st.t if st is not None else ZERO
    it = m.iterate(args[0])
    if isinstance(it, list): return tuple((Sc(add(s0, num(i)), "int"), x) for i, x in enumerate(it))
    return Seq(it.n, lambda i: (Sc(add(s0, i), "int"), it.elem(i)))
@b_("zip")
def _zip(m, name, args, kw):
    its = [m.iterate(a) for a in args]
    if all(isinstance(i, list) for i in its): return tuple(zip(*its))
    seqs = [Seq(num(len(i)), lambda k, i=i: m.getitem(tuple(i), Sc(k, "int"))) if isinstance(i, list) else i for i in its]
    n = seqs[0].n
    for s in seqs[1:]:
        if not same_dim(m, n, s.n):
            if m.valid(le(n, s.n)): continue
            if m.valid(le(s.n, n)): n = s.n; continue
            raise Unsupported("zip of different lengths")
    return Seq(n, lambda i: tuple(s.elem(i) for s in seqs))
@b_("reversed")
def _rev(m, name, args, kw):
    it = m.iterate(args[0])
    if isinstance(it, list): return tuple(reversed(it))
    return Seq(it.n, lambda i: it.elem(sub(sub(it.n, ONE), i)))
@F("builtins.min", "builtins.max")
def _bmm(m, name, args, kw):
    k = name.split(".")[1]
    deny(kw)
    if len(args) == 1:
        v = args[0]
        it = m.iterate(v)
        if isinstance(it, Seq): 
            t = seq_ten(m, v)
            if len(t.shape) != 1: raise Unsupported("min of rows")
            m.need("min of a nonempty sequence", lt(ZERO, t.shape[0]))
            return out(m, reduce_(m, t, k, None))
        args = it
    r = None
    for x in args:
        if isinstance(x, Arr):
            if all(s is ONE for s in x.shape): x = Sc(read(m, x, [ZERO] * len(x.shape)), m.heap[x.cid].ty, lib_of_arr(m, x))
            else: raise PyRaise("ValueError", "truth value of an array")
        if not isinstance(x, Sc): raise Unsupported("min")
        r = x if r is None else Sc(fn(k, r.t, x.t), jty(r.ty, x.ty), jlib(r.lib, x.lib))
    return r
@b_("sum")
def _bsum(m, name, args, kw):
    it = m.iterate(args[0])
    r = args[1] if len(args) > 1 else kw.get("start", Sc(ZERO, "int"))
    if isinstance(it, list):
        for x in it: r = binop(m, "Add", r, x)
        return r
    t = seq_ten(m, args[0])
    s = reduce_(m, t, "sum", Sc(ZERO, "int"))
    return binop(m, "Add", r, out(m, s))
@F("builtins.any", "builtins.all")
def _banyall(m, name, args, kw):
    k = name.split(".")[1]
    it = m.iterate(args[0])
    if isinstance(it, list):
        c = [m.truth_term(x) for x in it]
        return Sc((lor if k == "any" else land)(*c) if c else (FALSE if k == "any" else TRUE), "bool")
    v = tm.fresh("q", "I", ZERO, it.n)
    b = m.truth_term(it.elem(v))
    if k == "all": return Sc(cmp("!=", big("prod", v, ZERO, it.n, ite(b, ONE, ZERO)), ZERO), "bool")
    return Sc(cmp("==", big("prod", v, ZERO, it.n, ite(b, ZERO, ONE)), ZERO), "bool")
@b_("abs")
def _babs(m, name, args, kw): return ew1(m, lambda t: fn("abs", t), args[0])
@b_("pow")
def _bpow(m, name, args, kw): return binop(m, "Pow", args[0], args[1])
@F("builtins.int", "builtins.float", "builtins.bool")
def _bconv(m, name, args, kw):
    k = name.split(".")[1]
    if not args: return Sc(FALSE if k == "bool" else ZERO, k)
    v = args[0]
    if k == "bool": return Sc(m.truth_term(v), "bool")
    if isinstance(v, Arr):
        if not all(s is ONE for s in v.shape): raise PyRaise("TypeError", "only length-1 arrays")
        v = Sc(read(m, v, [ZERO] * len(v.shape)), m.heap[v.cid].ty, "np")
    if not isinstance(v, Sc): raise Unsupported(k)
    r = cast(m, Ten((), lambda i: v.t, "py", v.ty), k)
    return Sc(r.t, k, "py")
@b_("round")
def _bround(m, name, args, kw):
    v = args[0]
    if isinstance(v, Sc) and v.ty == "int": return v
    if isinstance(v, Sc) and len(args) == 1:
        if isnum(v.t): return Sc(num(round(val(v.t))), "int")
        return Sc(fn("round", v.t), "int")
    raise Unsupported("round")
@F("builtins.list", "builtins.tuple")
def _blist(m, name, args, kw):
    isl = name.endswith("list")
    if not args: return ListRef(m.new(())) if isl else ()
    it = m.iterate(args[0])
    if isinstance(it, list): return ListRef(m.new(tuple(it))) if isl else tuple(it)
    s = SymList(it.n, it.elem)
    return ListRef(m.new(s)) if isl else s
@b_("dict")
def _bdict(m, name, args, kw):
    if args: raise Unsupported("dict")
    return DictRef(m.new(dict(kw)))
@b_("callable")
def _bcall(m, name, args, kw):
    return TRUEV if isinstance(args[0], (FnV, Bound, ClassV, OpaqueFn, SpecFn, Lib, LibMethod)) else FALSEV
@b_("hasattr")
def _bhas(m, name, args, kw):
    try: m.getattr(args[0], args[1]); return TRUEV
    except PyRaise: return FALSEV
@b_("getattr")
def _bget(m, name, args, kw):
    if not isinstance(args[1], str): raise Unsupported("getattr")
    try: return m.getattr(args[0], args[1])
    except PyRaise:
        if len(args) > 2: return args[2]
        raise
@b_("setattr")
def _bset(m, name, args, kw): m.setattr(args[0], args[1], args[2]); return None
@b_("str")
def _bstr(m, name, args, kw): return Ignored("string")
FN["builtins.repr"] = _bstr
@b_("id")
def _bid(m, name, args, kw): raise Unsupported("id")
@b_("type")
def _btype(m, name, args, kw):
    v = args[0]
    if isinstance(v, Inst): return v.cls
    if isinstance(v, Arr): return Lib("numpy.ndarray" if lib_of_arr(m, v) == "np" else "torch.Tensor")
    if isinstance(v, Sc) and v.lib == "py": return Lib("builtins." + v.ty)
    if isinstance(v, ListRef): return Lib("builtins.list")
    if isinstance(v, tuple): return Lib("builtins.tuple")
    if isinstance(v, str): return Lib("builtins.str")
    raise Unsupported("type")
@b_("super")
def _bsuper(m, name, args, kw): raise Unsupported("super")
@b_("isinstance")
def _bisinst(m, name, args, kw):
    v, c = args
    cs = list(m.iterate(c)) if isinstance(c, (tuple, ListRef)) else [c]
    return TRUEV if any(isinst(m, v, x) for x in cs) else FALSEV
def isinst(m, v, c):
    if isinstance(c, ClassV):
        if not isinstance(v, Inst): return False
        k = v.cls
        st = [k]
        while st:
            k = st.pop()
            if k is c or k.name == c.name and k.mod == c.mod: return True
            st += [b for b in k.bases if isinstance(b, ClassV)]
        return False
    if not isinstance(c, Lib): raise Unsupported("isinstance")
    n = c.name
    if n == "builtins.object": return True
    kind = None
    if isinstance(v, Arr): kind = "ndarray" if lib_of_arr(m, v) == "np" else "tensor"
    elif isinstance(v, Sc):
        if v.lib == "torch": kind = "tensor"
        elif v.lib == "np": kind = "np" + v.ty
        else: kind = v.ty
    elif isinstance(v, str): kind = "str"
    elif isinstance(v, tuple): kind = "tuple"
    elif isinstance(v, ListRef): kind = v.kind
    elif isinstance(v, DictRef): kind = "dict"
    elif v is None: kind = "none"
    elif isinstance(v, (FnV, Bound, OpaqueFn, SpecFn)): kind = "fn"
    elif isinstance(v, (SymList, Seq)): raise Unsupported("isinstance of a lazy sequence")
    T = {"builtins.int": ("int", "bool"), "builtins.float": ("float", "npfloat"), "builtins.bool": ("bool",), "builtins.str": ("str",),
         "builtins.tuple": ("tuple",), "builtins.list": ("list",), "builtins.dict": ("dict",), "numpy.ndarray": ("ndarray",),
         "torch.Tensor": ("tensor",), "torch.DoubleTensor": (), "numpy.floating": ("npfloat",), "numpy.float64": ("npfloat",), "numpy.number": ("npfloat", "npint"),
         "numpy.integer": ("npint",), "numpy.int64": ("npint",), "numpy.bool_": ("npbool",), "numbers.Number": ("int", "float", "bool", "npfloat", "npint"),
         "numbers.Real": ("int", "float", "bool", "npfloat", "npint"), "numpy.generic": ("npfloat", "npint", "npbool"),
         "collections.abc.Sequence": ("list", "tuple", "str"), "collections.abc.Iterable": ("list", "tuple", "str", "ndarray", "tensor", "dict"),
         "collections.abc.Callable": ("fn",), "typing.Callable": ("fn",), "builtins.set": ()}
    if n in T: return kind in T[n]
    raise Unsupported("isinstance with " + n)
@F("builtins.ValueError", "builtins.TypeError", "builtins.Exception", "builtins.RuntimeError", "builtins.object")
def _bexc(m, name, args, kw): return Ignored("exception")

# ------------------------------------------------------------------ dispatch
IGN = ("logging", "matplotlib", "duecredit", "warnings", "builtins.print", "seaborn", "pylab", "sys.stdout", "sys.stderr", "pprint", "tqdm_")
def ignorable(name):
    return any(name == p or name.startswith(p + ".") for p in IGN)

ALIAS = {"numpy.random.mtrand": "numpy.random", "torch.linalg.inv_ex": "?"}

def libcall(m, name, args, kw):
    if ignorable(name): return Ignored(name)
    if name == "torch.device()": raise Unsupported("device call")
    f = FN.get(name)
    if f is None:
        if name in ("numba.njit", "numba.jit"): raise Unsupported("jit of a function value")
        raise Unsupported("library function " + name)
    USED.add(name)
    for a in list(args) + list(kw.values()):
        if isinstance(a, Poison): raise Unsupported("use of an undetermined value: " + a.why)
        if isinstance(a, Ignored) and not name.startswith("builtins.") and name not in FN_IGN_OK: raise Unsupported("ignored value passed to " + name)
    if isinstance(kw.get("out"), Arr) and name.split(".")[0] in ("numpy", "torch"):
        o = kw["out"]
        r = ten(m, f(m, name, list(args), {k: v for k, v in kw.items() if k != "out"}))
        if len(r.shape) != len(o.shape) or not all(same_dim(m, x, y) for x, y in zip(r.shape, o.shape)): raise Unsupported("out argument of another shape")
        store_view(m, o, r); return o
    if "out" in kw and kw["out"] is None: kw = {k: v for k, v in kw.items() if k != "out"}
    return f(m, name, list(args), dict(kw))
FN_IGN_OK = set()

CONSTS = {"numpy.pi": math.pi, "math.pi": math.pi, "torch.pi": math.pi, "numpy.e": math.e, "math.e": math.e}
def libattr(m, o, n):
    full = o.name + "." + n
    if full in ("numpy.newaxis",): return None
    if full in CONSTS:
        return Sc(sym("pi" if "pi" in full else "euler", "R"), "float")
    if full in ("numpy.inf", "math.inf", "torch.inf", "numpy.nan", "math.nan", "torch.nan"): raise Unsupported("inf/nan")
    if ignorable(full): return Lib(full)
    if o.name == "torch.device()": return Ignored("device attribute")
    return Lib(full)

# attributes and methods of arrays, scalars, lists, strings
def getattr(m, o, n):
    if isinstance(o, Ignored): return Ignored(o.what + "." + n if o.what.startswith("logging.getLogger") else n)
    if isinstance(o, (Arr, Sc)):
        t = ten(m, o)
        if n == "shape": return tuple(Sc(s, "int") for s in t.shape)
        if n == "T" or n == "mT": return transpose(m, o)
        if n == "ndim": return Sc(num(len(t.shape)), "int")
        if n == "size" and t.lib != "torch": return Sc(mul(*t.shape) if t.shape else ONE, "int")
        if n == "dtype": return DTypeOf(t.ty)
        if n == "device": return Lib("torch.device()")
        if n == "data" and t.lib == "torch": return o
        if n == "is_cuda" or n == "requires_grad": return FALSEV
        if n == "flat": raise Unsupported("flat")
        if n == "real": return o
        return LibMethod(o, n)
    if isinstance(o, Named) and n in o.fields: return o[o.fields.index(n)]
    if isinstance(o, (ListRef, DictRef, str, Distr, tuple, Generator)): return LibMethod(o, n)
    if isinstance(o, (FnV, Bound)):
        if n in ("__name__", "__doc__"): return Ignored(n)
        raise Unsupported("function attribute")
    if o is None: raise PyRaise("AttributeError", "None." + n)
    raise Unsupported("attribute %s of %s" % (n, type(o).__name__))

def method(m, o, n, args, kw):
    if isinstance(o, Ignored): return Ignored(n)
    if isinstance(o, ListRef):
        if n == "append": list_append(m, o, args[0]); return None
        if n == "extend": list_extend(m, o, args[0]); return None
        p = m.heap[o.lid]
        if isinstance(p, tuple):
            if n == "copy": return ListRef(m.new(p))
            if n == "insert":
                i = m.conc_int(args[0]); l = list(p); l.insert(i, args[1]); m.heap[o.lid] = tuple(l); return None
            if n == "pop":
                i = m.conc_int(args[0]) if args else -1
                l = list(p)
                if not l: raise PyRaise("IndexError", "pop")
                x = l.pop(i); m.heap[o.lid] = tuple(l); return x
            if n == "clear": m.heap[o.lid] = (); return None
            if n == "reverse": m.heap[o.lid] = p[::-1]; return None
            if n == "index":
                for i, x in enumerate(p):
                    if m.truth(compare(m, "==", x, args[0])): return Sc(num(i), "int")
        if n == "reverse" and isinstance(p, SymList):
            m.heap[o.lid] = SymList(p.n, lambda i: p.elem(sub(sub(p.n, ONE), i))); return None
        raise Unsupported("list." + n)
    if isinstance(o, DictRef):
        d = m.heap[o.did]
        if n == "get":
            return d.get(m.hashable(args[0], d), args[1] if len(args) > 1 else None)
        if n == "items": return tuple((m.unkey(k), v) for k, v in d.items())
        if n == "setdefault":
            k = m.hashable(args[0], d)
            if k not in d:
                e = dict(d); e[k] = args[1] if len(args) > 1 else None; m.heap[o.did] = e; return e[k]
            return d[k]
        if n == "pop":
            k = m.hashable(args[0], d)
            if k in d: e = dict(d); v = e.pop(k); m.heap[o.did] = e; return v
            if len(args) > 1: return args[1]
            raise PyRaise("KeyError", "pop")
        if n == "clear": m.heap[o.did] = {}; return None
        if n == "keys": return tuple(m.unkey(k) for k in d)
        if n == "values": return tuple(d.values())
        if n == "copy": return DictRef(m.new(dict(d)))
        if n == "update":
            e = dict(d); e.update(kw)
            if args: e.update(m.heap[args[0].did])
            m.heap[o.did] = e; return None
        raise Unsupported("dict." + n)
    if isinstance(o, str):
        if n in ("lower", "upper", "strip"): return __builtins_getattr(o, n)()
        if n in ("startswith", "endswith") and isinstance(args[0], str): return TRUEV if __builtins_getattr(o, n)(args[0]) else FALSEV
        if n in ("format", "join"): return Ignored("string")
        raise Unsupported("str." + n)
    if isinstance(o, Distr):
        if n in ("sample", "rsample"):
            sh = args[0] if args else kw.get("sample_shape")
            L, H = ten(m, o.a), ten(m, o.b)
            base = bshape(m, L.shape, H.shape)
            pre = dims_arg(m, [sh]) if sh is not None else []
            full = tuple(pre) + tuple(base)
            x = draw(m, o.kind, full, "torch")
            if o.kind == "uniform":
                f = lambda idx: add(L.f(bidx(L, idx)), mul(sub(H.f(bidx(H, idx)), L.f(bidx(L, idx))), x.f(idx)))
            else: f = lambda idx: add(L.f(bidx(L, idx)), mul(H.f(bidx(H, idx)), x.f(idx)))
            return out(m, Ten(full, f, "torch", "float"))
        raise Unsupported("distribution." + n)
    if isinstance(o, tuple):
        if n == "index" or n == "count": raise Unsupported("tuple." + n)
    if isinstance(o, Generator): raise Unsupported("private random generator")
    if isinstance(o, (Arr, Sc)):
        t = ten(m, o)
        return arr_method(m, o, t, n, args, kw)
    raise Unsupported("method %s of %s" % (n, type(o).__name__))

import builtins as _b
def __builtins_getattr(o, n): return _b.getattr(o, n)

def arr_method(m, o, t, n, args, kw):
    lib = "torch." if t.lib == "torch" else "numpy."
    USED.add(("tensor." if t.lib == "torch" else "ndarray.") + n)
    if n == "size" and t.lib == "torch":
        d = args[0] if args else kw.get("dim")
        if d is None: return tuple(Sc(s, "int") for s in t.shape)
        k = m.conc_int(d)
        if not -len(t.shape) <= k < len(t.shape): raise PyRaise("IndexError", "dimension")
        return Sc(t.shape[k], "int")
    if n in ("dim", "ndimension") and t.lib == "torch": return Sc(num(len(t.shape)), "int")
    if n == "numel": return Sc(mul(*t.shape) if t.shape else ONE, "int")
    if n in ("copy", "clone"): return copy_of(m, o)
    if n in ("new_zeros", "new_ones", "new_full", "new_empty") and t.lib == "torch":
        kw = dict(kw); kw.setdefault("dtype", Lib({"float": "torch.float64", "int": "torch.int64", "bool": "torch.bool"}[t.ty]))
        return FN["torch." + n[4:]](m, "torch." + n[4:], args, kw)
    if n == "new_tensor" and t.lib == "torch": return cast(m, ten(m, FN["torch.tensor"](m, "torch.tensor", args, kw)), t.ty)
    if n in ("detach", "cpu", "cuda", "contiguous", "requires_grad_", "double", "resolve_conj", "float") or n == "to":
        ty = t.ty
        if n in ("double", "float"): ty = "float"
        elif n == "to" and "dtype" in kw: ty = dtype_ty(m, kw["dtype"], t.ty)
        elif n == "to" and args and isinstance(args[0], Lib) and args[0].name.startswith("torch.") and args[0].name != "torch.device()": ty = dtype_ty(m, args[0], t.ty)
        elif n == "to" and args and isinstance(args[0], (Arr, Sc)): ty = ten(m, args[0]).ty
        if isinstance(kw.get("copy"), Sc) and kw["copy"].t is TRUE: return copy_of(m, cast(m, t, ty))
        return o if ty == t.ty else cast(m, t, ty)
    if n in ("numpy", "__array__"): 
        if isinstance(o, Arr):
            return as_lib(m, o, "np")
        return Sc(o.t, o.ty, "np")
    if n in ("item", "tolist") and not t.shape: return Sc(t.f([]), t.ty, "py")
    if n == "item":
        if all(s is ONE for s in t.shape): return Sc(t.f([ZERO] * len(t.shape)), t.ty, "py")
        raise PyRaise("ValueError", "item")
    if n == "tolist":
        if len(t.shape) == 1: return ListRef(m.new(SymList(t.shape[0], lambda i: Sc(t.f([i]), t.ty, "py"))))
        raise Unsupported("tolist")
    if n in ("astype", "type"):
        ty = dtype_ty(m, args[0] if args else kw.get("dtype"), t.ty)
        if ty == t.ty and (n == "type" or isinstance(kw.get("copy"), Sc) and kw["copy"].t is FALSE): return o
        return cast(m, t, ty)
    if n in ("bool", "int", "long"):
        ty = {"long": "int"}.get(n, n)
        return o if ty == t.ty else cast(m, t, ty)
    if n in ("reshape", "view"): return reshape(m, o, dims_arg(m, list(args) if args else [kw.get("shape")]))
    if n == "flatten" or n == "ravel":
        r = reshape(m, o, [MONE])
        return copy_of(m, r) if n == "flatten" and t.lib == "np" else r
    if n == "t": return FN["torch.t"](m, "torch.t", [o], {})
    if n in ("transpose", "permute", "swapaxes"):
        if n == "swapaxes" or (n == "transpose" and t.lib == "torch"): return FN["torch.transpose"](m, "torch.transpose", [o] + list(args), {})
        if not args: return transpose(m, o)
        xs = m.iterate(args[0]) if isinstance(args[0], (tuple, ListRef)) else args
        return transpose(m, o, [m.conc_int(k) for k in xs])
    if n in ("unsqueeze", "squeeze"): return FN["torch." + n](m, "torch." + n, [o] + list(args), kw)
    if n in ("expand", "broadcast_to", "expand_as"):
        sh = list(ten(m, args[0]).shape) if n == "expand_as" else dims_arg(m, list(args))
        k = len(sh) - len(t.shape)
        sh = [t.shape[j - k] if isnum(s) and val(s) == -1 else s for j, s in enumerate(sh)]
        return expand(m, o, tuple(sh))
    if n == "repeat":
        return FN["numpy.tile" if t.lib == "torch" else "numpy.repeat"](m, "torch.tile" if t.lib == "torch" else "numpy.repeat", [o] + ([tuple(args)] if t.lib == "torch" and not isinstance(args[0], (tuple, ListRef)) else list(args)), kw)
    if n in ("fill", "fill_"):
        if isinstance(o, Sc): raise Unsupported("fill of a scalar")
        store_view(m, o, ten(m, args[0])); return o if n == "fill_" else None
    if n == "zero_": store_view(m, o, ten(m, Sc(ZERO, "int"))); return o
    if n == "copy_": store_view(m, o, ten(m, args[0])); return o
    if n == "normal_":
        deny(kw, "mean", "std")
        a = A(args, kw, "mean", "std")
        r = d_normal(m, a.get("mean", Sc(ZERO, "float")), a.get("std", Sc(ONE, "float")), tuple(Sc(s, "int") for s in t.shape), "torch")
        if isinstance(o, Arr): store_view(m, o, ten(m, r)); return o
        return r
    if n == "uniform_":
        deny(kw, "from", "to")
        a = A(args, kw, "from", "to")
        r = d_uniform(m, a.get("from", Sc(ZERO, "float")), a.get("to", Sc(ONE, "float")), tuple(Sc(s, "int") for s in t.shape), "torch")
        if isinstance(o, Arr): store_view(m, o, ten(m, r)); return o
        return r
    if n.endswith("_") and not n.startswith("_") and lib + n[:-1] in FN and isinstance(o, Arr):
        r = FN[lib + n[:-1]](m, lib + n[:-1], [o] + list(args), kw)
        store_view(m, o, ten(m, r)); return o
    if n == "add_" : pass
    if n == "mul" or n == "div" or n == "add" or n == "sub" or n == "pow" or n == "matmul" or n == "dot" or n == "mm" or n == "mv":
        nm = lib + n
        if nm in FN: return FN[nm](m, nm, [o] + list(args), kw)
    nm = lib + n
    if nm in FN and FN[nm] is not None:
        return FN[nm](m, nm, [o] + list(args), kw)
    raise Unsupported("array method " + n)
