"""Hash-consed terms of the verifier's logic.

A term is T(op, args).  Sorts: 'I' integers, 'R' reals, 'B' booleans.  Machine numbers are read as
mathematical ones (floats by their decimal literal); that is one of the recorded assumptions.

  num(q)                      rational constant
  sym(name, sort)             free or bound variable
  sel(array, idx...)          entry of an (uninterpreted) array symbol
  add, mul, pow(base, exp)    exp is a term
  fn(name, args...)           exp log sin cos abs floor ceil min max sign ...
  ite(c, a, b); cmp(op, a, b) with op in < <= ==; and or not
  big(kind, var, lo, hi, body)   kind in sum prod min max, lo <= var < hi
  lam(vars, sizes, body)      tensor literal
  app(name, lams, scalars)    opaque function of tensors and scalars (inverse, score, transport map, drift ...)
"""
from fractions import Fraction
import itertools

class T:
    __slots__ = ("op", "args", "fv", "h", "sort", "__weakref__")
    def __repr__(self):
        return show(self)

_table = {}
_ctr = itertools.count()

def _mk(op, args, sort, fv):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.fv = fv; t.h = next(_ctr)
        _table[k] = t
    return t

EMPTY = frozenset()

def _fvs(ts):
    r = EMPTY
    for t in ts:
        if t.fv:
            r = r | t.fv if r else t.fv
    return r

_nums = {}
def num(q):
    t = _nums.get(q) if type(q) is int else None
    if t is None:
        t = _num(q)
        if type(q) is int: _nums[q] = t
    return t

def _num(q):
    if type(q) is Fraction: return _mk("num", (q,), "I" if q.denominator == 1 else "R", EMPTY)
    if isinstance(q, bool): q = int(q)
    if isinstance(q, float): q = Fraction(repr(q))
    q = Fraction(q)
    return _mk("num", (q,), "I" if q.denominator == 1 else "R", EMPTY)

def sym(name, sort="R"):
    return _mk("sym", (name, sort), sort, frozenset([name]))

_fresh = itertools.count(1)
RANGE = {}          # bound/index variable name -> (lo term, hi term), lo <= v < hi
def fresh(prefix, sort="I", lo=None, hi=None):
    n = "%s$%d" % (prefix, next(_fresh))
    if lo is not None or hi is not None:
        RANGE[n] = (lo, hi)
    return sym(n, sort)

SIMPLEX = {}        # array symbol -> size symbol: nonnegative entries that sum to one (the refuter draws such values)
ARRSORT = {}        # array symbol -> sort of entries (default R)
def sel(arr, *idx):
    idx = tuple(idx)
    return _mk("sel", (arr,) + idx, ARRSORT.get(arr, "R"), _fvs(idx))

ZERO = num(0); ONE = num(1); MONE = num(-1); HALF = num(Fraction(1, 2)); TWO = num(2)
TRUE = _mk("true", (), "B", EMPTY); FALSE = _mk("false", (), "B", EMPTY)

def isnum(t): return t.op == "num"
def val(t): return t.args[0]

def b2n(t):
    """booleans used as numbers"""
    if t.sort == "B":
        if t is TRUE: return ONE
        if t is FALSE: return ZERO
        return ite(t, ONE, ZERO)
    return t

def add(*ts):
    flat = []; c = 0
    for t in ts:
        t = b2n(t)
        for u in (t.args if t.op == "add" else (t,)):
            if u.op == "num": c = c + u.args[0]
            else: flat.append(u)
    # collect equal terms (cheap: keyed by identity of coefficient-free part)
    acc = {}
    order = []
    for u in flat:
        k, cf = u, 1
        if u.op == "mul" and u.args[0].op == "num":
            cf = u.args[0].args[0]
            rest = u.args[1:]
            k = rest[0] if len(rest) == 1 else _mk("mul", rest, u.sort, _fvs(rest))
        if k not in acc: acc[k] = cf; order.append(k)
        else: acc[k] = acc[k] + cf
    out = []
    for k in order:
        cf = acc[k]
        if cf == 0: continue
        out.append(k if cf == 1 else mul(num(cf), k))
    if c != 0: out.append(num(c))
    if not out: return ZERO
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.h)
    out = tuple(out)
    return _mk("add", out, "I" if all(t.sort == "I" for t in out) else "R", _fvs(out))

def mul(*ts):
    flat = []; c = 1
    for t in ts:
        t = b2n(t)
        for u in (t.args if t.op == "mul" else (t,)):
            if u.op == "num":
                if u is not ONE: c = u.args[0] if c == 1 else c * u.args[0]
            else: flat.append(u)
    if c == 0: return ZERO
    if not flat: return num(c)
    if c != 1 and len(flat) == 1 and flat[0].op == "add":
        return add(*[mul(num(c), u) for u in flat[0].args])
    flat.sort(key=lambda t: t.h)
    if c != 1: flat.insert(0, num(c))
    if len(flat) == 1: return flat[0]
    flat = tuple(flat)
    return _mk("mul", flat, "I" if all(t.sort == "I" for t in flat) else "R", _fvs(flat))

def neg(a): return mul(MONE, a)
def sub(a, b): return add(a, neg(b))

def power(b, e):
    b = b2n(b); e = b2n(e)
    if isnum(e):
        q = val(e)
        if q == 1: return b
        if q == 0: return ONE
        if isnum(b):
            if q.denominator == 1 and (val(b) != 0 or q > 0) and abs(q) < 64:
                return num(val(b) ** int(q))
        if b.op == "pow" and isnum(b.args[1]) and q.denominator == 1 and val(b.args[1]).denominator == 1:
            return power(b.args[0], num(val(b.args[1]) * q))
    s = "I" if (b.sort == "I" and isnum(e) and val(e).denominator == 1 and val(e) >= 0) else "R"
    return _mk("pow", (b, e), s, _fvs((b, e)))

def div(a, b): return mul(a, power(b, MONE))
def sqrt(a): return power(a, HALF)

def fn(name, *args):
    args = tuple(b2n(a) for a in args)
    if name == "exp":
        if args[0] is ZERO: return ONE
    elif name in ("floor", "ceil", "round"):
        a = args[0]
        if a.sort == "I": return a
        if isnum(a):
            import math
            return num({"floor": math.floor, "ceil": math.ceil, "round": round}[name](val(a)))
    elif name == "abs" and isnum(args[0]):
        return num(abs(val(args[0])))
    elif name in ("min", "max"):
        a, b = args
        if a is b: return a
        if isnum(a) and isnum(b):
            return a if (val(a) <= val(b)) == (name == "min") else b
        if a.h > b.h: args = (b, a)
    s = "I" if name in ("floor", "ceil", "round", "idiv", "imod") else ("I" if name in ("abs", "min", "max") and all(a.sort == "I" for a in args) else "R")
    return _mk("fn", (name,) + args, s, _fvs(args))

def lnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "cmp":
        o, x, y = a.args
        if o == "<": return cmp("<=", y, x)
        if o == "<=": return cmp("<", y, x)
    return _mk("not", (a,), "B", a.fv)

def land(*ts):
    out = []
    for t in ts:
        for u in (t.args if t.op == "and" else (t,)):
            if u is FALSE: return FALSE
            if u is TRUE or u in out: continue
            out.append(u)
    for u in out:
        if lnot(u) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.h)
    return _mk("and", tuple(out), "B", _fvs(out))

def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts])) if True else None

def cmp(o, a, b):
    a = b2n(a); b = b2n(b)
    if o == ">": return cmp("<", b, a)
    if o == ">=": return cmp("<=", b, a)
    if o == "!=": return lnot(cmp("==", a, b))
    if a is b: return TRUE if o in ("==", "<=") else FALSE
    d = sub(a, b)
    if isnum(d):
        q = val(d)
        r = {"<": q < 0, "<=": q <= 0, "==": q == 0}[o]
        return TRUE if r else FALSE
    if o in ("<", "<="):
        # comparisons with a minimum or a maximum
        if a.op == "fn" and a.args[0] == "max": return land(cmp(o, a.args[1], b), cmp(o, a.args[2], b))
        if a.op == "fn" and a.args[0] == "min": return lor(cmp(o, a.args[1], b), cmp(o, a.args[2], b))
        if b.op == "fn" and b.args[0] == "min": return land(cmp(o, a, b.args[1]), cmp(o, a, b.args[2]))
        if b.op == "fn" and b.args[0] == "max": return lor(cmp(o, a, b.args[1]), cmp(o, a, b.args[2]))
    if o == "==" and a.h > b.h: a, b = b, a
    return _mk("cmp", (o, a, b), "B", _fvs((a, b)))

def eq(a, b): return cmp("==", a, b)
def lt(a, b): return cmp("<", a, b)
def le(a, b): return cmp("<=", a, b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B" or b.sort == "B":
        a2 = a if a.sort == "B" else cmp("!=", a, ZERO)
        b2 = b if b.sort == "B" else cmp("!=", b, ZERO)
        return lor(land(c, a2), land(lnot(c), b2))
    if c.op == "not": return ite(c.args[0], b, a)
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if a is b: return a
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        if a is c.args[1] and b is c.args[2]: return fn("min", a, b)
        if a is c.args[2] and b is c.args[1]: return fn("max", a, b)
    return _mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R", _fvs((c, a, b)))

def big(kind, v, lo, hi, body):
    body = b2n(body)
    s = "I" if body.sort == "I" and lo.sort == "I" else "R"
    f = (body.fv - frozenset([v.args[0]])) | lo.fv | hi.fv
    RANGE.setdefault(v.args[0], (lo, hi))
    return _mk("big", (kind, v, lo, hi, body), s, f)

def bigf(kind, n, f, lo=ZERO, prefix="q"):
    """big operator with a fresh variable: body given as a python function of the variable"""
    v = fresh(prefix, "I", lo, n)
    return big(kind, v, lo, n, f(v))

def lam(vs, sizes, body):
    body = b2n(body)
    for v, s in zip(vs, sizes): RANGE.setdefault(v.args[0], (ZERO, s))
    f = body.fv - frozenset(v.args[0] for v in vs)
    for s in sizes: f = f | s.fv
    return _mk("lam", (tuple(vs), tuple(sizes), body), "L", f)

def lamf(sizes, f, prefix="a"):
    vs = [fresh(prefix, "I", ZERO, s) for s in sizes]
    return lam(vs, sizes, f(*vs))

APPSORT = {}
def app(name, lams=(), scalars=()):
    lams = tuple(lams); scalars = tuple(b2n(s) for s in scalars)
    return _mk("app", (name, lams, scalars), APPSORT.get(name, "R"), _fvs(lams) | _fvs(scalars))

# ---------------------------------------------------------------- substitution
def subst(t, m, _memo=None):
    """capture-avoiding substitution; m: name -> term"""
    if not m: return t
    keys = frozenset(m)
    memo = {} if _memo is None else _memo
    def go(t):
        if not (t.fv & keys): return t
        r = memo.get(t)
        if r is not None: return r
        op = t.op; a = t.args
        if op == "sym": r = m.get(a[0], t)
        elif op == "sel": r = sel(a[0], *[go(x) for x in a[1:]])
        elif op == "add": r = add(*[go(x) for x in a])
        elif op == "mul": r = mul(*[go(x) for x in a])
        elif op == "pow": r = power(go(a[0]), go(a[1]))
        elif op == "fn": r = fn(a[0], *[go(x) for x in a[1:]])
        elif op == "ite": r = ite(go(a[0]), go(a[1]), go(a[2]))
        elif op == "cmp": r = cmp(a[0], go(a[1]), go(a[2]))
        elif op == "and": r = land(*[go(x) for x in a])
        elif op == "not": r = lnot(go(a[0]))
        elif op == "big":
            k, v, lo, hi, body = a
            lo2, hi2 = go(lo), go(hi)
            v2 = fresh(v.args[0].split("$")[0], "I", lo2, hi2)
            m2 = {k2: x for k2, x in m.items() if k2 != v.args[0]}
            m2[v.args[0]] = v2
            r = big(k, v2, lo2, hi2, subst(body, m2))
        elif op == "lam":
            vs, sizes, body = a
            s2 = [go(s) for s in sizes]
            v2 = [fresh(v.args[0].split("$")[0], "I", ZERO, s) for v, s in zip(vs, s2)]
            m2 = {k2: x for k2, x in m.items() if k2 not in [v.args[0] for v in vs]}
            for v, w in zip(vs, v2): m2[v.args[0]] = w
            r = lam(v2, s2, subst(body, m2))
        elif op == "app":
            r = app(a[0], [go(x) for x in a[1]], [go(x) for x in a[2]])
        else:
            raise AssertionError(op)
        memo[t] = r
        return r
    return go(t)

def rebuild(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term or None (keep). Bound variables are kept as they are
    (all bound variables are globally unique, so this is safe as long as f introduces no captured ones)."""
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op; a = t.args
        if op in ("num", "sym", "true", "false"): u = t
        elif op == "sel": u = sel(a[0], *[go(x) for x in a[1:]])
        elif op == "add": u = add(*[go(x) for x in a])
        elif op == "mul": u = mul(*[go(x) for x in a])
        elif op == "pow": u = power(go(a[0]), go(a[1]))
        elif op == "fn": u = fn(a[0], *[go(x) for x in a[1:]])
        elif op == "ite": u = ite(go(a[0]), go(a[1]), go(a[2]))
        elif op == "cmp": u = cmp(a[0], go(a[1]), go(a[2]))
        elif op == "and": u = land(*[go(x) for x in a])
        elif op == "not": u = lnot(go(a[0]))
        elif op == "big": u = big(a[0], a[1], go(a[2]), go(a[3]), go(a[4]))
        elif op == "lam": u = lam(a[0], [go(s) for s in a[1]], go(a[2]))
        elif op == "app": u = app(a[0], [go(x) for x in a[1]], [go(x) for x in a[2]])
        else: raise AssertionError(op)
        r = f(u)
        if r is None: r = u
        memo[t] = r
        return r
    return go(t)

_canon = {}
def canon(t):
    """the term with its bound variables renamed by nesting height: equal for terms equal up to renaming"""
    r = _canon.get(t)
    if r is None:
        _canon[t] = r = _canon1(t)[0]
    return r
_c1 = {}
def _canon1(t):
    r = _c1.get(t)
    if r is not None: return r
    op = t.op; a = t.args
    if op in ("num", "sym", "true", "false"): r = (t, 0)
    elif op in ("big", "lam"):
        vs, his = ([a[1]], [a[3]]) if op == "big" else (a[0], a[1])
        lo = _canon1(a[2]) if op == "big" else (None, 0)
        his = [_canon1(x) for x in his]
        body, h = _canon1(a[-1])
        h = max([h, lo[1]] + [x[1] for x in his])
        w = [sym("bv$%d" % (h + 1 + k), "I") for k in range(len(vs))]
        body = rebuild_vars(body, {v.args[0]: x for v, x in zip(vs, w)})
        h += len(vs)
        if op == "big": r = (_mk("big", (a[0], w[0], lo[0], his[0][0], body), t.sort, t.fv), h)
        else: r = (_mk("lam", (tuple(w), tuple(x[0] for x in his), body), "L", t.fv), h)
    else:
        h = 0; out = []
        for x in a:
            if isinstance(x, T): y, k = _canon1(x)
            elif isinstance(x, tuple):
                ys = [_canon1(z) for z in x]; y = tuple(z[0] for z in ys); k = max([z[1] for z in ys], default=0)
            else: y, k = x, 0
            h = max(h, k); out.append(y)
        r = (_mk(op, tuple(out), t.sort, t.fv), h)
    _c1[t] = r
    return r

def rebuild_vars(t, m):
    """replace symbols structurally (no simplification; the new names occur nowhere else)"""
    memo = {}; keys = set(m)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == "sym": r = m.get(t.args[0], t)
        else:
            out = []
            for x in t.args:
                if isinstance(x, T): y = go(x)
                elif isinstance(x, tuple): y = tuple(go(z) for z in x)
                else: y = x
                out.append(y)
            r = _mk(t.op, tuple(out), t.sort, t.fv)
        memo[t] = r
        return r
    return go(t)

def children(t):
    op = t.op; a = t.args
    if op in ("num", "sym", "true", "false"): return ()
    if op in ("sel", "fn", "cmp"): return a[1:]
    if op in ("add", "mul", "pow", "ite", "and", "not"): return a
    if op == "big": return a[2:]
    if op == "lam": return tuple(a[1]) + (a[2],)
    if op == "app": return tuple(a[1]) + tuple(a[2])
    raise AssertionError(op)

def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        yield u
        st.extend(children(u))

def apply_lam(l, *idx):
    vs, sizes, body = l.args
    return subst(body, {v.args[0]: i for v, i in zip(vs, idx)})

def show(t, d=0):
    op = t.op; a = t.args
    if d > 14: return "..."
    s = lambda x: show(x, d + 1)
    if op == "num": return str(a[0])
    if op == "sym": return a[0]
    if op == "sel": return "%s[%s]" % (a[0], ",".join(map(s, a[1:])))
    if op == "add": return "(" + " + ".join(map(s, a)) + ")"
    if op == "mul": return "(" + "*".join(map(s, a)) + ")"
    if op == "pow": return "%s^%s" % (s(a[0]), s(a[1]))
    if op == "fn": return "%s(%s)" % (a[0], ",".join(map(s, a[1:])))
    if op == "ite": return "if(%s, %s, %s)" % tuple(map(s, a))
    if op == "cmp": return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "and": return "(" + " & ".join(map(s, a)) + ")"
    if op == "not": return "!" + s(a[0])
    if op == "big": return "%s{%s in %s..%s}(%s)" % (a[0], a[1].args[0], s(a[2]), s(a[3]), s(a[4]))
    if op == "lam": return "[%s]->(%s)" % (",".join(v.args[0] for v in a[0]), s(a[2]))
    if op == "app": return "%s{%s}(%s)" % (a[0], "; ".join(map(s, a[1])), ", ".join(map(s, a[2])))
    return op
