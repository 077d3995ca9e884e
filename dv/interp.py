"""Symbolic execution of the real source (Python AST) of /repo.

Every function is executed from its source text in the working tree: nothing is re-typed or extracted by hand.
Loops of symbolic length are replaced by an inferred, exact summary (running sums / products, last values,
independent element writes, slice recurrences); whatever is outside the supported subset raises Unsupported,
which makes the obligation undecided (never proved, never a violation).
"""
import ast, os, time
from . import terms as tm
from .terms import *
from .values import *
from . import solver, norm

class Return(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass
class Infeasible(Exception): pass

UNROLL = 12
DEFS = {}            # recursively defined arrays: name -> (vs, body)
DEFINFO = {}
DRAWS = {}           # draw symbol -> dict(kind=..., nidx=...)
UNK = set()          # symbols standing for values the summariser could not determine
ENTROPY = set()      # symbols of values outside the program's control (clock, os entropy)

class Machine:
    def __init__(self, repo, base_ctx=(), contracts=None, verbose=False):
        self.repo = repo
        self.heap = {}
        self.nid = [0]
        self.ctx = list(base_ctx)
        self.dec = None
        self.fid = None
        self.loopidx = []; self.reread = set()
        self.mods = {}
        self.contracts = contracts or {}
        self.obligations = []      # (name, ctx, goal)
        self.calls = []            # log of contract calls and library effects
        self.effects = []
        self.depth = 0
        self.functions = {}        # qualified name -> file:line of every repo function executed
        self.lines = set()
        self.t0 = time.time()
        self.budget = 240
        self.skip_contract = None
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ heap
    def new(self, payload):
        self.nid[0] += 1
        self.heap[self.nid[0]] = payload
        return self.nid[0]
    def snap(self): return (dict(self.heap), list(self.ctx), self.fid, list(self.loopidx), self.depth)
    def restore(self, s):
        self.heap = dict(s[0]); self.ctx = list(s[1]); self.fid = s[2]; self.loopidx = list(s[3]); self.depth = s[4]

    # ------------------------------------------------------------ frames
    def new_frame(self, parent, mod, name):
        return self.new({"$parent": parent, "$mod": mod, "$name": name, "$globals": frozenset(), "$nonlocals": frozenset()})
    def setvar(self, name, v, fid=None):
        fid = self.fid if fid is None else fid
        fr = self.heap[fid]
        if name in fr["$globals"]:
            fid = self.modframe(fr["$mod"]); fr = self.heap[fid]
            self.effects.append(("global-write", name))
        elif name in fr["$nonlocals"]:
            p = fr["$parent"]
            while p is not None and name not in self.heap[p]: p = self.heap[p]["$parent"]
            if p is None: raise Unsupported("nonlocal " + name)
            fid = p; fr = self.heap[p]
        fr = dict(fr); fr[name] = v
        self.heap[fid] = fr
    def getvar_at(self, fid, name):
        v = self.heap[fid][name]
        if isinstance(v, Poison): raise Unsupported("use of %s: %s" % (name, v.why))
        return v
    def getvar(self, name):
        f = self.fid
        if name in self.heap[f]["$globals"]:
            f = self.modframe(self.heap[f]["$mod"])
        while f is not None:
            fr = self.heap[f]
            if name in fr:
                v = fr[name]
                if isinstance(v, Poison): raise Unsupported("use of %s: %s" % (name, v.why))
                return v
            f = fr["$parent"]
        b = self.lib.builtin(name)
        if b is not None: return b
        raise PyRaise("NameError", name)
    def modframe(self, mod): return self.mods[mod].fid

    # ------------------------------------------------------------ decisions
    def valid(self, c): return solver.valid(self.ctx, c)
    def feasible(self, c): return solver.feasible(solver.relevant(self.ctx, c), c)

    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if time.time() - self.t0 > self.budget: raise Unsupported("time budget")
        if self.valid(c): return True
        if self.valid(lnot(c)): return False
        if self.dec is None: raise Unsupported("branch outside exploration")
        b = self.dec.next(c)
        self.ctx.append(c if b else lnot(c))
        return b

    def explore(self, fn, limit=200):
        """all feasible paths of fn(): list of (path conditions, outcome, state)"""
        out = []
        s0 = self.snap(); dec0 = self.dec
        n0 = len(self.ctx); c0 = len(self.calls)
        work = [[]]
        try:
            while work:
                script = work.pop()
                self.restore(s0)
                d = Decider(script); self.dec = d; c1 = len(self.calls)
                try:
                    r = ("ok", fn())
                except Return as e: r = ("return", e.v)
                except Break: r = ("break", None)
                except Continue: r = ("ok", None)
                except PyRaise as e: r = ("raise", e)
                out.append((list(self.ctx[n0:]), r, self.snap() + (self.calls[:c0] + self.calls[c1:],)))      # the calls of this path alone
                for i in range(len(script), len(d.taken)):
                    work.append(d.taken[:i] + [not d.taken[i]])
                if len(out) > limit: raise Unsupported("too many paths")
        finally:
            self.restore(s0); self.dec = dec0
        return out

    # ------------------------------------------------------------ modules
    def load(self, rel):
        """load a module of the repository by path relative to the repository root"""
        if rel in self.mods: return self.mods[rel]
        path = os.path.join(self.repo, rel)
        return self.load_source(rel, open(path).read())

    def load_source(self, rel, src):
        tree = ast.parse(src)
        name = rel[:-3].replace("/", ".")
        if name.endswith(".__init__"): name = name[:-9]
        m = ModV(name, rel)
        self.mods[rel] = m
        old = self.fid
        m.fid = self.new_frame(None, rel, name)
        self.fid = m.fid
        self.setvar("__name__", name)
        try:
            for st in tree.body:
                try:
                    self.stmt(st)
                except Unsupported as e:
                    # a top-level statement we cannot execute: names it binds become unusable
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.setvar(n.id, Poison("top-level statement: %s" % e))
        finally:
            self.fid = old
        return m

    def pkgdir(self): return "DeterministicParticleFlowControl"

    def resolve(self, cur, level, modname):
        """path of a repo module or None"""
        if level:
            d = os.path.dirname(cur)
            for _ in range(level - 1): d = os.path.dirname(d)
            cands = [d]
        else:
            cands = ["", self.pkgdir(), self.pkgdir() + "/score_estimators"]
        for d in cands:
            p = os.path.join(d, *(modname.split(".") if modname else []))
            for c in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.exists(os.path.join(self.repo, c)): return os.path.normpath(c)
        return None

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body: self.stmt(s)

    def stmt(self, s):
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None: raise Unsupported("statement " + k)
        self.lines.add((self.heap[self.fid]["$mod"], s.lineno))
        return f(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Return(self, s): raise Return(self.ev(s.value) if s.value else None)
    def s_Break(self, s): raise Break()
    def s_Continue(self, s): raise Continue()
    def s_Global(self, s):
        fr = dict(self.heap[self.fid]); fr["$globals"] = fr["$globals"] | frozenset(s.names); self.heap[self.fid] = fr
    def s_Nonlocal(self, s):
        fr = dict(self.heap[self.fid]); fr["$nonlocals"] = fr["$nonlocals"] | frozenset(s.names); self.heap[self.fid] = fr
    def s_Import(self, s):
        for a in s.names:
            p = self.resolve("", 0, a.name)
            if p:
                m = self.load(p); self.setvar(a.asname or a.name.split(".")[0], m)
            else:
                self.setvar(a.asname or a.name.split(".")[0], Lib(a.name if a.asname else a.name.split(".")[0]))
    def s_ImportFrom(self, s):
        cur = self.heap[self.fid]["$mod"]
        p = self.resolve(cur, s.level, s.module or "")
        for a in s.names:
            if p:
                if a.name == "*":
                    m = self.load(p)
                    fr = self.heap[m.fid]
                    names = [n for n in fr if not n.startswith("_") and not n.startswith("$")]
                    if "__all__" in fr and isinstance(fr["__all__"], ListRef):
                        names = [x for x in self.heap[fr["__all__"].lid] if isinstance(x, str)]
                    for n in names:
                        if n in fr: self.setvar(n, fr[n])
                    continue
                m = self.load(p)
                fr = self.heap[m.fid]
                if a.name in fr: self.setvar(a.asname or a.name, fr[a.name])
                else:
                    q = self.resolve(cur, s.level, ((s.module + ".") if s.module else "") + a.name)
                    if q: self.setvar(a.asname or a.name, self.load(q))
                    else: self.setvar(a.asname or a.name, Poison("import of " + a.name))
            else:
                if a.name != "*": self.setvar(a.asname or a.name, Lib((s.module or "") + "." + a.name))
    def s_If(self, s):
        if self.truth(self.ev(s.test)): self.block(s.body)
        else: self.block(s.orelse)
    def s_Assert(self, s):
        c = self.truth_term(self.ev(s.test))
        if not self.decide(c): raise PyRaise("AssertionError", "line %d" % s.lineno)
    def s_Raise(self, s):
        n = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = e.id if isinstance(e, ast.Name) else ast.unparse(e)
        raise PyRaise(n, "raised at line %d" % s.lineno)
    def s_Try(self, s):
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or isinstance(h.type, ast.Name) and h.type.id in (e.name, "Exception") or \
                   isinstance(h.type, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == e.name for x in h.type.elts):
                    if h.name: self.setvar(h.name, Ignored("exception"))
                    self.block(h.body)
                    break
            else:
                self.block(s.finalbody); raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)
    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if not isinstance(v, Ignored): raise Unsupported("with")
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        self.block(s.body)
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = dict(self.heap[self.fid]); fr.pop(t.id, None); self.heap[self.fid] = fr
            else: raise Unsupported("del")
    def s_FunctionDef(self, s):
        self.setvar(s.name, self.mkfn(s, s.name))
    def mkfn(self, s, name, prefix=""):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else NOTIMPL for d in a.kw_defaults]
        fr = self.heap[self.fid]
        owner = fr["$name"]
        qual = (prefix + name)
        f = FnV(s, self.fid, name, defaults, kwd, fr["$mod"], qual)
        for d in getattr(s, "decorator_list", []):
            f = self.decorate(d, f)
        return f
    def decorate(self, d, f):
        base = d.func if isinstance(d, ast.Call) else d
        txt = ast.unparse(base)
        if txt.split(".")[-1] in ("njit", "jit", "no_grad", "lru_cache_disabled"): 
            v = self.ev(base)
            if isinstance(v, Lib) and v.name.split(".")[0] in ("numba", "torch"): return f
        if txt in ("staticmethod", "classmethod", "property"):
            return ("deco", txt, f)
        raise Unsupported("decorator " + txt)
    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        attrs = {}
        fr = self.new_frame(self.fid, self.heap[self.fid]["$mod"], s.name)
        old = self.fid; self.fid = fr
        try:
            for st in s.body:
                if isinstance(st, ast.FunctionDef):
                    f = self.mkfn(st, st.name, s.name + ".")
                    if isinstance(f, FnV): f.fid = old
                    elif isinstance(f, tuple): f[2].fid = old
                    attrs[st.name] = f
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): pass
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    attrs[st.targets[0].id] = self.ev(st.value)
                    self.setvar(st.targets[0].id, attrs[st.targets[0].id])
                elif isinstance(st, (ast.Pass, ast.AnnAssign)): pass
                else: raise Unsupported("class body")
        finally:
            self.fid = old
        cid = self.new(attrs)
        self.setvar(s.name, ClassV(s.name, cid, self.heap[self.fid]["$mod"], bases))
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.getvar(t.id)
            r = self.ev(s.value)
            if isinstance(old, Arr):
                self.lib.inplace(self, old, self.binop(op, old, r))
            elif isinstance(old, ListRef) and op == "Add":
                self.lib.list_extend(self, old, r)
            else:
                self.setvar(t.id, self.binop(op, old, r))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            r = self.ev(s.value)
            if isinstance(old, Arr): self.lib.inplace(self, old, self.binop(op, old, r))
            elif isinstance(old, ListRef) and op == "Add": self.lib.list_extend(self, old, r)
            else: self.setattr(o, t.attr, self.binop(op, old, r))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            if isinstance(o, Arr) and self.lib.is_mask(self, k if isinstance(k, tuple) else (k,)):
                v = self.ev(s.value)
                if not isinstance(v, Sc): raise Unsupported("masked update")
                def new(T):
                    R = self.lib.ten(self, self.binop(op, o, v))
                    return R.f, R.ty
                return self.lib.masked(self, o, k[0] if isinstance(k, tuple) else k, new)
            old = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, old, self.ev(s.value)))
        else: raise Unsupported("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name): self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                it = self.iterate(v)
                if not isinstance(it, list): raise Unsupported("starred target")
                i = st[0]; k = len(t.elts) - i - 1
                if len(it) < len(t.elts) - 1: raise PyRaise("ValueError", "unpack")
                for e, x in zip(t.elts[:i], it): self.assign(e, x)
                self.assign(t.elts[i].value, ListRef(self.new(tuple(it[i:len(it) - k]))))
                for e, x in zip(t.elts[i + 1:], it[len(it) - k:]): self.assign(e, x)
                return
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs): self.assign(e, x)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        else: raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n: raise PyRaise("ValueError", "unpack %d into %d" % (len(v), n))
            return list(v)
        if isinstance(v, ListRef) and isinstance(self.heap[v.lid], tuple):
            return self.unpack(self.heap[v.lid], n)
        it = self.iterate(v)
        if isinstance(it, list):
            return self.unpack(tuple(it), n)
        if not self.valid(eq(it.n, num(n))): raise Unsupported("unpacking a sequence of unknown length")
        return [it.elem(num(i)) for i in range(n)]

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.iterate(self.ev(s.iter))
        if isinstance(it, Seq) and isnum(it.n) and val(it.n) <= UNROLL:
            it = [it.elem(num(i)) for i in range(int(val(it.n)))]
        if isinstance(it, list):
            for x in it:
                self.assign(s.target, x)
                try: self.block(s.body)
                except Break: break
                except Continue: pass
            else: self.block(s.orelse)
            return
        if not isinstance(it, Seq): raise Unsupported("iteration")
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        fid = self.fid
        def body(i):
            self.assign(s.target, it.elem(i))
            try: self.block(s.body)
            except Continue: pass
        r = self.summarise(it.n, body, {("var", fid, n) for n in targets})
        # value of the loop variable after the loop
        if r is not None:
            try: self.assign(s.target, it.elem(r))
            except (Unsupported, PyRaise):
                for n in targets: self.setvar(n, Poison("loop variable after the loop"))
            return
        if self.valid(lt(ZERO, it.n)):
            try: self.assign(s.target, it.elem(sub(it.n, ONE)))
            except (Unsupported, PyRaise):
                for n in targets: self.setvar(n, Poison("loop variable after the loop"))
        else:
            for n in targets: self.setvar(n, Poison("loop variable after the loop"))
        self.block(s.orelse)

    def s_While(self, s):
        # concrete conditions are simply executed; counting loops are converted to for loops
        n = 0
        while True:
            c = self.truth_term(self.ev(s.test))
            if c is FALSE: return self.block(s.orelse)
            if c is TRUE and n < 64:
                n += 1
                try: self.block(s.body)
                except Break: return
                except Continue: pass
                continue
            break
        conv = self.while_to_for(s)
        if conv is None: raise Unsupported("while loop")
        var, start, count, step, body = conv
        fid = self.fid
        def run(i):
            self.setvar(var, Sc(add(start, mul(i, step)), "int"))
            try: self.block(body)
            except Continue: raise Unsupported("continue in while")
        r = self.summarise(count, run, {("var", fid, var)})
        self.setvar(var, Sc(add(start, mul(count if r is None else r, step)), "int"))
        if r is None: self.block(s.orelse)

    def while_to_for(self, s):
        """while v < bound: ...; v += c   (v not otherwise assigned, bound loop invariant)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)): return None
        v = t.left.id
        last = s.body[-1]
        step = None
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.value, ast.Constant):
            step = last.value.value if isinstance(last.op, ast.Add) else -last.value.value if isinstance(last.op, ast.Sub) else None
        elif isinstance(last, ast.Assign) and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.left, ast.Name) and last.value.left.id == v and isinstance(last.value.right, ast.Constant):
            step = last.value.right.value if isinstance(last.value.op, ast.Add) else -last.value.right.value if isinstance(last.value.op, ast.Sub) else None
        if step not in (1, -1): return None
        for st in s.body[:-1]:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store): return None
                if isinstance(n, ast.Continue): return None
        st_v = self.getvar(v); bound = self.ev(t.comparators[0])
        if not (isinstance(st_v, Sc) and isinstance(bound, Sc)): return None
        names = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Store): return None
        o = type(t.ops[0]).__name__
        a, b = st_v.t, bound.t
        if a.sort != "I" or b.sort != "I": return None
        if step == 1 and o == "Lt": n = sub(b, a)
        elif step == 1 and o == "LtE": n = add(sub(b, a), ONE)
        elif step == -1 and o == "Gt": n = sub(a, b)
        elif step == -1 and o == "GtE": n = add(sub(a, b), ONE)
        else: return None
        if not self.valid(le(ZERO, n)): n = fn("max", n, ZERO)
        return v, a, n, num(step), s.body[:-1]

    def summarise(self, n, body, ignore=frozenset()):
        from .loops import summarise
        return summarise(self, n, body, ignore)

    def iterate(self, v):
        """python list of values, or Seq"""
        if isinstance(v, list): return v
        if isinstance(v, tuple): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, RangeV):
            if isnum(v.s) and abs(val(v.s)) == 1:
                n = sub(v.b, v.a) if val(v.s) == 1 else sub(v.a, v.b)
            elif isnum(v.s) and isnum(v.a) and isnum(v.b):
                n = num(len(range(int(val(v.a)), int(val(v.b)), int(val(v.s)))))
            elif isnum(v.s) and val(v.s) > 0:
                n = fn("ceil", div(sub(v.b, v.a), v.s))
            else: raise Unsupported("range step")
            if isnum(n): n = num(max(0, val(n)))
            elif not self.valid(le(ZERO, n)): n = fn("max", n, ZERO)
            return Seq(n, lambda i: Sc(add(v.a, mul(i, v.s)), "int"))
        if isinstance(v, Seq): return v
        if isinstance(v, SymList): return Seq(v.n, v.elem)
        if isinstance(v, ListRef):
            p = self.heap[v.lid]
            if isinstance(p, tuple): return list(p)
            if isinstance(p, SymList): return Seq(p.n, p.elem)
            raise Unsupported("iteration over a list under construction")
        if isinstance(v, DictRef): return [self.unkey(k) for k in self.heap[v.did]]
        if isinstance(v, Arr):
            if not v.shape: raise PyRaise("TypeError", "iteration over a 0-d array")
            return Seq(v.shape[0], lambda i: self.lib.index(self, v, (Sc(i, "int"),)))
        raise Unsupported("iteration over %s" % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None: raise Unsupported("expression " + type(e).__name__)
        return f(e)

    def e_Constant(self, e):
        v = e.value
        if v is None or isinstance(v, str): return v
        if isinstance(v, bool): return TRUEV if v else FALSEV
        if isinstance(v, int): return Sc(num(v), "int")
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")): raise Unsupported("inf/nan literal")
            return Sc(num(v), "float")
        if v is Ellipsis: return ELLIPSIS
        raise Unsupported("constant")
    def e_Name(self, e): return self.getvar(e.id)
    def e_Tuple(self, e): return tuple(self.elts(e.elts))
    def e_List(self, e): return ListRef(self.new(tuple(self.elts(e.elts))))
    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value))
                if isinstance(it, Seq):
                    if not isnum(it.n): raise Unsupported("starred of symbolic length")
                    it = [it.elem(num(i)) for i in range(int(val(it.n)))]
                out += it
            else: out.append(self.ev(x))
        return out
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported("dict **")
            kk = self.ev(k)
            d[self.hashable(kk, d)] = self.ev(v)
        return DictRef(self.new(d))
    def hashable(self, k, d=None):
        """the dictionary key of a value; symbolic numbers become terms, and are compared (splitting the path) with the keys of d"""
        k = self.plainkey(k)
        if d is None or k in d: return k
        for q in d:
            c = self.samekey(k, q)
            if c is not None and self.decide(c): return q
        return k
    def unkey(self, k):
        if isinstance(k, tm.T): return Sc(k, "int" if k.sort == "I" else "float")
        if isinstance(k, Fraction): return Sc(num(k), "int" if k.denominator == 1 else "float")
        if isinstance(k, tuple): return tuple(self.unkey(x) for x in k)
        return k
    def samekey(self, a, b):
        """condition under which two keys are equal, None if they never are"""
        num_ = lambda x: isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)
        if isinstance(a, tm.T) or isinstance(b, tm.T):
            ta, tb = (x if isinstance(x, tm.T) else num(x) if num_(x) else None for x in (a, b))
            return None if ta is None or tb is None else eq(ta, tb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return None
            cs = [self.samekey(x, y) for x, y in zip(a, b)]
            return None if any(c is None for c in cs) else land(*cs)
        return TRUE if a == b else None
    def plainkey(self, k):
        if isinstance(k, Sc) and k.lib != "torch" and k.ty in ("int", "float"): return val(k.t) if isnum(k.t) else k.t
        if isinstance(k, Sc) and isnum(k.t): return val(k.t)
        if isinstance(k, str) or k is None: return k
        if isinstance(k, tuple): return tuple(self.plainkey(x) for x in k)
        raise Unsupported("symbolic key")
    def e_JoinedStr(self, e):
        return Ignored("string")
    def e_Lambda(self, e):
        return self.mkfn(e, "<lambda>")
    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)
    def e_Starred(self, e): raise Unsupported("starred")
    def e_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def e_UnaryOp(self, e):
        o = type(e.op).__name__
        v = self.ev(e.operand)
        if o == "Not": return Sc(lnot(self.truth_term(v)), "bool")
        if o == "USub":
            return self.lib.ew1(self, lambda t: neg(t), v)
        if o == "UAdd": return v
        if o == "Invert":
            if isinstance(v, Sc) and v.ty == "bool" and v.lib == "py": raise Unsupported("~bool")
            return self.lib.ew1(self, lambda t: lnot(t if t.sort == "B" else cmp("!=", t, ZERO)), v, "bool")
        raise Unsupported(o)
    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
    def binop(self, op, a, b): return self.lib.binop(self, op, a, b)
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.truth_term(v)
            if c is TRUE or c is FALSE or self.valid(c) or self.valid(lnot(c)):
                t = c is TRUE or (c is not FALSE and self.valid(c))
                if isand != t: return v
                v = self.ev(x); continue
            if isinstance(v, Sc) and v.ty == "bool":
                n = len(self.ctx)
                h0 = dict(self.heap)
                self.ctx.append(c if isand else lnot(c))
                try:
                    w = self.ev(x)
                finally:
                    del self.ctx[n:]
                if isinstance(w, Sc) and w.ty == "bool":
                    v = Sc(land(c, w.t) if isand else lor(c, w.t), "bool", w.lib if w.lib == v.lib else "np")
                    continue
                self.heap = h0
            t = self.decide(c)
            if isand != t: return v
            v = self.ev(x)
        return v
    def e_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for o, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            x = self.compare(type(o).__name__, l, rv)
            res = x if res is None else self.lib.logical(self, "and", res, x)
            l = rv
        return res
    def compare(self, o, a, b):
        if o in ("Is", "IsNot"):
            r = self.same_obj(a, b)
            return (TRUEV if r else FALSEV) if o == "Is" else (FALSEV if r else TRUEV)
        if o in ("In", "NotIn"):
            if isinstance(b, DictRef):
                k = self.plainkey(a)
                c = lor(*([x for x in (self.samekey(k, q) for q in self.heap[b.did]) if x is not None] or [FALSE]))
                return Sc(c if o == "In" else lnot(c), "bool")
            it = self.iterate(b)
            if not isinstance(it, list): raise Unsupported("in")
            c = lor(*[self.truth_term(self.compare("Eq", a, x)) for x in it]) if it else FALSE
            return Sc(c if o == "In" else lnot(c), "bool")
        return self.lib.compare(self, {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[o], a, b)
    def same_obj(self, a, b):
        if a is b: return True
        if a is None or b is None: return False
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty == b.ty == "bool" and a.t in (TRUE, FALSE) and b.t in (TRUE, FALSE): return a.t is b.t
            if isnum(a.t) and isnum(b.t) and a.ty == b.ty: return val(a.t) == val(b.t)
            if (a.t in (TRUE, FALSE)) != (b.t in (TRUE, FALSE)): return False
            raise Unsupported("identity of symbolic scalars")
        if isinstance(a, Lib) and isinstance(b, Lib): return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.cid != b.cid: return False
            return a.vm == b.vm
        if isinstance(a, ListRef) and isinstance(b, ListRef): return a.lid == b.lid
        if isinstance(a, str) and isinstance(b, str): return a == b
        if type(a) != type(b): return False
        raise Unsupported("is")
    def truth_term(self, v):
        if v is None: return FALSE
        if isinstance(v, Sc): return v.t if v.t.sort == "B" else cmp("!=", v.t, ZERO)
        if isinstance(v, str): return TRUE if v else FALSE
        if isinstance(v, tuple): return TRUE if v else FALSE
        if isinstance(v, ListRef):
            p = self.heap[v.lid]
            if isinstance(p, tuple): return TRUE if p else FALSE
            if isinstance(p, SymList): return lt(ZERO, p.n)
        if isinstance(v, DictRef): return TRUE if self.heap[v.did] else FALSE
        if isinstance(v, Arr):
            if all(s is ONE for s in v.shape):
                t = self.lib.read(self, v, [ZERO] * len(v.shape))
                return t if t.sort == "B" else cmp("!=", t, ZERO)
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(v, (FnV, Bound, Lib, ClassV, Inst, OpaqueFn, SpecFn, ModV)): return TRUE
        raise Unsupported("truth of %s" % type(v).__name__)
    def truth(self, v): return self.decide(self.truth_term(v))

    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)
    def getattr(self, o, n):
        if isinstance(o, Inst):
            a = self.heap[o.iid]
            if n in a:
                if isinstance(a[n], Poison): raise Unsupported("use of attribute %s: %s" % (n, a[n].why))
                return a[n]
            v = self.classattr(o.cls, n)
            if v is NOTIMPL:
                if n == "__dict__": raise Unsupported("__dict__")
                if n == "__class__": return o.cls
                raise PyRaise("AttributeError", n)
            if isinstance(v, FnV): return Bound(v, o)
            if isinstance(v, tuple) and v and v[0] == "deco":
                if v[1] == "staticmethod": return v[2]
                if v[1] == "classmethod": return Bound(v[2], o.cls)
                if v[1] == "property": return self.call(Bound(v[2], o), [], {})
            return v
        if isinstance(o, ClassV):
            v = self.classattr(o, n)
            if v is NOTIMPL: raise Unsupported("class attribute " + n)
            if isinstance(v, tuple) and v and v[0] == "deco":
                return Bound(v[2], o) if v[1] == "classmethod" else v[2]
            return v
        if isinstance(o, ModV):
            fr = self.heap[o.fid]
            if n in fr:
                if isinstance(fr[n], Poison): raise Unsupported("use of %s: %s" % (n, fr[n].why))
                return fr[n]
            p = self.resolve("", 0, o.name + "." + n)
            if p: return self.load(p)
            raise PyRaise("AttributeError", n)
        if isinstance(o, Lib): return self.lib.libattr(self, o, n)
        return self.lib.getattr(self, o, n)
    def classattr(self, c, n):
        at = self.heap[c.attrs]
        if n in at: return at[n]
        for b in c.bases:
            if isinstance(b, ClassV):
                v = self.classattr(b, n)
                if v is not NOTIMPL: return v
        return NOTIMPL
    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            a = dict(self.heap[o.iid]); a[n] = v; self.heap[o.iid] = a
        elif isinstance(o, ClassV):
            a = dict(self.heap[o.attrs]); a[n] = v; self.heap[o.attrs] = a
            self.effects.append(("class-write", o.name + "." + n))
        elif isinstance(o, ModV):
            self.effects.append(("global-write", n)); self.setvar(n, v, o.fid)
        elif isinstance(o, Arr) and n == "shape":
            raise Unsupported("shape assignment")
        elif isinstance(o, (FnV, Lib)):
            raise Unsupported("attribute assignment on a function")
        else: raise Unsupported("setattr")

    def e_Subscript(self, e): return self.getitem(self.ev(e.value), self.ev_index(e.slice))
    def ev_index(self, s):
        if isinstance(s, ast.Tuple): return tuple(self.ev_index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s)
    def getitem(self, o, k):
        if isinstance(o, Lib) and o.name in ("numpy.c_", "numpy.r_"): return self.lib.rc_(self, o.name, k)
        if isinstance(o, Arr): return self.lib.index(self, o, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (tuple, ListRef, str, SymList)):
            p = o if isinstance(o, (tuple, str, SymList)) else self.heap[o.lid]
            if isinstance(k, SliceV):
                if isinstance(p, (tuple, str)):
                    f = lambda x: None if x is None else self.conc_int(x)
                    r = p[slice(f(k.a), f(k.b), f(k.s))]
                    return ListRef(self.new(r)) if isinstance(o, ListRef) else r
                raise Unsupported("slice of symbolic list")
            if isinstance(p, PreList):
                if p.n is None: raise ListRead(o.lid)
                if not isinstance(k, Sc) or k.ty != "int": raise PyRaise("TypeError", "list index")
                d = k.t if isnum(k.t) and val(k.t) < 0 else sub(k.t, add(p.n, num(len(p.items))))     # place counted from the end
                if isnum(d) and -len(p.items) <= val(d) < 0: return p.items[int(val(d))]
                if p.items or d is not MONE: raise ListRead(o.lid)
                return self.getvar_at(*p.last)
            if not isinstance(k, Sc): raise PyRaise("TypeError", "list index")
            if isinstance(p, (tuple, str)):
                if isnum(k.t):
                    i = int(val(k.t))
                    if not -len(p) <= i < len(p): raise PyRaise("IndexError", "list index")
                    return p[i]
                # symbolic index into a concrete sequence
                if isinstance(o, ListRef) and self.loopidx and o.lid not in self.reread: raise ListRead(o.lid)
                if p and all(isinstance(x, (Sc, Arr)) for x in p):
                    t = k.t
                    if self.valid(lt(t, ZERO)): t = add(t, num(len(p)))
                    elif not self.valid(le(ZERO, t)): t = ite(lt(t, ZERO), add(t, num(len(p))), t)
                    self.need("index within bounds", land(le(ZERO, t), lt(t, num(len(p)))))
                    r = p[-1]
                    for i in range(len(p) - 2, -1, -1): r = self.lib.pick(self, eq(t, num(i)), p[i], r)
                    return r
                raise Unsupported("symbolic index into list")
            i = k.t
            if isnum(i) and val(i) < 0: i = add(p.n, i)
            self.need("index in bounds", land(le(ZERO, i), lt(i, p.n)))
            return p.elem(i)
        if isinstance(o, DictRef):
            d = self.heap[o.did]
            kk = self.hashable(k, d)
            if kk not in d: raise PyRaise("KeyError", str(kk))
            return d[kk]
        if isinstance(o, Sc) and o.lib != "py" and isinstance(k, tuple) is False and (k is None or k is ELLIPSIS):
            return self.lib.index(self, self.lib.to_arr(self, o), (k,))
        if isinstance(o, Sc) and o.lib != "py" and isinstance(k, tuple) and len(k) and all(x is None or x is ELLIPSIS for x in k):
            return self.lib.index(self, self.lib.to_arr(self, o), k)
        if isinstance(o, Sc): raise PyRaise("TypeError", "scalar is not subscriptable")
        raise Unsupported("subscript of %s" % type(o).__name__)
    def setitem(self, o, k, v):
        if isinstance(o, Arr): return self.lib.store(self, o, k if isinstance(k, tuple) else (k,), v)
        if isinstance(o, ListRef):
            p = self.heap[o.lid]
            if isinstance(p, tuple) and isinstance(k, Sc) and isnum(k.t):
                i = int(val(k.t)); l = list(p)
                if not -len(l) <= i < len(l): raise PyRaise("IndexError", "list assignment")
                l[i] = v; self.heap[o.lid] = tuple(l); return
            raise Unsupported("list assignment")
        if isinstance(o, DictRef):
            d = dict(self.heap[o.did]); d[self.hashable(k, d)] = v; self.heap[o.did] = d; return
        raise Unsupported("item assignment on %s" % type(o).__name__)
    def conc_int(self, v):
        if isinstance(v, Sc) and isnum(v.t): return int(val(v.t))
        raise Unsupported("symbolic integer where a constant is needed")

    def need(self, name, goal):
        """safety obligation: goal must hold here"""
        if goal is TRUE: return
        self.obligations.append((name, list(self.ctx), goal))

    # comprehensions
    def e_ListComp(self, e): return self.comp(e, "list")
    def e_GeneratorExp(self, e): return self.comp(e, "gen")
    def e_SetComp(self, e): raise Unsupported("set comprehension")
    def e_DictComp(self, e):
        if len(e.generators) != 1: raise Unsupported("dict comprehension")
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter))
        if not isinstance(it, list): raise Unsupported("dict comprehension")
        fr = self.new_frame(self.fid, self.heap[self.fid]["$mod"], "<comp>")
        old = self.fid; self.fid = fr
        d = {}
        try:
            for x in it:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) for c in g.ifs): d[self.hashable(self.ev(e.key), d)] = self.ev(e.value)
        finally: self.fid = old
        return DictRef(self.new(d))
    def mapped(self, f, its):
        """map(f, xs, ...), consumed at once"""
        ns = ["x%d" % k for k in range(len(its))]
        fr = self.new_frame(self.fid, self.heap[self.fid]["$mod"], "<map>")
        old = self.fid; self.fid = fr
        try:
            self.setvar("$f", f)
            for n, x in zip(ns, its): self.setvar("$" + n, x)
            nm = lambda n: ast.Name(id=n, ctx=ast.Load())
            src = nm("$x0") if len(its) == 1 else ast.Call(func=nm("$zip"), args=[nm("$" + n) for n in ns], keywords=[])
            self.setvar("$zip", Lib("builtins.zip"))
            tgt = ast.Name(id="x0", ctx=ast.Store()) if len(its) == 1 else ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in ns], ctx=ast.Store())
            e = ast.ListComp(elt=ast.Call(func=nm("$f"), args=[nm(n) for n in ns], keywords=[]),
                             generators=[ast.comprehension(target=tgt, iter=src, ifs=[], is_async=0)])
            return self.comp(ast.fix_missing_locations(e), "gen")
        finally: self.fid = old

    def comp(self, e, kind):
        fr = self.new_frame(self.fid, self.heap[self.fid]["$mod"], "<comp>")
        old = self.fid
        def run(gens):
            g = gens[0]
            it = self.iterate(self.ev(g.iter))
            if isinstance(it, Seq) and isnum(it.n) and val(it.n) <= UNROLL:
                it = [it.elem(num(i)) for i in range(int(val(it.n)))]
            if isinstance(it, list):
                out = []
                for x in it:
                    self.assign(g.target, x)
                    if all(self.truth(self.ev(c)) for c in g.ifs):
                        if len(gens) > 1:
                            r = run(gens[1:])
                            if not isinstance(r, list): raise Unsupported("nested symbolic comprehension")
                            out += r
                        else: out.append(self.ev(e.elt))
                return out
            if len(gens) > 1 or g.ifs: raise Unsupported("symbolic comprehension with filter or nesting")
            # list of symbolic length: run the element expression once for a generic index
            i = tm.fresh("c", "I", ZERO, it.n)
            snap = dict(self.heap)
            self.loopidx.append(i)
            try:
                paths = None
                self.assign(g.target, it.elem(i))
                fr_before = self.heap
                keys = set(self.heap)
                h1 = dict(self.heap)
                n0 = len(self.ctx)
                v = self.ev(e.elt)
                del self.ctx[n0:]
                for k, p in h1.items():
                    if k != fr and self.heap.get(k) is not p: raise Unsupported("side effect in a comprehension")
            finally:
                self.loopidx.pop()
            return SymList(it.n, self.template(v, i, keys))
        self.fid = fr
        try:
            r = run(e.generators)
        finally:
            self.fid = old
        if isinstance(r, SymList): return ListRef(self.new(r)) if kind == "list" else r
        return ListRef(self.new(tuple(r))) if kind == "list" else tuple(r)

    def template(self, v, i, oldkeys):
        """function index -> value, from the value computed for the generic index i"""
        name = i.args[0]
        if isinstance(v, Sc):
            return lambda j: Sc(subst(v.t, {name: j}), v.ty, v.lib)
        if isinstance(v, Arr):
            shape, vs, body, lib, ty = self.lib.content(self, v)
            if any(name in s.fv for s in shape): raise Unsupported("ragged list")
            return lambda j: self.lib.make(self, shape, vs, subst(body, {name: j}), lib, ty)
        if isinstance(v, tuple):
            fs = [self.template(x, i, oldkeys) for x in v]
            return lambda j: tuple(f(j) for f in fs)
        if isinstance(v, ListRef) and isinstance(self.heap[v.lid], tuple):
            fs = [self.template(x, i, oldkeys) for x in self.heap[v.lid]]
            return lambda j: ListRef(self.new(tuple(f(j) for f in fs)))
        if v is None or isinstance(v, (str, Lib)): return lambda j: v
        if isinstance(v, SpecFn) and v.make is not None:
            return lambda j: v.make(tuple(subst(t, {name: j}) for t in v.terms))
        raise Unsupported("list element of kind %s" % type(v).__name__)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.ev(e.func)
        if isinstance(f, Lib) and self.lib.ignorable(f.name):
            if f.name in ("logging.warning", "logging.warn", "warnings.warn", "logging.error", "logging.critical"): self.calls.append(("warn", f.name))
            return Ignored(f.name)
        if isinstance(f, LibMethod) and isinstance(f.obj, Ignored): return Ignored("method")
        if isinstance(f, Ignored):
            if f.what in ("logging.getLogger.warning", "logging.getLogger.warn", "logging.getLogger.error", "logging.getLogger.critical"): self.calls.append(("warn", f.what))
            return Ignored("call")
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value))
                if isinstance(it, Seq) and isnum(it.n): it = [it.elem(num(i)) for i in range(int(val(it.n)))]
                if isinstance(it, Seq) and len(e.args) == 1 and not e.keywords and isinstance(f, Lib) and f.name == "builtins.zip":
                    if not self.valid(lt(ZERO, it.n)): raise Unsupported("zip of a possibly empty sequence")
                    x = it.elem(ZERO)
                    if isinstance(x, ListRef): x = self.heap[x.lid]
                    if not isinstance(x, tuple): raise Unsupported("zip of the entries of a symbolic sequence")
                    def col(k):
                        def f(i):
                            y = it.elem(i)
                            return (self.heap[y.lid] if isinstance(y, ListRef) else y)[k]
                        return f
                    return tuple(SymList(it.n, col(k)) for k in range(len(x)))
                if not isinstance(it, list): raise Unsupported("*args")
                args += it
            else: args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, DictRef): raise Unsupported("**kwargs")
                kw.update(self.heap[d.did])
            else: kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FnV): return self.call_fn(f, args, kw)
        if isinstance(f, Bound): return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, ClassV): return self.construct(f, args, kw)
        if isinstance(f, OpaqueFn): return f.contract(self, args, kw)
        if isinstance(f, SpecFn): return f.call(self, args, kw)
        if isinstance(f, Lib): return self.lib.libcall(self, f.name, args, kw)
        if isinstance(f, LibMethod): return self.lib.method(self, f.obj, f.name, args, kw)
        if isinstance(f, Inst):
            m = self.classattr(f.cls, "__call__")
            if isinstance(m, FnV): return self.call(Bound(m, f), args, kw)
        if isinstance(f, tuple) and f and f[0] == "deco": return self.call(f[2], args, kw)
        if isinstance(f, Sc) or f is None or isinstance(f, (str, Arr)): raise PyRaise("TypeError", "not callable")
        raise Unsupported("call of %s" % type(f).__name__)

    def construct(self, c, args, kw):
        key = (c.mod, c.name)
        ct = self.contracts.get(key)
        if ct is not None and self.skip_contract != key:
            return ct(self, c, args, kw)
        o = Inst(self.new({}), c)
        init = self.classattr(c, "__init__")
        if isinstance(init, FnV): self.call_fn(init, [o] + list(args), kw)
        elif args or kw: raise PyRaise("TypeError", "no arguments")
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise("TypeError", "too many arguments")
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for n, v in zip(names, args): env[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in env: raise PyRaise("TypeError", "multiple values for " + k)
                env[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise PyRaise("TypeError", "unexpected keyword " + k)
        if a.kwarg is not None: env[a.kwarg.arg] = DictRef(self.new(extra))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in env: env[n] = d
        for n, d in zip(kwn, f.kwdefaults):
            if n not in env and d is not NOTIMPL: env[n] = d
        for n in names + kwn:
            if n not in env: raise PyRaise("TypeError", "missing argument " + n)
        return env

    def call_fn(self, f, args, kw):
        env = self.bind(f, args, kw)
        key = (f.mod, f.qual)
        ct = self.contracts.get(key)
        if ct is not None and self.skip_contract != key:
            return ct(self, f, env)
        if self.skip_contract == key: self.skip_contract = None
        self.depth += 1
        if self.depth > 40: raise Unsupported("recursion depth")
        old = self.fid
        fr = self.new_frame(f.fid, f.mod, f.name)
        d = dict(self.heap[fr]); d.update(env); self.heap[fr] = d
        self.fid = fr
        if not isinstance(f.node, ast.Lambda):
            self.functions.setdefault("%s:%s" % (f.mod, f.qual), f.node.lineno)
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)): raise Unsupported("generator")
            try:
                self.block(f.node.body)
            except Return as r:
                return r.v
            return None
        finally:
            self.fid = old; self.depth -= 1

class Decider:
    def __init__(self, script): self.script = script; self.taken = []
    def next(self, c):
        i = len(self.taken)
        b = self.script[i] if i < len(self.script) else True
        self.taken.append(b)
        return b
