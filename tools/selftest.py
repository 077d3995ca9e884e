"""Differential test of the verifier's semantics (interpreter, loop summaries, contracts assumed for NumPy, PyTorch, SciPy and POT):
each snippet is executed symbolically once, for all sizes and inputs; the resulting term is then evaluated at concrete inputs and compared
with what the real interpreter and libraries return for them.  Usage: python3-vt tools/selftest.py [name ...]   (about a minute)"""
import sys, os, json, subprocess, itertools, inspect, ast, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
SHAPES = {"A": "Nd", "B": "Md", "v": "d", "w": "N", "Q": "dd", "C3": "Nd2", "TA": "Nd", "TB": "Md", "Tv": "d", "Tw": "N", "TQ": "dd"}
SIZES = [dict(N=3, M=2, d=2), dict(N=4, M=5, d=3), dict(N=5, M=1, d=1), dict(N=2, M=3, d=4)]

REAL = r'''
import sys, json, warnings; warnings.simplefilter("ignore")
sys.path.insert(0, %r)
import numpy as np, torch
import snippets
cases = json.load(open(sys.argv[1])); out = []
def conv(r):
    if isinstance(r, torch.Tensor): r = r.detach().cpu().numpy()
    return np.asarray(r, dtype=float)
for c in cases:
    args = {}
    for k, v in c["args"].items():
        if isinstance(v, dict):
            x = np.array(v["data"], float).reshape(v["shape"])
            args[k] = torch.tensor(x) if k.startswith("T") else x
        else: args[k] = v
    q = list(c.get("draws") or [])
    def take(n):
        r = q[:n]; del q[:n]
        assert len(r) == n, "draws"
        return np.array(r, float)
    def shp(size, *xs):
        if size is None: return np.broadcast_shapes(*[np.shape(x) for x in xs])
        return tuple(size) if isinstance(size, (tuple, list, torch.Size)) else (size,)
    def raw(size, *xs):
        s = shp(size, *xs); r = take(int(np.prod(s)) if len(s) else 1).reshape(s)
        return r if len(s) else float(r)
    save = (np.random.normal, np.random.uniform, np.random.rand, np.random.randn, torch.Tensor.normal_, torch.distributions.Uniform.sample, torch.randn)
    if c.get("draws") is not None:
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * raw(size, loc, scale)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * raw(size, low, high)
        np.random.rand = lambda *s: raw(s); np.random.randn = lambda *s: raw(s)
        torch.Tensor.normal_ = lambda self, mean=0, std=1: self.copy_(mean + std * torch.tensor(raw(self.shape)))
        torch.distributions.Uniform.sample = lambda self, s=(): self.low + (self.high - self.low) * torch.tensor(raw(tuple(s) + tuple(self.low.shape)))
        torch.randn = lambda *s, **k: torch.tensor(raw(s))
    try:
        r = conv(getattr(snippets, c["name"])(**args)); out.append(dict(shape=list(r.shape), data=r.ravel().tolist()))
    except Exception as e: out.append(dict(error="%%s: %%s" %% (type(e).__name__, e)))
    np.random.normal, np.random.uniform, np.random.rand, np.random.randn, torch.Tensor.normal_, torch.distributions.Uniform.sample, torch.randn = save
json.dump(out, open(sys.argv[2], "w"))
'''

def run(names=None, verbose=True):
    from dv import interp, lib, evalt, terms as tm
    from dv.terms import sym, le, lt, ZERO, ONE, num, sel, val, isnum
    from dv.values import Sc, Unsupported, PyRaise
    from contracts.world import arr
    tree = ast.parse(open(os.path.join(HERE, "snippets.py")).read())
    fns = [(f.name, [a.arg for a in f.args.args]) for f in tree.body if isinstance(f, ast.FunctionDef)]
    if names: fns = [f for f in fns if f[0] in names]
    SY = {k: sym(k, "I") for k in ("N", "M", "d")}; SY["2"] = num(2)
    cases = []; mine = []; unsup = []
    for name, params in fns:
        m = interp.Machine(HERE); m.budget = 60
        try: mod = m.load("snippets.py")
        except Exception as e: raise
        f = m.heap[mod.fid].get(name)
        m.ctx += [le(num(2), SY["N"]), le(ONE, SY["M"]), le(ONE, SY["d"]), le(ZERO, sym("i", "I")), lt(sym("i", "I"), SY["d"])]
        args = []
        for p in params:
            if p in SHAPES:
                args.append(arr(m, p, tuple(SY[c] for c in SHAPES[p]), "torch" if p.startswith("T") else "np"))
            elif p in ("a", "b"): args.append(Sc(sym(p), "float"))
            else: args.append(Sc(sym(p, "I"), "int"))
        def go():
            r = m.call(f, args, {})
            if isinstance(r, Sc): return ((), (), r.t)
            c = lib.content(m, r)
            return c[0], c[1], c[2]
        try:
            ps = m.explore(go)
            bad = [o for c, o, s in ps if o[0] not in ("ok", "return")]
            if bad: raise Unsupported("outcome %s" % (bad[0],))
        except (Unsupported, PyRaise) as e:
            unsup.append((name, "%s: %s" % (type(e).__name__, e))); continue
        for si, sz in enumerate(SIZES):
            env = dict(sz, i=(si % sz["d"]))
            E = evalt.Ev(env, seed=si + 1, positive={"w", "Tw"}, defs=interp.DEFS, draws=interp.DRAWS, budget=3000000)
            vals = {}
            for p in params:
                if p in SHAPES:
                    sh = [int(E.ev(SY[c], {})) for c in SHAPES[p]]
                    ix = list(itertools.product(*[range(n) for n in sh]))
                    x = [float(E.arr(p, q)) for q in ix]
                    if p.endswith("Q"):
                        for q, k in zip(ix, range(len(x))):
                            if q[0] == q[1]: x[k] = abs(x[k]) + 3.0; E.inputs[(p, q)] = x[k]
                    vals[p] = dict(shape=sh, data=x)
                elif p in ("a", "b"): vals[p] = float(E.ev(sym(p), {}))
                else: vals[p] = env[p]
            case = dict(name=name, args=vals); res = None
            try:
                hit = []
                for c, o, s in ps:
                    m.restore(s) if hasattr(m, "restore") else None
                    if all(E.ev(x, {}) for x in c): hit.append(o[1])
                if len(hit) != 1: res = dict(error="%d paths apply" % len(hit))
                else:
                    shape, vs, body = hit[0]
                    sh = [E.integer(E.ev(x, {})) for x in shape]
                    data = []
                    for q in itertools.product(*[range(n) for n in sh]):
                        data.append(float(E.ev(body, {v.args[0]: k for v, k in zip(vs, q)})))
                    res = dict(shape=sh, data=data)
                    if name.startswith("rn_"):
                        dr = sorted({u.args[0] for u in tm.walk(body) if u.op == "sel" and u.args[0] in interp.DRAWS})
                        if len(dr) != 1: res = dict(error="draws %s" % dr)
                        else:
                            us = {}
                            for k in E.memo:
                                pass
                            info = interp.DRAWS[dr[0]]
                            case["draws"] = draws_in_order(E, body, vs, sh, dr[0])
            except evalt.EvalError as e: res = dict(error="evaluation: %s" % e)
            cases.append(case); mine.append(res)
    tmp = tempfile.mkdtemp(prefix="dvself-")
    try:
        json.dump(cases, open(os.path.join(tmp, "in.json"), "w")); open(os.path.join(tmp, "real.py"), "w").write(REAL % HERE)
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(tmp, "real.py"), os.path.join(tmp, "in.json"), os.path.join(tmp, "out.json")], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2", HOME=tmp, MPLCONFIGDIR=tmp), cwd=tmp)
        if r.returncode: raise SystemExit(r.stderr[-2000:])
        real = json.load(open(os.path.join(tmp, "out.json")))
    finally:
        import shutil; shutil.rmtree(tmp, ignore_errors=True)
    bad = []; agree = set(); worst = 0.0
    for c, a, b in zip(cases, mine, real):
        why = None
        if "error" in a or "error" in b:
            if "error" in a and "error" in b and not a["error"].endswith("paths apply"): continue
            why = "symbolic: %s / real: %s" % (a.get("error"), b.get("error"))
        elif a["shape"] != b["shape"]: why = "shape %s, really %s" % (a["shape"], b["shape"])
        else:
            e = max([abs(x - y) / (1 + abs(y)) for x, y in zip(a["data"], b["data"])], default=0.0)
            worst = max(worst, e)
            if not e < 1e-8: why = "differs by %.3g: %s, really %s" % (e, a["data"][:6], b["data"][:6])
        if why: bad.append((c["name"], c["args"].get("N"), why))
        else: agree.add(c["name"])
    badn = {b[0] for b in bad}
    return dict(snippets=len(fns), agree=len(agree - badn), disagree=bad, unsupported=unsup, cases=len(cases), worst=worst)

def draws_in_order(E, body, vs, sh, name):
    """values of the draw symbol in program order: loop indices outermost"""
    seen = {}
    class Rec(type(E)): pass
    old = E.arr
    E2 = type(E)(E.env, seed=E.seed, positive=E.positive, defs=E.defs, draws=E.draws, budget=E.budget)
    E2.inputs = E.inputs
    orig = E2.arr
    def arr(n, idx):
        r = orig(n, idx)
        if n == name: seen[idx] = r
        return r
    E2.arr = arr
    for q in itertools.product(*[range(n) for n in sh]): E2.ev(body, {v.args[0]: k for v, k in zip(vs, q)})
    return [float(seen[k]) for k in sorted(seen)]

if __name__ == "__main__":
    r = run(sys.argv[1:])
    for n, why in r["unsupported"]: print("unsupported", n, why[:200])
    for b in r["disagree"]: print("DISAGREE", *[str(x)[:300] for x in b])
    print("%d snippets: %d agree, %d disagree, %d unsupported; %d cases; largest relative difference %.2g" % (r["snippets"], r["agree"], len({b[0] for b in r["disagree"]}), len(r["unsupported"]), r["cases"], r["worst"]))
    sys.exit(1 if r["disagree"] else 0)
