"""The code under test, its callbacks, and recorders of what it hands to the estimators."""
import os, sys, ast, glob, types, logging, warnings
import numpy as np

REPO = os.environ.get("DV_REPO", "/repo")
PKG = "DeterministicParticleFlowControl"

def setup(repo):
    global REPO
    REPO = repo
    sys.dont_write_bytecode = True
    sys.path[:0] = [repo]
    sys.path += [os.path.join(repo, PKG)]
    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.NOTSET)

class Mods: pass
_m = None
def mods():
    global _m
    if _m is None:
        import importlib
        m = Mods()
        m.np_est = importlib.import_module(PKG + ".score_estimators.score_function_estimators")
        m.score = importlib.import_module(PKG + ".score_estimators.score")
        m.t_est = importlib.import_module(PKG + ".score_estimators.score_function_estimators_pytorch")
        m.kern = importlib.import_module(PKG + ".kernels.RBF_pytorch")
        m.ot = importlib.import_module(PKG + ".reweighting.optimal_transport_reweighting")
        m.flow = importlib.import_module(PKG + ".DeterministicParticleFlowControl")
        _m = m
    return _m

def reimport():
    """fresh copies of the repository's modules: no state of earlier calls survives"""
    global _m
    for n, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if f and os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep): del sys.modules[n]
    _m = None
    mods()

class WrongKind(Exception):
    """the code returns something of another kind than the contract says"""

def npy(x):
    if hasattr(x, "detach"): x = x.detach().cpu().numpy()
    try: return np.array(x, dtype=float)
    except (TypeError, ValueError): raise WrongKind("a %s instead of an array of numbers" % type(x).__name__)

def func(f):
    if not callable(f): raise WrongKind("a %s instead of a function" % type(f).__name__)
    return f

# ------------------------------------------------------------------ recording of estimator calls
EST = [("np_est", "score_function_multid_seperate"), ("np_est", "score_function_multid_seperate_all_dims"),
       ("np_est", "score_function_multid_seperate_old"), ("score", "score_function_multid_seperate2"),
       ("t_est", "torched_score_function_multid_seperate_all_dims")]

_rm = {}
def repo_modules():
    out = []
    for name, mod in list(sys.modules.items()):
        k = (name, id(mod))
        if k not in _rm:
            f = getattr(mod, "__file__", None)
            _rm[k] = bool(f) and os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep)
        if _rm[k]: out.append(mod)
    return out

class Recorder:
    """replaces the estimators, wherever a module of the repository refers to them, by wrappers that note their arguments"""
    def __init__(self): self.calls = []; self.undo = []
    def __enter__(self):
        m = mods()
        for mn, fname in EST:
            orig = getattr(getattr(m, mn), fname, None)
            if orig is None: continue
            w = self.wrap(orig, fname)
            for mod in repo_modules():
                for k, v in list(vars(mod).items()):
                    if v is orig:
                        self.undo.append((mod, k, orig)); setattr(mod, k, w)
        return self
    def __exit__(self, *a):
        for mod, k, o in self.undo: setattr(mod, k, o)
        self.undo = []
    def wrap(self, orig, fname):
        import functools, inspect
        try: sig = inspect.signature(orig)
        except (TypeError, ValueError): sig = None
        @functools.wraps(orig)
        def w(*a, **k):
            try:
                b = sig.bind(*a, **k); b.apply_defaults(); q = b.arguments
                self.calls.append(dict(fn=fname, X=npy(q["X"]), S=npy(q["Z"]), l=npy(q["l"]), C=float(q["C"]), kern=q["kern"]))
            except Exception: pass
            return orig(*a, **k)
        return w

# ------------------------------------------------------------------ user callbacks
def xp_of(x):
    if hasattr(x, "detach"):
        import torch
        return torch
    return np

def _mat(A, x):
    if hasattr(x, "detach"):
        import torch
        return torch.as_tensor(A, dtype=x.dtype)
    return A

def tf(t): return float(t)

def make_f(spec, dim):
    kind = spec["kind"]
    rng = np.random.RandomState(spec.get("seed", 0))
    A = rng.randn(dim, dim) * spec.get("a", 1.0)
    c = rng.randn(dim)
    bufs = {}
    def f(x, t):
        xp = xp_of(x); t = tf(t)
        if kind == "zero": return 0 * x
        if kind == "identity": return x
        if kind == "held":
            key = (tuple(x.shape), hasattr(x, "detach"))              # constant: the same array each time
            if key not in bufs: bufs[key] = 0 * x + _mat(c if x.ndim == 1 else c[:, None], x)
            return bufs[key]
        if kind == "linear": return _mat(A, x) @ x
        col = c if x.ndim == 1 else c[:, None]
        cc = _mat(col, x)
        if kind == "time": return _mat(A, x) @ x + 8 * cc * float(np.sin(90 * t + 0.4))
        return -3 * x / (1 + x * x) + _mat(A, x) @ x + 5 * cc * float(np.cos(60 * t)) + xp.sin(3 * x)
    return f

def make_U(spec, dim, log=None):
    rng = np.random.RandomState(spec.get("seed", 0) + 1)
    w = rng.randn(dim) * spec.get("freq", 4.0)
    amp = spec.get("amp", 700.0); kind = spec.get("kind"); bufs = {}
    def U(x, t):
        if log is not None: log.append((npy(x), tf(t)))
        xp = xp_of(x); t = tf(t)
        if kind == "row": return x[0]
        if kind == "held":
            if x.shape[1:] not in bufs: bufs[x.shape[1:]] = 0 * x[0] + 1.5
            return bufs[x.shape[1:]]
        return amp * xp.sin(_mat(w, x) @ x * spec.get("zoom", 1.0) + 150 * t)
    return U

def U_np(spec, dim):
    return make_U(spec, dim)

def build(cfg, log=None, seed=True, **over):
    """construct the flow object of cfg"""
    m = mods()
    dim = cfg["dim"]
    cls = getattr(m.flow, cfg["cls"])
    if seed: set_seed(cfg["seed"])
    ty = int if cfg.get("int_ends") else float
    y1 = np.array(cfg["y1"], ty); y2 = np.array(cfg["y2"], ty)
    if cfg["cls"] == "torched_DPFC" and not cfg.get("np_ends"):
        import torch
        y1 = torch.tensor(y1, dtype=torch.float64); y2 = torch.tensor(y2, dtype=torch.float64)
    kw = dict(t1=cfg["t1"], t2=cfg["t2"], y1=y1, y2=y2, f=make_f(cfg["f"], dim), g=cfg["g"], N=cfg["N"], M=cfg["M"])
    if cfg.get("npint"): kw["N"] = np.int64(kw["N"]); kw["M"] = np.int64(kw["M"])
    if cfg["rw"]: kw.update(reweight=True, U=make_U(cfg["U"], dim, log))
    if cfg["bb"]: kw.update(brown_bridge=True, f_true=make_f(cfg["ftrue"], dim))
    if not cfg["det"]: kw.update(deterministic=False)
    if cfg.get("kern"): kw["kern"] = cfg["kern"]
    kw.update(over)
    o = cls(**kw)
    return o, kw

def set_seed(s):
    import torch, random
    np.random.seed(s); torch.manual_seed(s)

class quiet_log:
    """collects log records and warnings"""
    def __enter__(self):
        self.rec = []
        outer = self
        class H(logging.Handler):
            def emit(self, r): outer.rec.append(r)
        self.h = H(); self.root = logging.getLogger(); self.old = self.root.handlers[:]
        self.level = self.root.level
        self.root.handlers[:] = [self.h]
        self.cw = warnings.catch_warnings(record=True)
        self.ws = self.cw.__enter__(); warnings.simplefilter("always")
        return self
    def __exit__(self, *a):
        self.root.handlers[:] = self.old
        self.cw.__exit__(*a)
    def warned(self):
        return any(r.levelno >= logging.WARNING for r in self.rec) or any(issubclass(w.category, (UserWarning, DeprecationWarning, FutureWarning)) for w in self.ws)

# ------------------------------------------------------------------ constants of the source
def literals(repo):
    """numeric constants of the package's source, as 'i<value>' or 'f<value>', with how often each appears"""
    out = {}
    for p in sorted(glob.glob(os.path.join(repo, PKG, "*.py")) + glob.glob(os.path.join(repo, PKG, "*", "*.py"))):
        if os.sep + "tests" + os.sep in p: continue
        try: tree = ast.parse(open(p).read())
        except (SyntaxError, OSError, UnicodeDecodeError): continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and not isinstance(n.value, bool) and isinstance(n.value, (int, float)):
                k = ("i%d" if isinstance(n.value, int) else "f%r") % n.value
                out[k] = out.get(k, 0) + 1
    return out

def mined(repo):
    """integer and float constants of the package's source: sizes and values worth trying.  Constants that are not in the
    list tools/literals.json (the constants when this harness was written) come up more often; the list decides nothing else."""
    import json
    lits = literals(repo)
    try: base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools", "literals.json")))
    except (OSError, ValueError): base = {}
    ints, floats, ni, nf = [], [], [], []
    for k, n in sorted(lits.items()):
        v = float(k[1:]); new = n > base.get(k, 0)
        if k[0] == "i":
            v = int(v)
            if 2 <= v <= (3000 if new else 600): (ni if new else ints).append(v)
            if v > 600 and new: nf.append(float(v))
        elif 1e-5 < abs(v) < (1e9 if new else 1e5): (nf if new else floats).append(abs(v))
    def weigh(new, old): return sorted(old + new * max(1, 3 * len(old) // max(1, len(new)))) if new else old
    return weigh(ni, ints), weigh(nf, floats)
