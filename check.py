"""check.py <property> : decides one property of /repo's working tree.

Deciding step: the contracts of /verif/contracts are verified against the functions of the current source (dv/).
Companion, labelled bounded: the same contracts evaluated at run time on the real code (rt/), which also replays
counterexamples and stands in for obligations that could not be decided."""
import sys, os, json, time, subprocess, multiprocessing, hashlib, tempfile, traceback, argparse, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--proof-only", action="store_true"); ap.add_argument("--rt-only", action="store_true")
ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
A = ap.parse_args()
PROP = A.prop
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CPUS = max(2, min(8, os.cpu_count() or 2))
PROOF_WORKERS = max(2, CPUS - 2)
DEADLINE = 600 if THOROUGH else 170
RT_BUDGET = 240.0 if THOROUGH else 9.0
RT_PROCS = 2
EXT_BUDGET = 300.0 if THOROUGH else 60.0
PY = "/opt/venv/bin/python"
T0 = time.time()
SCRATCH = tempfile.mkdtemp(prefix="dvcheck-")

def rt_env():
    e = dict(os.environ)
    pkg = os.path.join(A.repo, "DeterministicParticleFlowControl")
    e.update(MPLBACKEND="Agg", DUECREDIT_ENABLE="no", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONHASHSEED="0", MPLCONFIGDIR=SCRATCH, NUMBA_CACHE_DIR=SCRATCH, HOME=SCRATCH)
    e["PYTHONPATH"] = os.pathsep.join([A.repo, pkg, os.path.join(pkg, "score_estimators")])
    if PROP != "C05": e["NUMBA_DISABLE_JIT"] = "1"
    return e

class RT:
    n = 0
    def __init__(self, seed, budget, hints=None):
        RT.n += 1
        self.out = os.path.join(SCRATCH, "rt%d.json" % RT.n); self.log = open(os.path.join(SCRATCH, "rt%d.log" % RT.n), "w+")
        cmd = [PY, os.path.join(HERE, "rt", "run.py"), "--prop", PROP, "--repo", A.repo, "--seed", str(seed), "--budget", str(budget), "--out", self.out]
        if hints:
            hf = os.path.join(SCRATCH, "hints%d.json" % RT.n); json.dump(hints, open(hf, "w")); cmd += ["--hints", hf]
        self.hints = hints or []
        self.seed = seed; self.budget = budget
        self.p = subprocess.Popen(cmd, env=rt_env(), stdout=self.log, stderr=subprocess.STDOUT, cwd=SCRATCH, start_new_session=True)
    def get(self, timeout):
        try: self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait()
            return dict(error="run-time check exceeded its time", evaluations=0, violations=[], notes=[], hung=True)
        try: r = json.load(open(self.out)); r["hints"] = self.hints; return r
        except Exception:
            self.log.seek(0); t = self.log.read()[-1500:]
            return dict(error="run-time check failed (rc %s): %s" % (self.p.returncode, t), evaluations=0, violations=[], notes=[])

# ------------------------------------------------------------------ proof workers
def proof_worker(q, prop, repo, shard, nshards, deadline, callees):
    try:
        from dv.prove import Prover
        from dv import lib, solver
        import contracts.estimators as E, contracts.flows as F
        P = Prover(deadline); P.repo = repo; P.shard, P.nshards = shard, nshards
        try:
            if callees is None: (getattr(E, prop, None) or getattr(F, prop))(P)
            else: F.callee_contracts(P, callees)
        except Exception as e:
            P.undecided("the verifier stopped", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]))
        q.put(dict(obs=[o.asdict() for o in P.obs], hints=[h for o in P.obs if o.status != "proved" for h in o.hints], functions=P.functions, callees=sorted(P.callees),
                   vacuous=P.vacuous, preconditions=P.preconditions, used=sorted(lib.USED), stats=dict(solver.STATS)))
    except BaseException as e:
        q.put(dict(obs=[dict(name="the verifier could not start", status="unknown", backend="", time_s=0, detail="%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-800:]))],
                   hints=[], functions={}, callees=[], used=[], stats={}, vacuous=[], preconditions=0))

def run_proof(prop, callees=None, n=None):
    n = n or PROOF_WORKERS
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    dl = T0 + DEADLINE
    ps = [ctx.Process(target=proof_worker, args=(q, prop, A.repo, i, n, dl, callees), daemon=True) for i in range(n)]
    for p in ps: p.start()
    res = []
    while len(res) < n:
        try: res.append(q.get(timeout=max(1.0, dl + 30 - time.time())))
        except Exception: break
    for p in ps:
        p.join(1)
        if p.is_alive(): p.kill()
    m = dict(obs=[], hints=[], functions={}, callees=set(), used=set(), stats={"queries": 0, "time": 0.0, "unknown": 0}, vacuous=[], preconditions=0)
    for r in res:
        m["obs"] += r["obs"]; m["hints"] += r["hints"]; m["functions"].update(r["functions"]); m["callees"] |= {tuple(c) for c in r["callees"]}; m["used"] |= set(r["used"])
        m["vacuous"] += r["vacuous"]; m["preconditions"] += r["preconditions"]
        for k, v in r["stats"].items(): m["stats"][k] = m["stats"].get(k, 0) + v
    if len(res) < n: m["obs"].append(dict(name="a verifier process gave no answer", status="unknown", backend="", time_s=0, detail="time limit"))
    return m

# ------------------------------------------------------------------ reporting
def replay_file(kind, payload):
    d = os.path.join(HERE, "replay"); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (PROP, h))
    payload = dict(property=PROP, kind=kind, **payload)
    json.dump(payload, open(p, "w"), indent=1, default=str)
    return p

def key_of(v):
    c = v.get("case") or {}
    return v["what"] + " " + json.dumps({k: c.get(k) for k in sorted(c) if k not in ("seed", "dseed")}, sort_keys=True, default=str)

def known_findings():
    """entries 'finding: property=<id> <text that identifies the failing input or call site>'; none is open at present"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("finding: property=%s " % PROP): out.append(l.split(" ", 2)[2].strip())
    except OSError: pass
    return out

def merge_rt(rs):
    m = dict(evaluations=0, distinct=0, assertions=0, samples=[], violations=[], notes=[], errors=[], maxerr=0.0, nnotes=0)
    for r in rs:
        for k in ("evaluations", "distinct", "assertions", "nnotes"): m[k] += int(r.get(k) or 0)
        m["samples"] += r.get("samples", [])[:1]; m["notes"] += r.get("notes", []); m["maxerr"] = max(m["maxerr"], r.get("maxerr") or 0.0)
        for v in r.get("violations", []): m["violations"].append(dict(v, seed=r.get("seed"), budget=r.get("budget"), evaluations=r.get("evaluations"), hints=r.get("hints")))
        if r.get("error"): m["errors"].append(r["error"])
    return m

def self_tests():
    """thorough tier: the verifier's semantics and its normaliser against the real interpreter, libraries and numeric evaluation"""
    res = {}
    for k, cmd in (("semantics", ["selftest.py"]), ("normaliser", ["normtest.py", "3000", str(SEED)])):
        try: p = subprocess.run([sys.executable, os.path.join(HERE, "tools", cmd[0])] + cmd[1:], env=rt_env(), capture_output=True, text=True, timeout=240, cwd=SCRATCH)
        except subprocess.TimeoutExpired: res[k] = dict(result="timed out", ok=True); continue
        out = p.stdout.strip().splitlines()
        res[k] = dict(result=out[-1] if out else p.stderr[-300:], ok=not any(l.startswith("DISAGREE") for l in out))
    return res

def main():
    if "R" in os.environ.get("DV_DEBUG", ""): print("scratch", SCRATCH)
    rts = [] if A.proof_only else [RT(SEED * 10 + i, RT_BUDGET) for i in range(RT_PROCS)]
    if A.rt_only: pr = None
    else:
        pr = run_proof(PROP)
        if pr["callees"]:
            p2 = run_proof(PROP, sorted(pr["callees"]))
            p2["callees"] = set()
            pr["obs"] += p2["obs"]; pr["hints"] += p2["hints"]; pr["functions"].update(p2["functions"]); pr["used"] |= p2["used"]
            pr["vacuous"] += p2["vacuous"]; pr["preconditions"] += p2["preconditions"]
            for k, v in p2["stats"].items(): pr["stats"][k] = pr["stats"].get(k, 0) + v
    t_proof = time.time() - T0
    runs = [r.get(RT_BUDGET * 8 + 150) for r in rts]
    obs = pr["obs"] if pr else []
    bad = [o for o in obs if o["status"] != "proved"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    extended = False
    if (bad or not obs) and not A.proof_only and not any(r.get("violations") for r in runs):
        extended = True
        hints = []
        for o in refuted:
            cx = o.get("counterexample") or {}
            s = dict(cx.get("symbols") or {})
            if s: hints.append(dict(s, _inputs=cx.get("inputs") or {}, _ob=o["name"]))
        for h in (pr["hints"] if pr else []):
            if h not in hints: hints.append(h)
        hints = hints[:24]
        n = max(2, CPUS - 1)
        ext = [RT(SEED * 1000 + 17 * i + 5, EXT_BUDGET, hints if i < n - 2 else None) for i in range(n)]
        pend = list(ext); end = time.time() + EXT_BUDGET * 3 + 120
        while pend and time.time() < end:
            for e in list(pend):
                if e.p.poll() is not None:
                    pend.remove(e); r = e.get(1); runs.append(r)
                    if r.get("violations"): end = 0
            time.sleep(0.1)
        for e in pend: runs.append(e.get(0.01) if end else dict(e.get(0.01), error=None))
    rt = merge_rt(runs)
    known = known_findings(); seen_known = set()
    live = []
    for v in rt["violations"]:
        k = [x for x in known if x in key_of(v)]
        if k: seen_known.update(k)
        else: live.append(v)
    lines = []
    for k in known: lines.append("KNOWN-FINDING: property=%s %s" % (PROP, k))
    rc = 0; nviol = 0
    if live:
        v = live[0]
        p = replay_file("replayed on the real code", dict(seed=v.get("seed"), budget=v.get("budget"), maxcases=v.get("evaluations"), hints=v.get("hints"), what=v["what"], case=v["case"], detail=v["detail"],
                        failed_obligations=bad[:20], how="%s %s --prop %s --repo %s --replay <this file>" % (PY, os.path.join(HERE, "rt", "run.py"), PROP, A.repo), more=[x["what"] for x in live[1:10]]))
        lines.append("%s: %s" % (PROP, v["what"]))
        for o in bad[:5]: lines.append("  obligation not discharged: %s" % o["name"])
        lines.append("VIOLATION property=%s replay=%s" % (PROP, p))
        rc = 1; nviol = len(live)
    elif refuted:
        p = replay_file("obligation refuted by the verifier", dict(failed_obligations=refuted[:20], other_open_obligations=[o["name"] for o in bad if o not in refuted][:20],
                        bounded_search=dict(evaluations=rt["evaluations"], seeds=[r.get("seed") for r in runs])))
        lines.append("%s: refuted obligation: %s" % (PROP, refuted[0]["name"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, p))
        rc = 1; nviol = len(refuted)
    elif pr is not None and pr["vacuous"]:
        lines.append("ERROR: contradictory preconditions: %s" % pr["vacuous"][:3]); rc = 3
    elif (bad or not obs) and (rt["evaluations"] == 0 or rt["assertions"] == 0) and not A.proof_only:
        lines.append("UNDECIDED: %d obligations open and the run-time contracts could not be evaluated: %s" % (len(bad), "; ".join(rt["errors"])[:600])); rc = 3
    elif any(r.get("hung") for r in runs) and bad:
        lines.append("UNDECIDED: the code did not finish on some input within the time limit"); rc = 3
    selftests = self_tests() if THOROUGH and pr is not None and not A.proof_only else {}
    if rc == 0 and not all(v["ok"] for v in selftests.values()): lines.append("ERROR: the verifier disagrees with the real semantics: %s" % selftests); rc = 3
    discharged = len(obs) - len(bad)
    if pr is not None and not A.proof_only and not A.rt_only: evidence(pr, obs, bad, rt, runs, extended, nviol, t_proof, selftests)
    print("%s %s: %d of %d obligations discharged (%.1f s), %d run-time evaluations, %d assertions%s, %.1f s" % (PROP, TIER, discharged, len(obs), t_proof, rt["evaluations"], rt["assertions"],
          " (bounded stand-in for the %d open ones)" % len(bad) if bad and rc == 0 else "", time.time() - T0))
    for o in bad[:8]:
        if rc == 0 or A.proof_only: print("  open (not proved; covered by the bounded check only): %s: %s" % (o["name"], str(o.get("detail"))[:200]))
    for e in rt["errors"]: print("  note:", e[:300])
    for l in lines: print(l)
    return rc

TRUST = ["CPython semantics of the executed subset as implemented in dv/interp.py and dv/loops.py",
         "term normaliser dv/norm.py (sum, product, matrix-inverse and congruence laws over the reals)", "z3 4.x (python binding)",
         "machine floating point is treated as real arithmetic; float32 intermediates are not distinguished from float64",
         "the CPython parser (ast) and the import layout of the package"]

def evidence(pr, obs, bad, rt, runs, extended, nviol, t_proof, selftests):
    be = {}
    for o in obs:
        if o["status"] == "proved": be[o["backend"]] = be.get(o["backend"], 0) + 1
    slow = sorted(obs, key=lambda o: -o["time_s"])[:3]
    per = {}
    for o in obs:
        f = o["name"].split(":")[0]
        a = per.setdefault(f, [0, 0]); a[0] += 1; a[1] += o["status"] == "proved"
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="proof", wall_s=round(time.time() - T0, 2), violations=nviol,
              coverage=dict(obligations=len(obs), discharged=len(obs) - len(bad), checker_cmd="python3-vt /verif/check.py %s" % PROP, trusted_base=TRUST + ["assumed contract of %s" % u for u in sorted(pr["used"])],
                  functions_under_contract={k: v for k, v in sorted(pr["functions"].items())}, obligations_per_unit={k: "%d/%d" % (v[1], v[0]) for k, v in per.items()},
                  discharged_by=be, solver=dict(queries=pr["stats"].get("queries"), time_s=round(pr["stats"].get("time", 0), 2), unknown=pr["stats"].get("unknown")),
                  proof_wall_s=round(t_proof, 2), slowest=[dict(name=o["name"], time_s=o["time_s"]) for o in slow],
                  preconditions_shown_satisfiable=pr["preconditions"], callee_contracts_discharged=["%s %s" % c for c in sorted(pr["callees"])],
                  open_obligations=bad[:40], verifier_self_tests=selftests or "run in the thorough tier",
                  bounded=dict(label="bounded, not counted as proved", evaluations=rt["evaluations"], distinct=rt["distinct"], assertions=rt["assertions"], extended=extended,
                      rule="generated inputs: sizes, dimensions, times, modes and scales drawn per case, with sizes and constants mined from comparisons in the source and, for open obligations, models of their path conditions; the contract is evaluated on the real code against an independent double-precision oracle; distinct counts different parameter records",
                      largest_error_over_tolerance=rt["maxerr"], seeds=[r.get("seed") for r in runs], notes=rt["notes"][:5], errors=rt["errors"][:3]),
                  evaluations=rt["evaluations"], distinct_nontrivial=rt["distinct"], samples=(rt["samples"][:2] or [o["name"] for o in obs[:3]])),
              assumptions=["user callbacks (f, f_true, U) are pure and act on each particle (column) separately",
                           "preconditions: N, M, dim, K >= 1 (N >= 2 for PyTorch flows, whose spread uses N - 1), t2 >= t1 + dt, positive lengthscales and positive cloud spreads where a score or a Gaussian is evaluated, scalar g",
                           "inverses that the code forms exist (the ridge terms make the Gram matrices invertible; the verifier treats inv as the inverse)",
                           "random draws are symbols of the stated distribution, one per call and index; independence is that of the generator"])
    os.makedirs(A.evidence, exist_ok=True)
    json.dump(ev, open(os.path.join(A.evidence, PROP + ".json"), "w"), indent=1, default=str)

try: rc = main()
finally:
    if os.path.isdir(SCRATCH) and "K" not in os.environ.get("DV_DEBUG", ""): shutil.rmtree(SCRATCH, ignore_errors=True)
sys.stdout.flush()
sys.exit(rc)
