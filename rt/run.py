"""Runs the run-time contract of one property on the real code.  Usage: run.py --prop C01 --repo /repo --seed 1 --budget 8 --out F [--hints F] [--replay F]"""
import sys, os, json, time, argparse, traceback
ap = argparse.ArgumentParser()
ap.add_argument("--prop"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=float, default=8.0); ap.add_argument("--out"); ap.add_argument("--hints"); ap.add_argument("--replay")
ap.add_argument("--maxcases", type=int, default=100000); ap.add_argument("--mincases", type=int, default=4)
A = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world as W
W.setup(A.repo)
import numpy as np
import props
np.seterr(all="ignore")
import warnings; warnings.simplefilter("ignore")

def in_repo(tb):
    r = os.path.realpath(A.repo) + os.sep
    return any(os.path.realpath(f.filename).startswith(r) for f in traceback.extract_tb(tb))

def degenerate(tb):
    """the flow under construction has overflowed or collapsed to a point: outside the preconditions"""
    seen = set()
    while tb is not None:
        o = tb.tb_frame.f_locals.get("self"); tb = tb.tb_next
        if o is None or id(o) in seen: continue
        seen.add(id(o))
        for n in ("Z", "B", "Ztr"):
            try: a = W.npy(getattr(o, n))
            except Exception: continue
            if a.ndim != 3: continue
            if not np.all(np.isfinite(a)) or np.max(np.abs(a), initial=0) > 1e5: return True
            s = np.std(a, axis=1)[:, 2:-2]; m = np.max(np.abs(a), axis=1)[:, 2:-2]
            if np.any((m > 0) & (s <= 1e-9 * m)): return True
    return False

def one(run, chk, c):
    run.evals += 1
    try: chk(run, c)
    except W.WrongKind as e: run.bad(c, "the code returns " + str(e))
    except Exception as e:
        tb = e.__traceback__
        if in_repo(tb) and degenerate(tb): run.notes.append("degenerate flow: %s" % type(e).__name__)
        elif in_repo(tb):
            fr = [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(os.path.realpath(A.repo) + os.sep)][-1]
            run.bad(c, "the code raises %s: %s" % (type(e).__name__, str(e)[:300]), where="%s:%d in %s" % (os.path.relpath(fr.filename, A.repo), fr.lineno, fr.name))
        else:
            run.notes.append("harness: %s: %s" % (type(e).__name__, "".join(traceback.format_tb(tb)[-2:]) + str(e)[:200]))

def main():
    t0 = time.time(); hints0 = []
    out = dict(prop=A.prop, ok=True)
    gen, chk = props.PROPS[A.prop]
    run = props.Run(A.prop)
    if A.replay:
        r = json.load(open(A.replay))
        case = r["case"]
        if "pool" in case:
            A.seed = r.get("seed", 1); A.budget = 1e4; A.maxcases = r.get("maxcases") or A.maxcases
            hints0 = r.get("hints") or []
        else:
            one(run, chk, case)
            for v in run.violations: print("reproduced:", v["what"], json.dumps(v["detail"]))
            print("violations on replay: %d" % len(run.violations))
            sys.exit(1 if run.violations else 0)
    try: W.mods()
    except Exception as e:
        out.update(error="the package cannot be imported: %s: %s" % (type(e).__name__, e)); json.dump(out, open(A.out, "w")); sys.exit(0)
    hints = json.load(open(A.hints)) if A.hints else hints0
    mi = W.mined(A.repo)
    rng = np.random.RandomState(A.seed * 1000 + sum(map(ord, A.prop)))
    t1 = time.time(); i = 0
    while i < A.maxcases and (i < A.mincases or time.time() - t1 < A.budget) and time.time() - t1 < 6 * A.budget + 30:
        c = gen(rng, mi, hints, i)
        run.distinct.add(json.dumps({k: v for k, v in c.items() if k not in ("seed", "dseed")}, sort_keys=True))
        if i < 2: run.samples.append(c)
        one(run, chk, c)
        i += 1
        if run.violations: break
    if not run.violations: props.pooled(run)
    out.update(evaluations=run.evals, distinct=len(run.distinct), assertions=run.assertions, samples=run.samples, notes=sorted(set(run.notes))[:10], nnotes=len(run.notes),
               violations=run.violations, maxerr=run.maxerr, wall=time.time() - t0, seed=A.seed, budget=A.budget,
               pools={k: int(sum(x.size for x in v)) for k, v in run.pools.items()})
    if A.out: json.dump(out, open(A.out, "w"), default=str)
    else: print(json.dumps(out, indent=1, default=str)[:6000])
    if A.replay: sys.exit(1 if run.violations else 0)
main()
