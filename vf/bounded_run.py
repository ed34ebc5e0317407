"""Run-time contracts on the real, unmodified code of /repo.

A check is check(rng, k, hint) -> None when the contract held, or raises
Violation(message).  k is the case number; rng is seeded by (VERIF_SEED, check
name, k), so a case is replayed from those three."""
import argparse
import glob
import importlib
import importlib.machinery
import json
import os
import sys
import time
import traceback
import types
import warnings
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")


from vf.bcore import Violation, Skip, registry, gap, missing  # noqa


def setup():
    os.environ.setdefault("MPLBACKEND", "Agg")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sim = os.path.join(REPO, "turbustat/simulator")
    if not glob.glob(os.path.join(sim, "spectrum*.so")):
        m = types.ModuleType("turbustat.simulator.spectrum")
        m.generate_spectrum = lambda *a, **k: None
        sys.modules["turbustat.simulator.spectrum"] = m
    import numpy as np
    np.seterr(all="ignore")


def rng_for(seed, name, k):
    import numpy as np
    return np.random.RandomState((zlib.crc32(name.encode()) + 7919 * int(seed) + 104729 * int(k)) % (2 ** 32))


def from_repo(e):
    """does the exception come out of the repository's code?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, "turbustat")):
            return True
        tb = tb.tb_next
    return False


def wrong_shape(e):
    """a result that cannot be compared with its reference because its shape is another one"""
    return isinstance(e, (ValueError, IndexError)) and any(s in str(e) for s in (
        "could not be broadcast together", "boolean index did not match", "cannot reshape array"))


def run_case(ck, seed, k, hint=None):
    """None, or a failure dict"""
    import numpy as np
    st = np.random.get_state()
    np.random.seed(12345)
    try:
        ck["fn"](rng_for(seed, ck["name"], k), k, hint)
        return None
    except Skip:
        return "skip"
    except Violation as e:
        return {"check": ck["name"], "target": ck["target"], "seed": seed, "case": k, "hint": hint,
                "message": str(e), "known_id": getattr(e, "ident", None)}
    except Exception as e:
        if (from_repo(e) and not gap(e) or missing(e) or wrong_shape(e)) and not ck.get("errors_ok"):
            return {"check": ck["name"], "target": ck["target"], "seed": seed, "case": k, "hint": hint,
                    "message": "unexpected %s: %s" % (type(e).__name__, e),
                    "traceback": "".join(traceback.format_exception(e))[-2500:]}
        raise
    finally:
        np.random.set_state(st)


def worker(args):
    prop, name, seed, tier, hints, deadline = args
    mod = importlib.import_module("vf.bounded." + prop)
    ck = [c for c in mod.CHECKS if c["name"] == name][0]
    n = ck["quick"] if tier == "quick" else ck["thorough"]
    fails, ran, skipped, err = [], 0, 0, None
    t = time.time()
    try:
        for h in hints:
            for k in range(3):
                r = run_case(ck, seed, k, h)
                ran += 1
                if isinstance(r, dict):
                    fails.append(r)
                    break
        for k in range(n):
            if time.time() > deadline or sum(not f.get("known_id") for f in fails) >= 3:
                break
            r = run_case(ck, seed, k)
            ran += 1
            if r == "skip":
                skipped += 1
            elif r is not None and not (r.get("known_id") and any(f.get("known_id") == r["known_id"] for f in fails)):
                fails.append(r)
    except Exception as e:
        err = "".join(traceback.format_exception(e))[-3000:]
    return {"check": name, "target": ck["target"], "ran": ran, "skipped": skipped, "fails": fails,
            "error": err, "seconds": round(time.time() - t, 2), "bound": ck.get("bound", "")}


def run(prop, seed=1, tier="quick", hints=(), budget=150, only=None, jobs=6):
    import multiprocessing as mp
    setup()
    mod = importlib.import_module("vf.bounded." + prop)
    names = [c["name"] for c in mod.CHECKS if not only or c["name"] in only]
    dl = time.time() + budget
    argl = [(prop, n, seed, tier, [h for h in hints], dl) for n in names]
    if jobs == 1:
        res = [worker(a) for a in argl]
    else:
        with mp.get_context("fork").Pool(min(jobs, max(1, len(argl))), maxtasksperchild=8) as p:
            res = p.map(worker, argl, chunksize=1)
    return {"property": prop, "checks": res}


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("checks", nargs="*")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--hints")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        setup()
        d = json.load(open(a.replay))
        mod = importlib.import_module("vf.bounded." + a.prop)
        ck = [c for c in mod.CHECKS if c["name"] == d["check"]][0]
        r = run_case(ck, d["seed"], d["case"], d.get("hint"))
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if isinstance(r, dict) else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    r = run(a.prop, a.seed, a.tier, hints, a.budget, a.checks, a.jobs)
    if a.out:
        json.dump(r, open(a.out, "w"), default=str)
    else:
        for c in r["checks"]:
            print(c["check"], "ran", c["ran"], "skip", c["skipped"], "fails", len(c["fails"]), c["seconds"], "s")
            if c["error"]:
                print(c["error"])
            for f in c["fails"][:2]:
                print("   FAIL", f["message"][:500], f.get("traceback", "")[-800:])
