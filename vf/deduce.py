"""Runs the contracts of one property; prints a JSON report."""
import importlib
import json
import os
import sys
import time
import traceback
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def one(args):
    """all paths of one contract"""
    prop, name, over = args
    from . import core, harness, values, loader
    import z3
    mod = importlib.import_module("vf.contracts." + prop)
    ct = [c for c in mod.S.contracts if c.name == name][0]
    o = dict(ct.opts)
    o.update(over)
    c = core.Ctx(ct.name, ct.target, **o)
    t = time.time()
    err = None
    try:
        c.explore(ct.fn)
    except Exception as e:
        err = "".join(traceback.format_exception(e))[-3000:]
    st = [x.status for x in c.obligs]
    f = {"contract": ct.name, "target": ct.target, "paths": c.paths, "obligations": len(st),
         "proved": st.count("proved"), "refuted": st.count("refuted"), "unknown": st.count("unknown"),
         "undecided": c.undecided[:5], "seconds": round(time.time() - t, 2), "error": bool(err)}
    return {"f": f, "err": err, "obl": [dict(x.as_dict(), contract=ct.name) for x in c.obligs],
            "und": [{"contract": ct.name, "target": ct.target, "why": w} for w in c.undecided],
            "solver_s": c.solver_s, "lemmas": c.lemmas_used, "ass": sorted(c.assumptions)}


W = int(os.environ.get("VF_W", "160"))


def run(prop, only=None, over=None, verbose=False, jobs=6):
    import multiprocessing as mp
    from . import harness, stubs
    harness.install()
    mod = importlib.import_module("vf.contracts." + prop)
    rep = {"property": prop, "functions": [], "obligations": [], "undecided": [], "errors": [],
           "solver_s": 0.0, "lemmas": {}, "assumptions": []}
    names = [c.name for c in mod.S.contracts if not only or c.name in only]
    assert len(set(names)) == len(names), "duplicate contract names"
    # import the code under contract before forking
    try:
        importlib.import_module("turbustat.statistics")
    except Exception as e:
        rep["errors"].append({"contract": "import", "target": "turbustat.statistics", "error": repr(e)})
    args = [(prop, n, over or {}) for n in names]
    if jobs == 1 or len(args) == 1:
        res = [one(a) for a in args]
    else:
        with mp.get_context("fork").Pool(min(jobs, len(args)), maxtasksperchild=1) as p:
            res = list(p.imap(one, args, chunksize=1))
    for r in res:
        rep["functions"].append(r["f"])
        rep["obligations"] += r["obl"]
        rep["undecided"] += r["und"]
        rep["solver_s"] += r["solver_s"]
        if r["err"]:
            rep["errors"].append({"contract": r["f"]["contract"], "target": r["f"]["target"], "error": r["err"]})
        for k, v in r["lemmas"].items():
            rep["lemmas"][k] = rep["lemmas"].get(k, 0) + v
        rep["assumptions"] += r["ass"]
        if verbose:
            f = r["f"]
            print("%-28s paths %d  %d/%d proved, %d refuted, %d unknown, %.1fs %s" % (f["contract"], f["paths"], f["proved"], f["obligations"], f["refuted"], f["unknown"], f["seconds"], [x[-W*2:] for x in f["undecided"]] or ""), file=sys.stderr)
            if r["err"]:
                print(r["err"], file=sys.stderr)
            for x in r["obl"]:
                if x["status"] != "proved":
                    print("   ", x["name"], x["status"], x["model"], (x["detail"] or "")[:W].replace("\n", " "), file=sys.stderr)
    rep["solver_s"] = round(rep["solver_s"], 3)
    rep["trusted"] = ["%s: %s" % kv for kv in sorted(stubs.TRUSTED.items())] + \
        ["numpy stand-in vf/nps.py", "value semantics vf/values.py", "loop rule and builtins vf/rt.py",
         "path exploration, lemma schemas vf/core.py", "z3, cvc5"]
    return rep


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("contracts", nargs="*")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=6)
    a = ap.parse_args()
    over = {}
    if a.tier == "thorough":
        over = {"timeout_ms": 60000, "budget_s": 900, "max_paths": 3000}
    r = run(a.prop, only=a.contracts or None, over=over, verbose=not a.out, jobs=a.jobs)
    if a.out:
        json.dump(r, open(a.out, "w"), default=str)
    else:
        print(a.prop, "obligations", len(r["obligations"]), "proved",
              sum(o["status"] == "proved" for o in r["obligations"]),
              "undecided", len(r["undecided"]), "errors", len(r["errors"]))
