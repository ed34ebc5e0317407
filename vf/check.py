"""python -m vf.check <property>: decides one property.

The contracts of the property are turned into obligations from /repo's current
source and discharged (vf.deduce); next to it the same contracts are evaluated
at run time on the unmodified code with generated inputs (vf.bounded_run), which
is also how a refuted obligation is replayed."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
EV = os.path.join(HERE, "evidence")


def spawn(args, env):
    return subprocess.Popen([PY, "-W", "ignore", "-m"] + args, cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        out, err = p.communicate()
        err += "\n[timeout]"
    return out, err


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def known_findings(prop):
    f = os.path.join(HERE, "known_findings.json")
    d = load(f) or {"findings": []}
    return [x for x in d["findings"] if x["property"] == prop and x.get("status") != "fixed"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONHASHSEED="0",
               MPLCONFIGDIR=tempfile.gettempdir())
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    dj, bj = os.path.join(tmp, "d.json"), os.path.join(tmp, "b.json")
    budget = 240 if tier == "quick" else 1500
    has_d = os.path.exists(os.path.join(HERE, "vf/contracts/%s.py" % prop))
    has_b = os.path.exists(os.path.join(HERE, "vf/bounded/%s.py" % prop))
    pd = spawn(["vf.deduce", prop, "--out", dj, "--tier", tier], env) if has_d else None
    pb = spawn(["vf.bounded_run", prop, "--out", bj, "--tier", tier, "--seed", str(seed),
                "--budget", str(budget)], env) if has_b else None
    derr = berr = ""
    if pd:
        _, derr = finish(pd, 400 if tier == "quick" else 3000)
    if pb:
        _, berr = finish(pb, 400 if tier == "quick" else 3000)
    D, B = load(dj), load(bj)
    problems = []
    if has_d and D is None:
        problems.append("deductive run failed: " + derr[-1500:])
    if has_b and B is None:
        problems.append("run-time contracts failed to run: " + berr[-1500:])
    obs = D["obligations"] if D else []
    refuted = [o for o in obs if o["status"] == "refuted" and not o["tainted"]]
    unknown = [o for o in obs if o["status"] != "proved" and o not in refuted]
    fails = [f for c in (B["checks"] if B else []) for f in c["fails"]]
    for c in (B["checks"] if B else []):
        if c["error"]:
            problems.append("check %s: %s" % (c["check"], c["error"]))
    for e in (D["errors"] if D else []):
        problems.append("contract %s: %s" % (e["contract"], e["error"]))
    known = known_findings(prop)
    seen_known = []

    def is_known(f):
        for kf in known:
            if kf["check"] == f["check"] and kf["id"] == f.get("known_id"):
                if kf not in seen_known:
                    seen_known.append(kf)
                return True
        return False
    fails = [f for f in fails if not is_known(f)]
    # replay of refuted obligations: the solver's input values on the real code
    if refuted and not fails and has_b:
        hints, hs = [], set()
        for o in refuted:
            if o.get("model"):
                key = json.dumps(o["model"], sort_keys=True)
                if key not in hs:
                    hs.add(key)
                    hints.append(o["model"])
        hf = os.path.join(tmp, "h.json")
        json.dump(hints[:20], open(hf, "w"))
        p = spawn(["vf.bounded_run", prop, "--out", bj, "--tier", tier, "--seed", str(seed + 1000),
                   "--budget", str(budget), "--hints", hf], env)
        finish(p, 400)
        B2 = load(bj)
        fails = [f for c in (B2["checks"] if B2 else []) for f in c["fails"] if not is_known(f)]
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    viol = 0
    line = None
    rp = os.path.join(EV, "replay-%s.json" % prop)
    if fails:
        viol = len(fails)
        f = dict(fails[0])
        f.update(property=prop, others=fails[1:6],
                 refuted_obligations=[{k: o[k] for k in ("contract", "name", "fn", "model", "detail")}
                                      for o in refuted[:6]],
                 replay_cmd="cd /verif && %s -W ignore -m vf.bounded_run %s --replay %s" % (PY, prop, rp))
        json.dump(f, open(rp, "w"), indent=1, default=str)
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
        print("run-time contract %s (%s) failed: %s" % (f["check"], f["target"], f["message"]))
    elif refuted:
        viol = len(refuted)
        json.dump({"property": prop, "failed_obligations": refuted[:10],
                   "note": "the verifier refutes these obligations of the current source; the values it "
                           "gives did not make the run-time contract fail"}, open(rp, "w"), indent=1, default=str)
        for o in refuted[:5]:
            print("obligation failed: %s / %s of %s" % (o["contract"], o["name"], o["fn"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
    wall = round(time.time() - t0, 2)
    meta = load(os.path.join(HERE, "vf/levels.json")) or {}
    level = meta.get(prop, {}).get("level", "proof" if has_d else "exploration")
    nproved = sum(o["status"] == "proved" for o in obs)
    ran = sum(c["ran"] - c["skipped"] for c in (B["checks"] if B else []))
    cov = {}
    if has_d:
        back = {}
        for o in obs:
            if o["status"] == "proved":
                back[o["backend"]] = back.get(o["backend"], 0) + 1
        by = {}
        for f in (D or {}).get("functions", []):
            e = by.setdefault(f["target"], {"contracts": 0, "paths": 0, "obligations": 0, "proved": 0, "undecided": 0})
            e["contracts"] += 1
            e["paths"] += f["paths"]
            e["obligations"] += f["obligations"]
            e["proved"] += f["proved"]
            e["undecided"] += len(f["undecided"])
        cov.update(obligations=len(obs), discharged=nproved,
                   checker_cmd="cd /verif && %s -W ignore -m vf.deduce %s" % (PY, prop),
                   trusted_base=(D or {}).get("trusted", []),
                   functions_under_contract=by, back_ends=back, solver_seconds=(D or {}).get("solver_s"),
                   lemma_instances=(D or {}).get("lemmas"),
                   undecided=[dict(contract=o["contract"], obligation=o["name"], status=o["status"]) for o in unknown][:30] +
                             ((D or {}).get("undecided", [])[:30]))
    if B:
        cov.update(evaluations=sum(c["ran"] for c in B["checks"]), distinct_nontrivial=ran,
                   rule="bounded stand-in (never counted as proved): cases are generated from VERIF_SEED, the check "
                        "name and the case number; a case is non-trivial when its precondition held (not skipped)",
                   samples=[{"check": c["check"], "target": c["target"], "cases": c["ran"], "bound": c["bound"],
                             "replay_of_case": "seed=%d check=%s case=0" % (seed, c["check"])} for c in B["checks"]])
    cov["explanation"] = meta.get(prop, {}).get("note", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set((D or {}).get("assumptions", []))) +
          ["floating point treated as real arithmetic with explicit nan/inf flags",
           "numpy, scipy, astropy and statsmodels calls follow the stand-in contracts listed in trusted_base"],
          "wall_s": wall, "violations": viol,
          "check_problems": [p[-600:] for p in problems],
          "known_findings": [k["id"] for k in seen_known]}
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1, default=str)
    for kf in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    print("%s %s: %d obligations, %d discharged, %d refuted, %d undecided; %d run-time evaluations; %.1f s" % (
        prop, tier, len(obs), nproved, len(refuted), len(unknown) + len((D or {}).get("undecided", [])), ran, wall))
    if line:
        print(line)
        return 1
    for p in problems:
        print("check problem: " + p[-800:], file=sys.stderr)
    if not obs and not ran:
        print("nothing was checked", file=sys.stderr)
        return 2
    if problems and not (nproved or ran):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
