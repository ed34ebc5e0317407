"""Writes MANIFEST.json from properties.jsonl, vf/levels.json and what is built."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(H, "vf/levels.json")))
PY = "/opt/venv/bin/python -W ignore -m vf.check "
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    d = os.path.exists(os.path.join(H, "vf/contracts/%s.py" % p))
    b = os.path.exists(os.path.join(H, "vf/bounded/%s.py" % p))
    if not d and not b:
        na.append({"property": p, "reason": levels.get(p, {}).get("na", "check not built")})
        continue
    lv = levels.get(p, {})
    checks.append({
        "property": p, "quick_cmd": PY + p, "thorough_cmd": PY + p + " thorough",
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification: obligations generated from /repo's source by symbolic "
                     "execution of the real functions, discharged by z3/cvc5" +
                     ("; run-time contracts with stated bounds replay refuted obligations and stand in where the "
                      "verifier does not reach" if b else ""),
        "level": lv.get("level", "proof"), "level_note": lv.get("note", "")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -m vf.selftest", "checks": checks,
     "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
