"""tools/regress.py [Cxx ...] [--update]: runs vf.deduce for each property and compares the
number of discharged obligations per contract with tools/baseline.json (a development aid;
no registered check reads it).  A contract that discharges fewer, or has anything
undecided, refuted or in error, is printed."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(HERE, "tools/baseline.json")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
props = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "vf/contracts")) if f.startswith("C"))
base = json.load(open(BASE)) if os.path.exists(BASE) else {}
bad = 0
for p in props:
    out = tempfile.mktemp(suffix=".json")
    subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "vf.deduce", p, "--out", out], cwd=HERE,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    d = json.load(open(out))
    os.unlink(out)
    now = {f["contract"]: f["proved"] for f in d["functions"]}
    for f in d["functions"]:
        if f["proved"] != f["obligations"] or f["undecided"] or f["error"] or not f["proved"]:
            bad += 1
            print(p, f["contract"], "%d/%d" % (f["proved"], f["obligations"]), f["undecided"][:2])
    for k, v in base.get(p, {}).items():
        if now.get(k, 0) < v:
            bad += 1
            print(p, k, "discharges %d, was %d" % (now.get(k, 0), v))
    base[p] = now
    print(p, sum(now.values()), flush=True)
if "--update" in sys.argv:
    json.dump(base, open(BASE, "w"), indent=0, sort_keys=True)
sys.exit(bool(bad))
