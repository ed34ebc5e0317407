"""Rewrite section 3 of DESIGN.md from properties.jsonl, vf/levels.json and the evidence of the last runs."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(R + "/vf/levels.json"))
out = ["## 3. Per property", "",
       "Numbers are those of the unchanged tree (seed 1, quick). 'Bounded' lists the run-time contracts with their bounds.", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    k = p["id"]
    out += ["### %s %s" % (k, p["title"]), ""]
    e = json.load(open("%s/evidence/%s.json" % (R, k)))["coverage"]
    by = {}
    for t in e["functions_under_contract"]:
        f, _, g = t.partition(": ")
        by.setdefault(f.replace("turbustat/", ""), []).append(g) if g else by.setdefault(t, [])
    out.append("Contracts on: " + "; ".join("%s (%s)" % (f, "; ".join(sorted(g))) if g else f for f, g in sorted(by.items())) + ".")
    n = lv[k]["note"]
    out.append(n[0].upper() + n[1:] + ". %d contracts, %d obligations, %d discharged (%s)." % (
        sum(v["contracts"] for v in e["functions_under_contract"].values()), e["obligations"], e["discharged"],
        ", ".join("%s %d" % kv for kv in sorted(e["back_ends"].items()))))
    if e.get("samples"):
        out.append("Bounded: " + "; ".join("%s, %d cases (%s)" % (x["check"], x["cases"], x["bound"]) for x in e["samples"]) + ".")
    out.append("")
s = open(R + "/DESIGN.md").read()
a, b = s.index("## 3. Per property"), s.index("## 4. ")
open(R + "/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n" + s[b:])
