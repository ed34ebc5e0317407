"""tools/add_fixed.py C12 <commit> text: records a repaired defect in known_findings.json"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, "known_findings.json")
d = json.load(open(f))
p, c, t = sys.argv[1:4]
e = {"status": "fixed", "property": p, "entry": "fixed: property=%s %s %s" % (p, c, t)}
if e not in d["findings"]:
    d["findings"].append(e)
json.dump(d, open(f, "w"), indent=1)
