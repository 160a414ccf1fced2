"""add an entry to known_findings.json: fixed.py PROPERTY COMMIT TEXT"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
n = max(int(x["id"][1:]) for x in d["findings"]) + 1
d["findings"].append({"id": f"F{n}", "property": sys.argv[1], "status": "fixed", "what": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
