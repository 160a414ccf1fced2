import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta import NA, PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")
py = "/opt/venv/bin/python -W ignore run.py"
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -W ignore run.py selftest",
    "hooks": {"guard": "PRELIZ_VERIF (unused: the checks need no hooks in /repo)", "enable": "nothing to enable; the checks import /repo's working tree", "source_commits": []},
    "checks": [
        {
            "property": k,
            "quick_cmd": f"{py} {k} quick",
            "thorough_cmd": f"{py} {k} thorough",
            "technique": "symbolic execution of the real Python code with SMT (z3, cvc5), counterexamples replayed",
            "level": "model_checking",
            "level_note": p["note"] + " Reals for floats; see evidence for bounds, functions encoded and anything undecided.",
        }
        for k, p in PROPS.items()
        if k not in NA
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
import jsonschema  # noqa: E402

jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in PROPS.values():
    jsonschema.validate(p["line"], S)
    assert p["line"]["statement"].count(". ") <= 2, p["line"]["id"]
print(len(PROPS), "properties")
