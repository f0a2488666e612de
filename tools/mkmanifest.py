"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAPH = ("Every path of the real code (pycid, pgmpy, networkx) over Boolean edge variables is explored and each "
         "assertion is decided by z3 for all diagrams within the bounds; merged stand-ins for a few networkx/pgmpy "
         "functions are validated against the real ones on pinned inputs in every run.")
NUM = ("Every path of the real code (pycid, pgmpy factor arithmetic, numpy object arrays) over symbolic real "
       "parameters is explored and each assertion is decided by z3 over the reals for all values within the bounds; "
       "floating-point rounding is outside the model; contract stand-ins are validated on pinned inputs in every run.")
NA = {}  # property -> why solver-based checking cannot decide it here
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check is built for it yet")})
        continue
    src = open(f).read()
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "path-forking symbolic execution of the real Python code with SMT-decided assertions (z3), "
                     "counterexamples replayed on the unpatched code",
        "level": "model_checking",
        "level_note": NUM if "ENGINE = \"numeric\"" in src else GRAPH,
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Bounds per property are in DESIGN.md and in each evidence file."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
