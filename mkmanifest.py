"""Write MANIFEST.json from properties.jsonl and the check modules (no check runs this)."""

import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = (
    "Searches generated cases (counts, rule and samples in the evidence file) against an independent oracle; a pass says "
    "that no counterexample was found among them, not that none exists. Trusts Hypothesis, netCDF4/cftime/numpy and the "
    "oracle in wv/. "
)
checks, rest = [], []
for line in open(f"{HERE}/properties.jsonl"):
    p = json.loads(line)
    path = f"{HERE}/wv/props/{p['id']}.py"
    if not os.path.exists(path):
        rest.append({"property": p["id"], "reason": "no check built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "technique": consts["TECHNIQUE"],
        "level": consts.get("LEVEL", "exploration"),
        "level_note": NOTE + "Assumes: " + ("; ".join(consts.get("ASSUMPTIONS", [])) or "nothing further") + ".",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": rest},
          open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(rest), "not claimed")
