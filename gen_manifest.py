"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "Q03": "explicit enumeration of inputs x process counts x schedules on the real code (simulated MPI)",
    "Q04": "stateless model checking of the real collectives: all schedules and failure points (simulated MPI)",
    "Q12": "exhaustive operation-sequence exploration of the real code against a reference model",
    "Q18": "exhaustive call-sequence exploration of the real code against a reference model",
    "Q17": "exhaustive input x process-count x schedule enumeration on the real code (simulated MPI)",
    "Q22": "stateless exploration of end-to-end runs over process counts and schedules (simulated MPI)",
}
DEFAULT = "exhaustive bounded exploration of the real code against a reference model"
NOTE = ("Every execution within the stated bounds is run on the real code and "
        "compared step by step with a small reference model; nothing is "
        "sampled. Bounds: %s")

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    bounds = {}
    for node in ast.walk(ast.parse(open(f).read())):
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], "id", "") == "bounds":
            bounds = ast.literal_eval(node.value)
    checks.append(dict(
        property=p["id"], quick_cmd=f"./run {p['id']} quick",
        thorough_cmd=f"./run {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="model checking: " + TECH.get(p["id"], DEFAULT),
        level="model_checking", level_note=NOTE % bounds.get("quick")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
