"""Writes /verif/MANIFEST.json from the property list and the checks that exist."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
checks, na = [], []
for line in open(V / "properties.jsonl"):
    p = json.loads(line)["id"]
    f = V / "py" / "props" / f"{p.lower()}.py"
    if not f.exists():
        na.append({"property": p, "reason": "the check for this property is not built yet"})
        continue
    names = {n.targets[0].id: n.value for n in ast.parse(f.read_text()).body
             if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    note = ast.literal_eval(names["NOTE"]) if "NOTE" in names else (
        "TLC explores the bounded design model and judges every recorded behaviour of the real code; "
        "assurance is exhaustive within the model bounds and sampled beyond them.")
    checks.append({
        "property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
        "technique": "TLA+ specification checked with TLC; conformance by TLC-judged traces of the real code on "
                     "spec-generated and seeded inputs",
        "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks observe the public API of the unmodified package imported from /repo/src."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
