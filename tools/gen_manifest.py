"""Writes /verif/MANIFEST.json from the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "check under construction"})
        continue
    vals = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({"property": p,
                   "quick_cmd": f"/opt/venv/bin/python checks/runner.py {p} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python checks/runner.py {p} --tier thorough",
                   "technique": vals["TECHNIQUE"], "level": vals["LEVEL"], "level_note": vals["NOTE"]})
m = {"version": 1, "setup_cmd": "mkdir -p evidence && /opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "All checks drive the code in /repo/src (imported from the working tree) in scratch directories below the "
              "system's temporary directory; no hooks in /repo are needed. A replay file is re-run with "
              "checks/runner.py <ID> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
