"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT_TECHNIQUE = "runtime monitoring: reference-model monitor over random hostile histories"


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(HERE, "mon", "props", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "no monitor built yet"})
        continue
    c = constants(path)
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "./check " + p["id"],
            "thorough_cmd": "./check {} --tier thorough".format(p["id"]),
            "evidence_file": "evidence/{}.json".format(p["id"]),
            "technique": c.get("TECHNIQUE", DEFAULT_TECHNIQUE),
            "level": "exploration",
            "level_note": "Held on the executions observed (counts in the evidence file), nothing more. "
            + ("Trusts: " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else "Trusts the monitor's reference model."),
        }
    )
json.dump(
    {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing, "notes": "no hooks in /repo are needed: all monitors observe the public interface"},
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks;", [m["property"] for m in missing])
