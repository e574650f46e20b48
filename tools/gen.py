"""write /verif/properties.jsonl and /verif/MANIFEST.json from tools/spec.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec
NA = getattr(spec, "NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in spec.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in spec.P:
    if p["id"] in NA:
        continue
    assert os.path.exists(os.path.join(V, "dst", "props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": p["_technique"], "level": "exploration", "level_note": p["_note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Deterministic simulation with fault injection; see DESIGN.md. No hooks are needed in /repo: every seam is an argument, a module attribute or the process environment."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(spec.P), "properties,", len(checks), "checks")
