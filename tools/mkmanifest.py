import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf8")]
PY = "/opt/venv/bin/python -B -m vf.cli"
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        tech, note = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"{PY} {i} quick", "thorough_cmd": f"{PY} {i} thorough", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m vf.setup_check", "checks": checks, "not_applicable": na,
     "notes": "Solver-based checking of the real code; no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8"), indent=1)
print(len(checks), "checks", len(na), "n/a")
