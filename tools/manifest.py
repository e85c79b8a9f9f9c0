"""Regenerate MANIFEST.json from properties.jsonl and the implemented checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in TECH and os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py")):
        t = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "technique": t["technique"], "level": t["level"], "level_note": t["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "Nothing to build: checks import /repo's current sources directly (no bytecode cache). No hooks in /repo.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
