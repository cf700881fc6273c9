"""writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
info = json.load(open(f"{H}/checks.json"))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = info.get(p["id"])
    if not i:
        na.append({"property": p["id"], "reason": "the contracts of this property are not finished yet"})
        continue
    d = {"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
         "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough", "technique": i["technique"], "level": i.get("level", "proof"),
         "level_note": i["note"]}
    if i.get("theorems"):
        d["theorems"] = i["theorems"]
    checks.append(d)
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "contract-based deductive verification of the real Python source by a verifier written for this task (pyvc)"},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
