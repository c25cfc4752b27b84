#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
done = set(m for f in os.listdir(V + "/harness/props") if f.endswith("_test.go") for m in re.findall(r"^func Test(C\d\d)\(", open(os.path.join(V, "harness/props", f)).read(), re.M) if f.endswith("_test.go"))
T = json.load(open(V + "/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done and i in T:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
          "evidence_file": f"evidence/{i}.json", "technique": T[i]["technique"], "level": T[i].get("level", "exploration"), "level_note": T[i]["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests (rapid) over the public API with explicit oracles; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
