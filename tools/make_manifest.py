"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        n = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python run.py {p} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, sklearn, "
                  "pybind11; print('ok')\"",
     "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none",
               "enable": "No hooks were added to /repo: every monitor attaches "
                         "at the public API and at documented extension "
                         "points; sanitizers are enabled by compiler flags.",
               "source_commits": []},
     "notes": "Every check builds ext/_hmmc.cpp of /repo's working tree in a "
              "scratch directory and imports /repo/src. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
