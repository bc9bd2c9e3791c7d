"""Writes /verif/PLANTED.md, the table of planted bugs, from seeded/*/meta.json
(documentation only; no check reads seeded/)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append((m["property"], os.path.basename(d), m["what_it_breaks"],
                 m["needs"]))
with open(os.path.join(ROOT, "PLANTED.md"), "w") as f:
    f.write("# Planted bugs\n\nEach is caught by the quick tier of the check "
            "of its property (seed 1).\n\n| check | bug | breaks | needs |\n"
            "|---|---|---|---|\n")
    for r in sorted(rows):
        f.write("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n")
