#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harness modules."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
from notes import LEVEL, NOTE, TECH, NA
have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(V + "/harness/c[0-9][0-9]_*.py")}
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(
            property=i, quick_cmd="/opt/venv/bin/python -B check.py %s" % i, thorough_cmd="/opt/venv/bin/python -B check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH["*"]), level=LEVEL.get(i, "other"), level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/setup.py", checks=checks, not_applicable=na,
         notes="One engine (pyvc) for all checks: contracts in harness/cNN_*.py, run over the code of /repo as it is now. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties", len(checks), "checks")
