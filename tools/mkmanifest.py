#!/usr/bin/env python3
# Writes MANIFEST.json from the properties and the check configuration.
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CONFIG, NOT_APPLICABLE, NOTES, TECHNIQUE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONFIG:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUE[i], level="exploration", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: seams are reached at build time by renaming symbols in the library's object files and by compiler instrumentation. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
