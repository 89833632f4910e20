#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: the harnesses compile /repo's sources unchanged and use the public interfaces; I/O faults and MPI are interposed at link level", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
            thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique=c["technique"], level=c.get("level", "model_checking"),
            level_note=c["note"], evidence_file="evidence/%s.json" % i))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
