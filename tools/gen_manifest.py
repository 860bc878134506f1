#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from checks_config import CHECKS, NOT_APPLICABLE, TECH, NOTE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=CHECKS[i].get("technique", TECH), level=CHECKS[i]["level"],
                           level_note=CHECKS[i].get("note", NOTE)))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 run_check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam the simulator needs (allocator, logger, event listener, callbacks, time step) is public API or is interposed at link time. See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
