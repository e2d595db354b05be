#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.CHECKS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import CHECKS, NOT_APPLICABLE
NOTE = ("TLC checks the design model exhaustively within its bounds and validates recorded traces of the real code (built from "
        "/repo's working tree) against the TLA+ trace specification; assurance over the implementation is for the recorded "
        "executions (seeded random plus boundary scenarios). Trusted: TLC, the BigReal arithmetic override, the harness' recording, the compiler")
checks = []
for pid, c in CHECKS.items():
    checks.append(dict(property=pid, quick_cmd="python3 bin/check.py %s quick" % pid, thorough_cmd="python3 bin/check.py %s thorough" % pid,
                       technique="TLA+ specification checked with TLC; TLC trace validation of executions of the real code",
                       level="model_checking", level_note=c.get("note", "") + NOTE))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "not yet built: no check decides it at this commit")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="SERPENT_VERIF", enable="no hooks are needed: the checks use the public interfaces only", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
