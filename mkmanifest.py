#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(os.path.join(HERE, "checks.json")))
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    checks=[dict(
        property=p,
        quick_cmd="python3 check.py %s quick" % p,
        thorough_cmd="python3 check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=checks[p]["technique"],
        level=checks[p]["level"],
        level_note=checks[p]["level_note"],
    ) for p in props if p in checks],
    not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in checks],
    notes="No hooks in /repo are needed: the checks use the binary and the exported packages. Replays: python3 check.py --replay <path>.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
