#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS
if os.environ.get("ONLY"):
    PROPS = [p for p in PROPS if p["id"] in os.environ["ONLY"].split(",")]
here = os.path.dirname(os.path.abspath(__file__))
T = "explicit-state model checking of the compiled program in lock step with a reference model"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", T),
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none: the checks link the unmodified program crate", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "One checker binary (mc/), built by check.sh from /repo's working tree. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
