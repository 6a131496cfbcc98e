#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known-findings.json from tools/props/*.json-like tables."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from proptable import PROPS, NOT_CLAIMED, KNOWN, FIXED, HOOKS
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_CLAIMED:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash /verif/run.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": HOOKS,
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_CLAIMED],
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=2, ensure_ascii=False)
json.dump({"findings": [dict(property=a, status="known", sig=b, input=c, what=d) for a, b, c, d in KNOWN]
    + [dict(property=a, status="fixed", commit=b, what=f"fixed: property={a} {b} {c}") for a, b, c in FIXED]},
    open(os.path.join(here, "known-findings.json"), "w"), indent=1, ensure_ascii=False)
