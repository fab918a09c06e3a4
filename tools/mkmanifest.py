#!/usr/bin/env python3
"""Writes MANIFEST.json from props.CHECKS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("The TLA+ specification is checked exhaustively by TLC within small constants; its transitions and seeded larger programs are "
        "run on the real library (dev and release builds) and every recorded event is validated against the same specification by TLC. "
        "Holds for everything explored; trusted: TLC, the harness's scalar types and JSON code, the generators' coverage. ")
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks: python3 check.py <ID>; VERIF_TIER selects the depth, VERIF_SEED the random choices. No hooks in /repo are needed: the public API exposes the abstract state."}
for i in ids:
    if i in props.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": "TLA+ specification (TLC) + trace validation of the real code: " + props.TECH.get(i, ""),
                            "level": "model_checking", "level_note": NOTE + props.NOTES.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
