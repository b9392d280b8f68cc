#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand when properties change)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOTES, SETUP  # noqa: E402

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
             "quantifier": {"over": p["over"], "text": " ".join(p["qtext"].split())},
             "why_tests_cant": " ".join(p["why"].split()),
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick",
                   "thorough_cmd": f"python3 run.py {p['id']} thorough",
                   "technique": " ".join(p["tech"].split()), "level": p.get("level", "model_checking"),
                   "level_note": " ".join(p["note"].split()), "evidence_file": f"evidence/{p['id']}.json"})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": SETUP, "checks": checks, "not_applicable": na, "notes": " ".join(NOTES.split())}, f, indent=1)
    f.write("\n")
