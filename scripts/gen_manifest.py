#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": p["state"], "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check --build",
     "hooks": {"guard": "none", "enable": "No hooks: the checks use public items only; /repo carries fix: commits alone.", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}", "technique": p["technique"],
                 "level": "fault_enumeration" if p["technique"].startswith("fault enumeration") else "exploration",
                 "level_note": p["note"]} for p in PROPS],
     "not_applicable": []}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
