#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from props import P
from checks import CHECKS
NA = []
lines, checks = [], []
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["level_note"]})
    else:
        NA.append({"property": p["id"], "reason": "check not built yet"})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": NA,
           "notes": "Checks build /repo's working tree with clang and sanitizers in /verif/build; no hooks in /repo are needed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties,", len(checks), "checks")
