#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props_*.py (only properties that have a check are claimed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "lib")]
import importlib
props = []
for m in ("props_a", "props_b"):
    if os.path.exists(os.path.join(V, "tools", m + ".py")):
        props += importlib.import_module(m).PROPS
sys.argv = ["check.py"]
sys.path.insert(0, V)
import check
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
            "observe_at": p["observe"] or ["public API calls and their results"], "hook_needed": None}}) + "\n")
        if p["id"] in check.FAMILY:
            checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: harnesses compile /repo's sources directly. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
