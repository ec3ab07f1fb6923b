#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the definitions in tools/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P, NOT_APPLICABLE
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every check drives the exported API of the packages", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": "See DESIGN.md; defects repaired in /repo and findings not repaired are in KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid:", len(P), "properties")
except ImportError:
    print("written (not validated: run with python3-vt)")
