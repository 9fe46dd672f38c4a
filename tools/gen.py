#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, p in sorted(PROPS.items()):
        assert len(p["title"]) <= 80, id
        f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"].strip(), "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = [{"property": id, "quick_cmd": "python3 check.py %s" % id, "thorough_cmd": "python3 check.py %s --tier thorough" % id,
           "evidence_file": "evidence/%s.json" % id, "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for id, p in sorted(PROPS.items())]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": NA,
               "notes": "No hooks in /repo are needed: everything the engines use is public. Commits in /repo are repairs (fix:)."}, f, indent=1)
    f.write("\n")

try:
    import jsonschema
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")): jsonschema.validate(json.loads(l), schema)
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: print("not validated: run with python3-vt")
