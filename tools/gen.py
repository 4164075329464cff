#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand; not part of any check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
checks = []
for p in props.PROPS:
    if p.get("na"):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['check']}.py {p['id']} quick",
                   "thorough_cmd": f"python3 checks/{p['check']}.py {p['id']} thorough",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")] + props.NA,
     "notes": "No hooks are added to /repo: every check compiles /repo's current sources itself (vt/build.py) and reaches internal interfaces through link-time wrapping and harness files of /verif. Known and fixed findings: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props.PROPS), "properties", len(checks), "checks")
