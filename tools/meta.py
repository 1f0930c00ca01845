#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose driver exists)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, driver, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, driver=driver, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


exec(open(V + "/tools/table.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        if not os.path.exists(f"{V}/harness/{p['driver']}.cpp"):
            continue
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in P:
    if not os.path.exists(f"{V}/harness/{p['driver']}.cpp"):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "Every check compiles its driver together with /repo's current sources (harness/build.py); no hooks are needed in /repo. "
                    "Failing cases are shrunk and stored as choice sequences; replay with build/<id>/<driver> --replay <file>."},
          open(V + "/MANIFEST.json", "w"), indent=1)
