#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in props.PROPS + props.NOT_APPLICABLE:
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                 "technique": q["technique"], "level": "other", "level_note": q["note"]} for q in props.PROPS],
     "not_applicable": [{"property": q["id"], "reason": q["reason"]} for q in props.NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

import re
seeds = []
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    mj = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/(.*)$", open(os.path.join(V, "seeded", n, "patch.diff")).read(), re.M)))
    seeds.append("| %s | %s | %s | %s | %s |" % (n, mj["property"], ", ".join(files), mj["needs"], mj["what_it_breaks"]))
parts = {
    "methods": "\n".join("- **%s %s.** %s" % (q["id"], q["title"], q["explanation"]) for q in props.PROPS),
    "na": "\n".join("- **%s %s.** %s" % (q["id"], q["title"], q["reason"]) for q in props.NOT_APPLICABLE),
    "seeds": "\n".join(["| id | property | file | needs | breaks |", "|---|---|---|---|---|"] + seeds)}
d = open(os.path.join(V, "DESIGN.md")).read()
for k, v in parts.items():
    d = re.sub(r"(<!-- %s -->\n).*?(<!-- end %s -->)" % (k, k), lambda x: x.group(1) + v + "\n" + x.group(2), d, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
