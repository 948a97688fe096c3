#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.dont_write_bytecode = True
sys.path.insert(0, root)
import checks
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="Runtime monitoring and sanitizers; see DESIGN.md. No hooks were needed: every monitor attaches at the public "
               "interface, at the allocator and output-handler callbacks, or at the process boundary.")
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append(dict(property=p["id"], reason=checks.NOT_CLAIMED.get(p["id"], "no check has been built for it yet")))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
