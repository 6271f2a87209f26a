#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NA
rows = {}
for i, p in PROPS.items():
    rows[i] = dict(id=i, title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p.get("observe", []), hook_needed=None))
for p in NA:
    rows[p["id"]] = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=[], hook_needed=None))
for r in rows.values():
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
    for f in r["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("missing anchor", r["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(rows):
        f.write(json.dumps(rows[i], ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                      technique="symbolic execution of the real code's LLVM IR with Z3", level="model_checking", level_note=p["note"] + " Bounds: " + p["bounds"]) for i, p in sorted(PROPS.items())],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in sorted(NA, key=lambda x: x["id"])])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
