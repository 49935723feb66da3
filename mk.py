#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props.py)."""
import json
import os

from props import NA, NOTES, PROPS

ROOT = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]} if "state" in p else {}),
                                             observe_at=p.get("observe", []), hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
na = {n["property"] for n in NA}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(ROOT, "specs", p["id"] + ".py")), p["id"]
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                       technique=p.get("technique", "contract-based deductive verification of the real code (verification conditions from clang IR / CPython execution, algebraic normal form and z3)"),
                       level=p.get("level", "proof"), level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=NA, notes=NOTES), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
