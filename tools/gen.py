#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py (run after editing props.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_CLAIMED

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["forall"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_CLAIMED:
        continue
    checks.append(dict(
        property=p["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"],
        technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, pyscf'", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_CLAIMED.items()],
               notes="Contracts in contracts/pNN_*.py run the real functions of /repo; engine/ is the verifier. See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in PROPS:
        assert len(p["statement"].rstrip(".").split(". ")) <= 3, p["id"]
    print("valid")
except ImportError:
    print("jsonschema missing")
