#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (run by hand; the outputs are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import PROPS, NA, HOOKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=HOOKS,
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                      thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"],
                      technique="contract-based deductive verification of the real C code with CBMC (goto-cc/DFCC contracts, bit-precise)",
                      level=p.get("level", "proof"), level_note=p["note"]) for p in PROPS],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
         notes="See DESIGN.md. All checks read the sources of /repo's working tree on every run.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
