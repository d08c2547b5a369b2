#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_meta.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props_meta import PROPS, NOT_APPLICABLE
PROPS.sort(key=lambda p: p["id"])
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, ensure_ascii=False) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
checks = [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
          for p in sorted(PROPS, key=lambda p: p["id"]) if p["id"] not in na]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "Rust harness crate in harness/ (path dependency on /repo, offline). DESIGN.md describes the engine, oracles, findings and seeded bugs."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(f"{root}/MANIFEST.json", "a").write("\n")
if os.path.isdir("/repo/src"):
    for p in PROPS:
        for f in p["files"] + [w for _, w in p["mech"]]:
            assert os.path.exists(f"/repo/{f}"), (p["id"], f)
