#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
from props import PROPS, NOT_APPLICABLE
m = {"version": 1,
     "setup_cmd": "cd /verif && for d in vx harness harness_fb; do [ -d $d ] && (cd $d && CARGO_TARGET_DIR=/verif/$d/target cargo build --release --offline --locked) || true; done; bash harness_lsp/build.sh || true",
     "checks": [{"property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for k, p in sorted(PROPS.items())],
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = {json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
assert ids == set(PROPS) | set(NOT_APPLICABLE), ids ^ (set(PROPS) | set(NOT_APPLICABLE))
