#!/usr/bin/env python3
# Regenerates MANIFEST.json from lib/plan.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from plan import PROPS, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": PROPS[p]["technique"], "level": "exploration", "level_note": PROPS[p]["note"]} for p in ids if p in PROPS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "No check has been built for it yet.")} for p in ids if p not in PROPS]}
m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("ok", len(m["checks"]), "claimed")
