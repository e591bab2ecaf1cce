#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/properties.py and lib/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
from properties import PROPERTIES
from props import PROPS, NOT_APPLICABLE, SETUP
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPERTIES]
na = []
for i in ids:
    if i not in PROPS:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "the check is still being built")))
m = dict(version=1, setup_cmd=SETUP, hooks=dict(guard="ODC_MC_HOOKS", enable="no hooks were needed: the guard is reserved and unused", source_commits=[]),
         checks=[dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                      technique=PROPS[i]["technique"], level=PROPS[i]["level"], level_note=PROPS[i]["note"]) for i in ids if i in PROPS],
         not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPERTIES:
        jsonschema.validate(p, sch)
    print("valid:", len(m["checks"]), "checks,", len(na), "not claimed")
except ImportError:
    pass
