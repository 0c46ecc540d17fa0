#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
checks = []
for id in sorted(meta.PROPS):
    m = meta.PROPS[id]
    c = dict(property=id, quick_cmd="python3 tools/check.py " + id, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + id,
             technique=m["technique"], level=m["level"], level_note=m["note"])
    if m["level"] == "proof" and m.get("theorems"):
        c["theorems"] = m["theorems"]
    checks.append(c)
d = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(meta.NOT_APPLICABLE.items())],
         notes="Contracts are in spec/, the verification condition generator in gvc/, the bounded harness in harness/. No hooks: contracts are keyed by function name and loop ordinal, so /repo carries no annotations.")
json.dump(d, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
