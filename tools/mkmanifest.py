#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/suites.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/bin")
import suites as SU
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SU.PROPS:
        ss = sorted({x[0] for x in SU.PROPS[i]["suites"]})
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} --tier quick",
            thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
            technique="TLA+ specification: TLC exhaustive model + TLC trace validation of the real contracts",
            level="model_checking",
            level_note="TLC checks the property exhaustively on the specification (" + ", ".join(sorted({m['module'] for s in ss for m in SU.SUITES[s].get('mc_quick', [])})) +
              ") within small constants; the real contracts, run in cw-multi-test, are bound to it step by step: every recorded step (random, specification-generated and scenario histories, suites " +
              ", ".join(ss) + ") must be the specified transition with the specified observable state. Sampled on the code side, not a proof."))
    else:
        na.append(dict(property=i, reason=SU.NOT_CLAIMED.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 bin/check.py --setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: every observation uses public messages and queries", source_commits=[]))
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not claimed")
