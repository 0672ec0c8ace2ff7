#!/usr/bin/env python3
"""Writes specs/baseline.json: names of parameters, locals and fields the contracts were written against (unchanged tree)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A
vx, e = A.run_vx(A.parse_specs())
sn = A.snapshot(vx)
keep = set(A.parse_specs().fns)
sn["fns"] = {k: v for k, v in sn["fns"].items() if k in keep}
json.dump(sn, open(os.path.join(A.SPECS, "baseline.json"), "w"), indent=0, sort_keys=True)
