#!/usr/bin/env python3
"""Development aid: verify the obligations of each property under several solver seeds and list what fails under any."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A, check as C
sp = A.parse_specs(); base = A.load_baseline()
props = json.load(open(os.path.join(A.SPECS, "properties.json")))
vx, err = A.run_vx(sp, "/repo/src")
A.apply_renames(sp, vx, base)
seeds = [int(x) for x in (sys.argv[2].split(",") if len(sys.argv) > 2 else "1,2,3,4".split(","))]
for pid in (sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else sorted(props)):
    text, infos, _ = A.assemble(sp, vx, props[pid]["roots"], set(props[pid]["tags"]), base, external=set())
    for s in seeds:
        v = C.run_verus(text, infos, ["--smt-option", "smt.random_seed=%d" % s])
        bad = sorted({(C.attribute(m, infos) or "prelude:%s" % m["message"][:60]) for m in v.messages})
        print(pid, s, v.verified, v.errors, "%.0fs" % (v.smt_ms / 1000), bad, flush=True)
