#!/usr/bin/env python3
"""show.py KEY-REGEX: print the extracted text of functions (all functions treated as under contract)."""
import sys, re, json, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A
sp = A.parse_specs()
for k in sys.argv[2:]:
    sp.fns.setdefault(k, {"__key": k})
r, e = A.run_vx(sp, os.environ.get("SRC", "/repo/src"))
for f in r["fns"]:
    if re.search(sys.argv[1], f["key"]):
        print("///", f["key"], "loops", f["loop_kinds"], "locals", f["locals"], "UNSUPPORTED" if f["unsupported"] else "", f["unsupported"], "inlined", f.get("inlined"))
        print(f["sig"]); print(re.sub(r"\n\s*\n", "\n", f["body"])); print()
if not [1 for f in r["fns"] if re.search(sys.argv[1], f["key"])]:
    print([f["key"] for f in r["fns"]])
