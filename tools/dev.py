#!/usr/bin/env python3
"""Development driver: dev.py KEY-REGEX [tags...] : assemble and verify the matching functions and print errors."""
import sys, re, json, subprocess, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A
sp = A.parse_specs()
src = os.environ.get("SRC", "/repo/src")
vx, err = A.run_vx(sp, src)
if vx is None:
    print(err); sys.exit(2)
pat = sys.argv[1]
tags = set(sys.argv[2:]) or set(json.load(open(A.SPECS + "/tags.json")))
keys = [k for k in sp.fns if re.search(pat, k)]
base = {} if os.environ.get("NOBASE") else A.load_baseline()
ext = [k for k in sp.fns if os.environ.get("ONLY") and not re.search(os.environ["ONLY"], k)]
text, infos, missing = A.assemble(sp, vx, keys, tags, base, external=ext, wide=keys if os.environ.get("WIDE") else ())
open("/tmp/dev.rs", "w").write(text)
for i in infos:
    if i["missing"] or not i["aligned"]:
        print("NOTE", i["key"], "aligned", i["aligned"], "missing anchors", i["missing"])
if missing: print("MISSING", missing)
args = ["verus", "/tmp/dev.rs", "--crate-type=lib", "--multiple-errors", "3", "--triggers-mode", "silent", "--time"] + os.environ.get("VARGS", "").split()
r = subprocess.run(args, capture_output=True, text=True)
o = r.stderr + r.stdout
lines = o.split("\n")
print("\n".join(l for l in lines if not re.match(r"^\s*(verus-build-info|Verus|Version:|Profile|Platform|Toolchain|verify-crate|total |rust-to|\(use|total-time|estimated|rust-time|vstd|compile|trait|vir|idents|init|poly|air|smt|\w+-time).*", l))[:90000])
m = re.search(r"total-time.*", o)
for f in infos:
    pass
def owner(line):
    for i in infos:
        if i["span"][0] <= line <= i["span"][1]:
            return i["key"]
bad = {}
for m in re.finditer(r"^error[^\n]*\n\s*-->\s*/tmp/dev.rs:(\d+)", o, re.M):
    k = owner(int(m.group(1))); bad[k] = bad.get(k, 0) + 1
print("FAILING:", bad, m and "")
print(re.findall(r"total-time:[^\n]*", o))
