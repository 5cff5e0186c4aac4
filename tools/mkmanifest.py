#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# properties whose functions are (essentially all) under Verus contracts
PROOF = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21".split()
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    if i == "C22": continue
    pr = i in PROOF
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
      "technique": "contract-based deductive verification of the mechanically extracted code (Verus)" + ("" if pr else ", bounded search for functions not yet under contract"),
      "level": "proof" if pr else "exploration",
      "level_note": "Verus discharges pre/postconditions, loop invariants and absence of overflow of the functions listed in the evidence, for all inputs; functions not under contract are searched within bounds only (labelled so). Trusted: the extraction's rewrites, the assumed specifications listed in trusted_base, branding (rustc)."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
 "not_applicable": [{"property": "C22", "reason": "Brand isolation quantifies over client programs and is decided by rustc's type and lifetime checker; no pre/postcondition on the crate's functions can express 'this client is rejected', and Verus/Kani take programs that already type-check."}],
 "notes": "Every check rebuilds everything it needs from /repo's working tree in a temporary directory. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
