#!/usr/bin/env python3
"""Writes the planted changes under /verif/seeded from the table in
tools/seeds_table.py (used by hand only; no check reads seeded/)."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from seeds_table import SEEDS
SH = '''#!/bin/bash
# builds the crate from the current directory and runs demo.rs against it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
F='--edition 2018 --cap-lints allow -C debug-assertions=%s -C opt-level=%s'
rustc $F --crate-type rlib --crate-name indexing --cfg 'feature="use_std"' --cfg 'feature="experimental_pointer_ranges"' src/lib.rs -o "$W/libindexing.rlib" || exit 3
rustc $F --extern indexing="$W/libindexing.rlib" "$D/demo.rs" -o "$W/demo" || exit 3
timeout 60 "$W/demo"
'''
BAD = '''
# a program the types have to reject
rustc $F --extern indexing="$W/libindexing.rlib" "$D/bad.rs" -o "$W/bad" 2> /dev/null && exit 1
rustc $F --extern indexing="$W/libindexing.rlib" "$D/good.rs" -o "$W/good" || exit 3
exit 0
'''
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = os.path.join(here, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        for side in "ab":
            os.makedirs(os.path.join(w, side, "src"))
            for f, _, _ in s["edits"]:
                shutil.copy(os.path.join("/repo", f), os.path.join(w, side, f))
        for f, old, new in s["edits"]:
            p = os.path.join(w, "b", f); t = open(p).read()
            k, n = (old if isinstance(old, tuple) else (old, 1))
            parts = t.split(k)
            assert len(parts) > n and (isinstance(old, tuple) or len(parts) == 2), (s["id"], k, len(parts) - 1)
            t = k.join(parts[:n]) + new + k.join(parts[n:])
            open(p, "w").write(t)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
        r = "\n".join(l for l in r.split("\n"))
        open(os.path.join(d, "patch.diff"), "w").write(r)
    finally:
        shutil.rmtree(w)
    sh = SH
    if s.get("bad"):
        sh = SH[:SH.index("rustc $F --extern")] + BAD.lstrip("\n")
        open(os.path.join(d, "bad.rs"), "w").write(s["bad"].lstrip("\n"))
        open(os.path.join(d, "good.rs"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(sh % ("on" if s.get("dbg") else "off", s.get("opt", 0)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if not s.get("bad"): open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", s["id"])
