#!/usr/bin/env python3
"""Rewrite contracts/baseline.json and mined_base.txt from the current (reviewed) tree."""
import json, os, tempfile, check
check.build_vx()
w = tempfile.mkdtemp()
rc, out, rep, e = check.run_vx(w, "gen", check.ENVC)
assert rc == 0, e
r = json.load(open(rep))
json.dump([dict(id=f["file"] + ":" + f["key"], shape=f["shape"], inlined=sorted(f["inlined"])) for f in r["functions"]], open(check.V + "/contracts/baseline.json", "w"), indent=0)
_, _, _, ints, strs = check.mine(w)
with open(check.V + "/mined_base.txt", "w") as o:
    for i in sorted(ints):
        o.write(f"i {i}\n")
    for s in sorted(strs):
        o.write(f"s {s.hex()}\n")
