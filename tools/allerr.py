#!/usr/bin/env python3
"""allerr.py REPO-DIR: all obligations that fail on that tree, for every property (H = counts as a violation unless
the harness finds nothing to replay; s = structural, the harness decides)."""
import os, shutil, sys
sys.path.insert(0, "/verif")
import check
check.REPO = os.path.abspath(sys.argv[1])
w = f"/tmp/allerr.{os.getpid()}"
os.makedirs(w)
P = check.prove(w)
print("state", P.state, "verified", P.verified, P.note[:1500])
for x in sorted(P.external): print("  external", x)
for e in P.errors: print("  s" if e["structural"] else "  H", e["fn"], "|", e["msg"], "|", e["clause"][:150], sorted(e["tags"]), e["structural"])
shutil.rmtree(w)
