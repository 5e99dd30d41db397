#!/usr/bin/env python3
"""Writes and confirms planted bugs.  seed.py FILE...: each FILE is a Python file defining BUGS, a list of dicts
{id, property, needs, what, edits: [(path, old, new)], demo}.  A bug is kept in /verif/seeded only after: the patch
applies to HEAD, builds, passes the stable tests, and the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = "/verif"
REPO = "/repo"
def sh(c, cwd=None, env=None):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **(env or {})})
    return r.returncode, r.stdout + r.stderr
PRE = open(V + "/tools/pre.rs").read()
def run(b, keep):
    d = f"{V}/seeded/{b['id']}"
    w = f"/tmp/seed_{b['id']}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"git clone -q {REPO} {w}")
    sh(f"cp -r {V}/tools/empty {w}/x 2>/dev/null")
    for p, old, new in b["edits"]:
        s = open(f"{w}/{p}").read()
        if s.count(old) != 1:
            print(b["id"], "EDIT", p, s.count(old), repr(old[:60])); shutil.rmtree(w); return False
        open(f"{w}/{p}", "w").write(s.replace(old, new))
    rc, diff = sh("git diff", w)
    t = f"/tmp/seedd_{b['id']}"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    shutil.copy(V + "/tools/demo.sh", t)
    os.chmod(t + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/Cargo.lock", t)
    shutil.copytree(V + "/harness/webpki", t + "/webpki", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    open(t + "/demo.rs", "w").write(PRE + b["demo"])
    r0, o0 = sh(f"bash {t}/demo.sh", REPO)
    r1, o1 = sh(f"bash {t}/demo.sh", w)
    shutil.rmtree(w)
    ok = r0 == 0 and r1 not in (0, 2)
    print(b["id"], "demo clean", r0, "patched", r1, "OK" if ok else "BAD")
    if not ok:
        print("  clean:", o0[-1500:], "\n  patched:", o1[-1500:]); shutil.rmtree(t); return False
    shutil.rmtree(d, ignore_errors=True)
    shutil.move(t, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    return True
def tests(b):
    d = f"{V}/seeded/{b['id']}"
    rc, o = sh(f"git -C {REPO} apply {d}/patch.diff")
    try:
        r1, o1 = sh("bash /opt/vp/build.sh")
        r2, o2 = sh(f"bash /opt/vp/test.sh /tmp/seed.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open("/tmp/seed.json"))
        passed = set(got.get("passed", []))
        miss = base - passed
        print(b["id"], "build", r1, "missing tests", sorted(miss)[:3], "OK" if r1 == 0 and not miss and rc == 0 else "BAD")
    finally:
        sh(f"git -C {REPO} checkout -- .")
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = []
    for f in sys.argv[1:]:
        if f.endswith(".py"):
            ns = {}; exec(open(f).read(), ns); bugs += ns["BUGS"]
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    if only: bugs = [b for b in bugs if b["id"] in only]
    with ThreadPoolExecutor(4) as ex: oks = list(ex.map(lambda b: run(b, True), bugs))
    for b, ok in zip(bugs, oks):
        if ok: tests(b)
