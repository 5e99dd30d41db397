#!/usr/bin/env python3
"""check.py PROPERTY - decide one property of /repo's current tree.

1. extract/ (vx) takes the functions under contract out of /repo/src, verbatim up to the rewrites
   listed in DESIGN.md, puts the contracts of contracts/ on them, and Verus checks every obligation.
2. harness/ runs bounded conformance checks of the real crate for the same property: stand-in for
   functions the proof does not reach, and search for a failing input when an obligation fails.

Exit 0: held.  Exit 1: VIOLATION line.  Tier and seed: VERIF_TIER, VERIF_SEED.
"""
import json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(V, "target")
ENVC = {**os.environ, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTFLAGS": "", "RUSTC_WRAPPER": ""}


def sh(cmd, timeout, env=None, cwd=V):
    """(rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENVC, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")


# ---------------------------------------------------------------- proof
def build_vx():
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet"], 300, {**ENVC, "CARGO_TARGET_DIR": TGT + "/vx"}, V + "/extract")
    return None if rc == 0 else (e or o)[-2000:]


def fn_index(text):
    """per line of the generated file: the function it belongs to (or None)"""
    cur, idx = None, []
    for l in text.split("\n"):
        m = re.match(r"//FN (\S+) (.+?)\s*$", l)
        if m:
            cur = m.group(1) + ":" + m.group(2)
        elif re.match(r"pub mod \w+ \{ // MODULE|\} // END MODULE|//SPEC|(pub )?(broadcast )?proof fn|(pub )?open spec fn|proof fn", l):
            cur = None
        idx.append(cur)
    return idx


def tags_of(line):
    m = re.search(r"//@([C0-9 ]+)", line)
    return set(m.group(1).split()) if m else set()


class Proof:
    def __init__(self):
        self.state = "none"      # ok | failed | unavailable
        self.errors = []         # obligations that failed: dict(fn, tags, msg, clause, structural)
        self.note = ""
        self.external = []       # functions whose bodies were out of reach this time
        self.rep, self.text, self.lines = None, "", []
        self.cmd = ""
        self.verified = 0
        self.smt_ms = 0
        self.fn_times = {}
        self.canaries = 0


def run_vx(work, tag, env):
    out, rep = f"{work}/{tag}.rs", f"{work}/{tag}.json"
    rc, o, e = sh([TGT + "/vx/release/vx", REPO, V + "/contracts", V + "/contracts/prelude.rs", out, rep], 60, env)
    return rc, out, rep, e


def diagnostics(err):
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                yield d


SOFT = re.compile(r"rlimit|resource limit|timed? ?out|could not|not supported|unsupported", re.I)


def prove(work):
    P = Proof()
    e = build_vx()
    if e:
        P.state, P.note = "unavailable", "the extractor does not build: " + e
        return P
    base = {}
    try:
        base = {f["id"]: f for f in json.load(open(V + "/contracts/baseline.json"))}
    except OSError:
        pass
    forced = []
    for attempt in range(8):
        rc, out, rep, e = run_vx(work, "gen", {**ENVC, "VX_EXTERNAL": ";".join(forced)})
        if rc != 0:
            P.state, P.note = "unavailable", "extraction fails: " + e[-1500:]
            return P
        P.text = open(out).read()
        P.lines = P.text.split("\n")
        P.rep = json.load(open(rep))
        idx = fn_index(P.text)
        cmd = ["verus", out, "--multiple-errors", "6", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "8", "--rlimit", os.environ.get("VX_RLIMIT", "60")]
        P.cmd = " ".join(cmd)
        rc, o, err = sh(cmd, 500, cwd=work)
        if rc is None:
            P.state, P.note = "unavailable", "the verifier did not finish within 500 s"
            return P
        try:
            res = json.loads(o)
        except ValueError:
            res = {}
        vr = res.get("verification-results", {})
        diags = list(diagnostics(err))
        verified_all = vr.get("is-verifying-entire-crate") and not vr.get("encountered-vir-error") and "verified" in vr
        if not verified_all or vr.get("verified", 0) == 0:
            # the verifier does not accept the text of some function: assume its contract, go on without it
            bad = set()
            for d in diags:
                for s in d["spans"]:
                    if s["is_primary"] and s["line_start"] - 1 < len(idx) and idx[s["line_start"] - 1]:
                        bad.add(idx[s["line_start"] - 1])
            bad -= set(forced)
            msg = "; ".join(d["message"][:120] for d in diags[:3])
            if not bad:
                P.state, P.note = "unavailable", "the verifier does not accept the extracted text: " + (msg or err[-600:])
                P.external = forced
                return P
            forced += sorted(bad)
            P.note += f" out of the verifier's reach: {', '.join(sorted(bad))} ({msg});"
            continue
        break
    else:
        P.state, P.note = "unavailable", P.note + " too many functions out of reach"
        return P
    P.external = forced
    P.verified = vr.get("verified", 0)
    t = res.get("times-ms", {})
    P.smt_ms = t.get("smt", {}).get("total", 0) if isinstance(t.get("smt"), dict) else 0
    P.total_ms = t.get("total", 0)
    for m in (t.get("smt", {}) or {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            P.fn_times[f.get("function", "")] = f.get("time", 0)
    recs = {f["file"] + ":" + f["key"]: f for f in P.rep["functions"]}
    want_canary = sum(1 for l in P.lines if l.endswith("//CANARY"))
    P.canaries = want_canary
    seen_canary = set()
    for d in diags:
        lines = [(s["line_start"], s["is_primary"], s.get("label") or "") for s in d["spans"] if s["file_name"].endswith("gen.rs")]
        if any("//CANARY" in P.lines[n - 1] for n, _, _ in lines):
            seen_canary.add(min(n for n, _, _ in lines if "//CANARY" in P.lines[n - 1]))
            continue
        msg = d["message"]
        prim = [n for n, p, _ in lines if p] or [n for n, _, _ in lines]
        fns = [idx[n - 1] for n in prim if idx[n - 1]] + [idx[n - 1] for n, _, _ in lines if idx[n - 1]]
        # the function being checked: for a failed precondition the call site, else the clause's function
        if "precondition" in msg:
            fns = [idx[n - 1] for n, _, l in lines if idx[n - 1] and "failed precondition" not in l] + fns
        fn = fns[0] if fns else None
        anchor = next((n for n, _, _ in lines if fn and idx[n - 1] == fn), prim[0] if prim else 1)
        clause_tags = set()
        if "precondition" not in msg:
            for n, _, l in lines:
                clause_tags |= tags_of(P.lines[n - 1])
        if not clause_tags and fn:
            clause_tags = fn_tags(P, idx, fn)
        r, b = recs.get(fn), base.get(fn)
        structural = ""
        if SOFT.search(msg):
            structural = "the solver gave up"
        elif fn is None:
            structural = "a lemma fails"
        elif r and r["lost"]:
            structural = "proof hints lost their place"
        elif r and b and (r["shape"] != b["shape"] or sorted(r["inlined"]) != sorted(b["inlined"])):
            structural = "the function's loops or helpers changed"
        elif r and not b:
            structural = "a new function"
        elif forced:
            structural = "a function it may depend on is out of reach"
        P.errors.append(dict(fn=fn, tags=sorted(clause_tags), msg=msg, clause="; ".join(P.lines[n - 1].strip()[:200] for n, _, _ in lines), structural=structural, rendered=d.get("rendered", "")[:3000], at=item_at(P.lines, anchor)))
    if len(seen_canary) != want_canary:
        P.state, P.note = "unavailable", "vacuity guard: a contradiction was accepted"
        return P
    P.idx = idx
    if P.errors:
        second_look(P, work, out)
    P.state = "failed" if P.errors or P.rep["missing"] or forced else "ok"
    if P.rep["missing"]:
        P.note += " functions under contract that no longer exist: " + ", ".join(P.rep["missing"])
    return P


def item_at(lines, n):
    """(module, name) of the item that line n of the generated file lies in"""
    mods, name = [], None
    for l in lines[:n]:
        m = re.match(r"pub mod (\w+) \{ // MODULE", l)
        if l.startswith("pub mod specs {"):
            mods = ["specs"]
        elif m:
            mods = [] if mods == ["specs"] else mods
            mods.append(m.group(1))
        elif l.startswith("} // END MODULE"):
            mods.pop()
        m = re.match(r"\s*(?:pub(?:\(\w+\))? )?(?:const )?(?:broadcast )?(?:proof )?fn (\w+)", l)
        if m:
            name = m.group(1)
    return "::".join(mods), name


def second_look(P, work, gen):
    """an obligation that failed in the whole run is tried again with its function alone, under other solver seeds:
    a proof found under any seed is a proof"""
    spots = sorted({e["at"] for e in P.errors if e["at"][1]})[:5]
    good = set()

    def one(spot):
        mod, name = spot
        for s in ("7", "23"):
            cmd = ["verus", gen, "--output-json", "--error-format=json", "--num-threads", "2", "--rlimit", "80", "--verify-function", "*" + name]
            cmd += ["--verify-only-module", mod] if mod else ["--verify-root"]
            rc, o, err = sh(cmd + ["--smt-option", "smt.random_seed=" + s], 200, cwd=work)
            try:
                vr = json.loads(o).get("verification-results", {})
            except ValueError:
                return
            if vr.get("encountered-error") is False and vr.get("errors") == 0 and vr.get("verified", 0) >= 1:
                good.add(spot)
                return

    ts = [threading.Thread(target=one, args=(x,)) for x in spots]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if good:
        P.note += " proved on a second look: " + ", ".join(n for _, n in sorted(good)) + ";"
        P.verified += len(good)
        P.errors = [e for e in P.errors if e["at"] not in good]


def fn_tags(P, idx, fn):
    t = set()
    for i, f in enumerate(idx):
        if f == fn:
            t |= tags_of(P.lines[i])
    return t


def vacuity(work):
    """thorough tier: with `assert(false)` at its start, every function must be rejected"""
    rc, out, rep, e = run_vx(work, "vac", {**ENVC, "VX_VAC": "1"})
    if rc != 0:
        return "not run: " + e[-200:]
    text = open(out).read().split("\n")
    want = {i + 1 for i, l in enumerate(text) if "//VACUITY" in l}
    rc, o, err = sh(["verus", out, "--multiple-errors", "1", "--output-json", "--error-format=json", "--num-threads", "8"], 500, cwd=work)
    got = set()
    for d in diagnostics(err):
        for s in d["spans"]:
            if s["line_start"] in want:
                got.add(s["line_start"])
    idx = fn_index("\n".join(text))
    missing = [idx[n - 1] for n in want - got]
    return f"{len(got)} of {len(want)} functions have satisfiable preconditions" + (f"; NOT: {missing}" if missing else "")


TRUST = re.compile(r"#\[verifier::external_body\]|assume_specification|\badmit\(\)|\bassume\(|broadcast axiom|axiom fn|external_type_specification|uninterp spec fn")


def trusted(P):
    """every item the verifier takes on trust, with the module and type it belongs to"""
    out, pend, depth, scopes = set(), False, 0, []
    for l in P.lines:
        m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:mod (\w+)|impl(?:<[^{]*?>)? (?:[\w:<>&', ]+? for )?(&?[\w:]+))[^;{]*\{", l)
        if m:
            scopes.append((m.group(1) or m.group(2), depth))
        if TRUST.search(l):
            pend = True
        if pend:
            k = re.search(r"fn (\w+)|struct (\w+)|enum (\w+)|trait (\w+)", l) or re.search(r"assume_specification.*\[([^\]]*)\]", l)
            if k:
                out.add("::".join([n for n, _ in scopes] + [next(g for g in k.groups() if g)]))
                pend = False
        depth += l.count("{") - l.count("}")
        while scopes and depth <= scopes[-1][1]:
            scopes.pop()
    return sorted(out)


# ---------------------------------------------------------------- mined constants
def mine(work):
    ints, strs = set(), set()
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), errors="replace").read()
            s = re.sub(r"(?m)^\s*//.*$", "", s)
            for m in re.finditer(r'(b?)"((?:[^"\\]|\\.)*)"', s):
                try:
                    t = m.group(2).encode().decode("unicode_escape").encode("latin1", "ignore")
                except Exception:
                    continue
                if 0 < len(t) <= 64:
                    strs.add(t)
            s2 = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
            for m in re.finditer(r"b?'(\\x[0-9a-fA-F]{2}|\\.|[^'\\])'", s2):
                try:
                    t = m.group(1).encode().decode("unicode_escape")
                    ints.add(ord(t))
                except Exception:
                    pass
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.])", s2):
                try:
                    ints.add(int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", m.group(1)) else int(m.group(1).replace("_", "")))
                except ValueError:
                    pass
            for m in re.finditer(r"(\d[\d_]*|0x[0-9a-fA-F_]+)\s*(\*|<<|\+|-)\s*(\d[\d_]*|0x[0-9a-fA-F_]+)(?:\s*(\*)\s*(\d[\d_]*))?", s2):
                try:
                    a, b = int(m.group(1).replace("_", ""), 0), int(m.group(3).replace("_", ""), 0)
                    r = {"*": a * b, "<<": a << min(b, 64), "+": a + b, "-": a - b}[m.group(2)]
                    if m.group(5):
                        r *= int(m.group(5))
                    if r >= 0:
                        ints.add(r)
                except ValueError:
                    pass
    ints = {i for i in ints if i < 1 << 64}
    bi, bs = set(), set()
    try:
        for l in open(V + "/mined_base.txt"):
            k, v = l.split()
            (bi.add(int(v)) if k == "i" else bs.add(bytes.fromhex(v)))
    except OSError:
        pass
    p = work + "/mined.txt"
    with open(p, "w") as o:
        for i in sorted(ints):
            o.write(f"{'i' if i in bi else 'I'} {i}\n")
        for t in sorted(strs):
            o.write(f"{'s' if t in bs else 'S'} {t.hex()}\n")
    return p, sorted(ints - bi), sorted(strs - bs), ints, strs


# ---------------------------------------------------------------- harness
class Bounded:
    def __init__(self):
        self.state = "none"  # ok | failed | unavailable
        self.note, self.cases, self.groups, self.fail, self.secs = "", 0, [], "", 0.0


def build_harness():
    for cmd in (["cargo", "build", "--offline", "--quiet"],):
        rc, o, e = sh(cmd, 600, {**ENVC, "CARGO_TARGET_DIR": TGT + "/harness"}, V + "/harness")
        if rc == 0:
            return None
    return (e or o)[-3000:]


def run_harness(prop, seed, tier, secs, work, replay, mined):
    B = Bounded()
    scratch = f"{work}/scratch{seed}"
    os.makedirs(scratch, exist_ok=True)
    t0 = time.time()
    rc, o, e = sh([TGT + "/harness/debug/conf", prop, str(seed), tier, str(secs), replay, scratch, mined], secs * 3 + 240, {**ENVC, "VERIF_SEED": str(seed)}, scratch)
    B.secs = time.time() - t0
    shutil.rmtree(scratch, ignore_errors=True)
    m = re.search(r"^DONE (\d+) (.*)$", o, re.M)
    f = re.search(r"^FAIL (.*)$", o, re.M)
    if f and "harness:" in f.group(1):
        B.state, B.note = "unavailable", "the harness gave up: " + f.group(1)[:400]
    elif f:
        B.state, B.fail = "failed", f.group(1)
    elif rc == 0 and m:
        B.state, B.cases, B.groups = "ok", int(m.group(1)), m.group(2).split("; ")
    elif rc is None:
        B.state, B.note = "unavailable", "the harness did not finish in time"
    elif rc < 0 or rc in (101, 134, 139):
        B.state, B.fail = "failed", f"the code under test ends the process (status {rc}): {e[-500:]}"
        if not os.path.exists(replay):
            open(replay, "w").write(f"property: {prop}\nviolation: {B.fail}\nreproduce: python3 /verif/check.py {prop} (seed {seed})\n")
    else:
        B.state, B.note = "unavailable", f"the harness ended with {rc}: {(o + e)[-500:]}"
    return B


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(TGT, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(TGT + "/replay", exist_ok=True)
    work = f"{TGT}/work.{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    replay = f"{TGT}/replay/{prop}.txt"
    if os.path.exists(replay):
        os.remove(replay)
    try:
        return decide(prop, tier, seed, t0, work, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, work, replay):
    cfg = json.load(open(V + "/scope.json"))[prop]
    secs = 45 if tier == "quick" else 400
    box = {}

    def a():
        box["P"] = prove(work)

    def b():
        e = build_harness()
        if e:
            B = Bounded()
            B.state, B.note = "unavailable", "the conformance crate does not build against /repo: " + e
            box["B"] = B
            box["hb"] = False
            return
        box["hb"] = True
        mp, ni, ns, _, _ = mine(work)
        box["mined"] = (mp, len(ni), len(ns))
        box["B"] = run_harness(prop, seed, tier, secs, work, replay, mp)

    th = [threading.Thread(target=a), threading.Thread(target=b)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    P, B = box["P"], box["B"]
    mine_errs = [e for e in P.errors if prop in e["tags"]] if P.state == "failed" else []
    hard = [e for e in mine_errs if not e["structural"]]
    soft = [e for e in mine_errs if e["structural"]]
    # an obligation failed: look longer for a failing input
    extra = 0
    if (mine_errs or P.state != "ok") and B.state == "ok":
        for s in range(seed + 1000, seed + (1004 if mine_errs else 1002)):
            if time.time() - t0 > 500:
                break
            extra += 1
            B2 = run_harness(prop, s, tier, secs, work, replay, box["mined"][0])
            B.cases += B2.cases
            if B2.state == "failed":
                B = B2
                break
    vac = vacuity(work) if tier == "thorough" and P.state == "ok" else None
    violation = None
    if B.state == "failed":
        violation = f"VIOLATION property={prop} replay={replay}"
        with open(replay, "a") as f:
            for e in mine_errs:
                f.write(f"\nfailed obligation: {e['fn']}: {e['msg']}: {e['clause']}\n")
    elif hard:
        with open(replay, "w") as f:
            f.write(f"property: {prop}\nno failing input found ({B.cases} cases tried); these obligations, generated from /repo's current source, are rejected by the verifier ({P.cmd}):\n")
            for e in hard + soft:
                f.write(f"\nobligation of {e['fn']}: {e['msg']}\n  {e['clause']}\n{e['rendered']}\n")
        violation = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    # ---- evidence
    idx = getattr(P, "idx", [])
    obl, fns = 0, {}
    for i, fn in enumerate(idx):
        if fn and prop in tags_of(P.lines[i]):
            obl += 1
            fns[fn] = fns.get(fn, 0) + 1
    ext_now = set(P.external) | {f["file"] + ":" + f["key"] for f in (P.rep or {"functions": []})["functions"] if f["mode"] == "external"}
    assumed = sum(n for f, n in fns.items() if f in ext_now)
    failed = len(mine_errs)
    proved_fns = sorted(f for f in fns if f not in ext_now)
    complete = P.state == "ok" or (P.state == "failed" and not mine_errs and not P.external)
    cov = {
        "obligations": obl + len(proved_fns),
        "discharged": max(0, obl - assumed - failed) + len(proved_fns) - len({e["fn"] for e in mine_errs}) if idx else 0,
        "checker_cmd": P.cmd or "verus (not run)",
        "trusted_base": (["Verus 0.2026.09.13 and Z3", "extract/ (vx): the rewrites of DESIGN.md section 3"] + [f"assumed: {n}" for n in trusted(P)] + [f"assumed contract: {f}" for f in sorted(ext_now) if f in fns]),
        "functions_under_contract": proved_fns,
        "clauses_per_function": fns,
        "verifier_items_verified": P.verified,
        "solver_ms": P.smt_ms,
        "vacuity": f"{P.canaries} per-module canaries rejected as they must be" + (f"; {vac}" if vac else ""),
        "proof_state": P.state + (": " + P.note if P.note else ""),
        "bounded_part": cfg["bounded"],
        "evaluations": B.cases,
        "distinct_nontrivial": B.cases,
        "rule": "bounded conformance of the real crate, labelled bounded, not counted as proved: every case is a generated input, compared with a reference model; groups below; seed " + str(seed),
        "samples": B.groups[:40],
        "bounded_state": B.state + (": " + B.note if B.note else ""),
        "extra_searches": extra,
    }
    if soft:
        cov["undecided_obligations"] = [f"{e['fn']}: {e['msg']} ({e['structural']})" for e in soft]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "wall_s": round(time.time() - t0, 1), "assumptions": cfg["assumptions"], "violations": 1 if violation else 0}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    try:
        for l in open(V + "/known_findings.txt"):
            if l.startswith(f"finding: property={prop} "):
                print("KNOWN-FINDING: property=" + l[len("finding: property="):].strip())
    except OSError:
        pass
    print(f"{prop}: proof {P.state} ({P.verified} verified, {len(mine_errs)} failing here{', ' + P.note[:300] if P.note else ''}); bounded {B.state} ({B.cases} cases) {B.note[:300]}; {ev['wall_s']} s")
    for e in mine_errs:
        print(f"  obligation: {e['fn']}: {e['msg']} [{','.join(e['tags'])}] {e['structural']}")
    if violation:
        if B.fail:
            print("  " + B.fail[:600])
        print(violation)
        return 1
    if B.state == "unavailable" and not complete:
        # neither the proof nor the stand-in could decide
        print("  no answer")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
