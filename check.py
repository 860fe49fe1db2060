#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree.

1. Contracts: every unit of the property (contracts/*.vx) is extracted from
   /repo's sources by vx and given to Verus; every obligation must be
   discharged, and every vacuity probe must fail.
2. Bounded part: the property's driver (harness/) runs the real code on
   generated cases, within the stated time.

Exit 0: every obligation discharged and no failing case; or a proof could not
be obtained from changed source (PROOF-NOT-OBTAINED, with the reason) and the
bounded part found nothing.  Exit 1: a VIOLATION line.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
from props import PROPS  # noqa

SAMPLES_MAX = 6


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return -9, d(e.stdout), d(e.stderr)


def cargo(d, timeout=600):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, d, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    if os.path.exists(os.path.join(V, d, "build.sh")):
        env.pop("CARGO_TARGET_DIR")
        return sh(["bash", os.path.join(V, d, "build.sh")], timeout, env=env)
    return sh(["cargo", "build", "--release", "--offline", "--locked"], timeout, cwd=os.path.join(V, d), env=env)


# ---------------------------------------------------------------- contracts
PROOF_FAIL = re.compile(
    r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied"
    r"|invariant not satisfied|loop invariant not satisfied|possible arithmetic (underflow/overflow|overflow)|possible division by zero"
    r"|possible bit shift|decreases not satisfied|termination|possible|unable to prove|loop ensures|requires not satisfied|split (assertion|postcondition|precondition)"
    r"|cannot show|failed|constructed value may fail|the )", re.I)
SOFT = re.compile(r"rlimit|resource limit|not supported|does not (yet )?support|unsupported|timed? ?out|canceled", re.I)


def trusted_scan(text):
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(", text):
        out.append("assumed contract on dependency: " + re.sub(r"\s+", " ", m.group(1)))
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "external_body" in l and not l.strip().startswith("//"):
            nxt = " ".join(lines[i:i + 4])
            m = re.search(r"(?:fn|struct|enum)\s+(\w+)", nxt)
            if "// contract proved in unit " in l:
                out.append("used by contract, proved in unit " + l.split()[-1] + ": " + m.group(1))
                continue
            out.append("external body: " + (m.group(1) if m else l.strip()))
        if re.search(r"\b(admit|assume)\s*\(", l) and not l.strip().startswith("//") and "assume_specification" not in l:
            out.append("assumption: " + l.strip())
        m = re.search(r"axiom\s+fn\s+(\w+)", l)
        if m and not l.strip().startswith("//"):
            out.append("axiom: " + m.group(1))
        m = re.search(r"uninterp\s+(?:pub\s+)?spec\s+fn\s+(\w+)|spec\s+fn\s+(\w+).*uninterp", l)
    return out


def errors_of(stderr):
    """[(message, first location line in the file, block)]"""
    out = []
    for b in re.split(r"\n(?=error|warning|note: )", "\n" + stderr):
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        m = re.match(r"error(?:\[\w+\])?: (.*)", b)
        msg = m.group(1) if m else b[:80]
        if msg.startswith("aborting due to"):
            continue
        locs = [int(x) for x in re.findall(r"-->\s*\S*?:(\d+):\d+", b)]
        out.append((b.splitlines()[0], locs, b))
    return out


def airs(d):
    """Obligations (assert nodes of the verification conditions) per function."""
    per, cur, on = {}, None, False
    for r, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith(".air"):
                continue
            for l in open(os.path.join(r, f), errors="replace"):
                if l.startswith(";; Function-") or l.startswith(";; "):
                    m = re.match(r";; Function-(?:Def|Decl-Check-Recommends|Termination|\S+) (\S+)", l)
                    if m:
                        cur = m.group(1)
                if l.startswith("(check-valid"):
                    on = True
                elif l.startswith("(") and not l.startswith("(check-valid"):
                    on = False
                if on and re.match(r"\s+\(assert$|\s+\(assert\s", l):
                    per[cur] = per.get(cur, 0) + 1
    return per


def verus(path, rlimit, extra, timeout, logdir=None, multi=4):
    cmd = ["verus", path, "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", str(multi), "--triggers-mode", "silent"] + extra
    if logdir:
        shutil.rmtree(logdir, ignore_errors=True)
        cmd += ["--log-dir", logdir, "--log", "air"]
    t = time.time()
    rc, out, err = sh(cmd, timeout, cwd=os.path.dirname(path))
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        j = {}
    return {"rc": rc, "json": j, "err": err, "wall": time.time() - t, "cmd": " ".join(cmd)}


def unit(name, cfg, b):
    """Extract and verify one unit."""
    u = {"unit": name, "status": "verified", "why": [], "fails": [], "fns": [], "obligations": 0, "solver_ms": 0, "wall_s": 0.0}
    rs, js = os.path.join(b, name + ".rs"), os.path.join(b, name + ".json")
    rc, o, e = sh([os.path.join(V, "vx/target/release/vx"), os.path.join(V, "contracts", name + ".vx"), REPO, rs, js], 60)
    if rc != 0:
        u["status"] = "not-obtained"
        u["why"].append(e.strip()[-600:] or f"vx ended with {rc}")
        return u
    meta = json.load(open(js))
    text = open(rs).read()
    u["fns"] = [{k: f[k] for k in ("fn", "source", "lines", "edits")} for f in meta["fns"]]
    u["trusted"] = trusted_scan(text)
    rl = cfg.get("rlimit", 30)
    log = os.path.join(b, name + ".log")
    r = verus(rs, rl, cfg.get("flags", []), cfg.get("timeout", 300), log)

    def ok(r):
        v = r["json"].get("verification-results", {})
        return bool(v.get("success")) and v.get("verified", 0) > 0 and r["rc"] == 0
    if not ok(r):
        # Once more with more room and another seed, so that an unstable query is not taken for a failure.
        r2 = verus(rs, rl * 4, cfg.get("flags", []) + ["--smt-option", "smt.random_seed=7"], cfg.get("timeout", 300), log)
        r2["wall"] += r["wall"]
        r = r2
    u["wall_s"] = round(r["wall"], 2)
    u["cmd"] = r["cmd"]
    v = r["json"].get("verification-results", {})
    u["verified_queries"] = v.get("verified", 0)
    u["solver_ms"] = r["json"].get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    per = airs(log)
    shutil.rmtree(log, ignore_errors=True)
    u["obligations"] = sum(per.values())
    u["per_function"] = per
    if not ok(r):
        es = errors_of(r["err"])
        hard = []
        for head, locs, blk in es:
            if SOFT.search(blk) and not PROOF_FAIL.match(head):
                u["why"].append(head)
            elif re.match(r"error\[", head):
                u["why"].append(head)
            elif PROOF_FAIL.match(head) and locs:
                where = [f for f in meta["fns"] if any(f["generated"][0] <= l <= f["generated"][1] for l in locs)]
                hard.append({"obligation": head[7:], "in": [f["fn"] + " (" + f["source"] + ")" for f in where] or ["lemma"], "text": blk})
            else:
                u["why"].append(head)
        if r["rc"] == -9:
            u["why"].append("verifier ran out of time")
        if hard and not any(x.startswith("error[") for x in u["why"]) and not v.get("encountered-vir-error"):
            u["status"], u["fails"] = "failed", hard
        else:
            u["status"] = "not-obtained"
            u["why"] = u["why"] or [r["err"].strip()[-600:]]
        return u
    if u["obligations"] == 0:
        u["status"] = "not-obtained"
        u["why"].append("no obligations")
        return u
    # Vacuity: an assertion that cannot hold, at the start of every body and loop, must fail.
    vs, vj = os.path.join(b, name + "_vac.rs"), os.path.join(b, name + "_vac.json")
    rc, o, e = sh([os.path.join(V, "vx/target/release/vx"), os.path.join(V, "contracts", name + ".vx"), REPO, vs, vj, "--vacuity"], 60)
    marks = [i + 1 for i, l in enumerate(open(vs)) if "// vacuity probe" in l]
    r = verus(vs, cfg.get("vac_rlimit", 8), cfg.get("flags", []), cfg.get("timeout", 300), None, 60)
    hit = set()
    gen = [f["generated"] for f in json.load(open(vj))["fns"]]
    for head, locs, blk in errors_of(r["err"]):
        if head.startswith("error: assertion failed"):
            hit.update(l for l in locs if l in marks)
        elif "esource limit" in head:  # the solver gave up on this function without proving the probe
            for a, z in gen:
                if any(a <= l <= z for l in locs):
                    hit.update(l for l in marks if a <= l <= z)
    u["vacuity_probes"] = len(marks)
    u["vacuity_failed_as_required"] = len(hit)
    if len(hit) != len(marks):
        miss = sorted(set(marks) - hit)
        u["status"] = "not-obtained"
        u["why"].append(f"{len(miss)} of {len(marks)} vacuity probes did not fail (generated lines {miss[:8]})")
    u["wall_s"] = round(u["wall_s"] + r["wall"], 2)
    return u


# ---------------------------------------------------------------- Kani (loop-free, full-domain)
def kani(h, unwind_note=""):
    """Verify one harness of kproofs against the real crate."""
    d, tgt = os.path.join(V, "kproofs"), os.path.join(V, "kproofs", "target")
    u = {"unit": "kani:" + h, "status": "verified", "why": [], "fails": [], "fns": [{"fn": h, "source": "kproofs (calls the real crate)", "lines": [], "edits": []}], "obligations": 0, "solver_ms": 0, "wall_s": 0.0, "trusted": []}
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    t = time.time()
    cmd = ["cargo", "kani", "--lib", "--target-dir", tgt, "--exact", "--harness", h, "-Z", "concrete-playback", "--concrete-playback", "print"]
    rc, out, err = sh(cmd, 600, cwd=d, env=env)
    u["wall_s"], u["cmd"] = round(time.time() - t, 2), " ".join(cmd)
    m = re.search(r"\*\* (\d+) of (\d+) failed(?: \(([^)]*)\))?", out)
    c = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", out)
    u["solver_ms"] = int(1000 * sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.]+)s", out)))
    if not m:
        u["status"] = "not-obtained"
        u["why"].append(("kani ran out of time" if rc == -9 else "kani gave no result: ") + (err + out).strip()[-400:])
        return u
    u["obligations"] = int(m.group(2))
    u["verified_queries"] = int(m.group(2))
    if "VERIFICATION:- SUCCESSFUL" in out:
        if not c or c.group(1) != c.group(2):
            u["status"] = "not-obtained"
            u["why"].append("vacuous: a cover point is not reached")
        return u
    bad = re.findall(r"Status: FAILURE\s+- Description: \"([^\"]*)\"\s+- Location: (\S+)(?: in function (.*))?", out)
    real = [b for b in bad if "unwinding assertion" not in b[0] and "unsupported" not in b[0].lower() and "not currently supported" not in b[0]]
    if not real or any("unwinding assertion" in b[0] for b in bad):
        u["status"] = "not-obtained"
        u["why"].append("kani: " + "; ".join(f"{b[0]} at {b[1]}" for b in bad)[:400])
        return u
    u["status"] = "failed"
    # Replay the counterexample natively on the real crate.
    rb, _, be = sh(["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(tgt, "replay")], 300, cwd=d, env=env)
    cases = []
    for blk in re.findall(r"Check for `assertion`.*?kani::concrete_playback_run", out, re.S):
        cases.append(["".join(f"{int(x):02x}" for x in v.split(",") if x.strip()) for v in re.findall(r"^\s*vec!\[([^\]]*)\],", blk, re.M)])
    for b in real:
        u["fails"].append({"obligation": b[0], "in": [f"{h} ({b[1]})"], "text": f"{b[0]} at {b[1]} {b[2]}"})
    if rb == 0:
        for cs in cases:
            r, o, e = sh([os.path.join(tgt, "replay/debug/kreplay"), h.split("::")[-1]] + cs, 60, cwd=d)
            if r not in (0, -9):
                u["replay"] = {"case": f"kreplay {h.split('::')[-1]} " + " ".join(cs), "why": "the counterexample fails on the real crate: " + (e.strip().splitlines() or ["?"])[-1][:200] + " / " + " ".join(e.strip().splitlines()[:2])[:300]}
                break
    return u


# ---------------------------------------------------------------- bounded part
def known(pid):
    """Lines of known-findings.txt: `known: property=<id> case=<json string> <what fails>`."""
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) case=(\"(?:[^\"\\]|\\.)*\") (.*)", l.strip())
        if m and m.group(1) == pid:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def bounded(pid, crate, secs, seed, b):
    out, kf, hang = (os.path.join(b, x) for x in ("bounded.json", "known.bin", "hang"))
    for f in (out, hang):
        if os.path.exists(f):
            os.remove(f)
    open(kf, "w").write("\x1e".join(c for c, _ in known(pid)))
    exe = os.path.join(V, crate, "target/release", "kdlcheck")
    rc, o, e = sh([exe, "run", pid, "--seed", str(seed), "--secs", str(secs), "--threads", "8", "--out", out, "--known", kf, "--hang", hang], secs + 240, cwd=V)
    if rc == 77 and os.path.exists(hang):
        return {"evaluations": 1, "distinct_nontrivial": 0, "rule": "", "samples": [], "broken": [{"case": open(hang, errors="replace").read(), "why": "does not terminate within 30 s"}]}
    if rc == 0 and os.path.exists(out):
        return json.load(open(out))
    # The process itself died (stack overflow, abort): find the case, one at a time.
    tr = os.path.join(b, "trace")
    rc2, _, e2 = sh([exe, "run", pid, "--seed", str(seed), "--max", "200000", "--trace", tr], 120, cwd=V)
    if rc2 not in (0, -9) and os.path.exists(tr):
        return {"evaluations": 1, "distinct_nontrivial": 0, "rule": "", "samples": [], "broken": [{"case": open(tr, errors="replace").read(), "why": f"the process died ({rc2}): {e2.strip()[-200:]}"}]}
    return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "broken": [], "error": f"driver ended with {rc}: {e.strip()[-300:]}"}


def main():
    pid = sys.argv[1]
    p = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    b = os.path.join(V, "build", pid)
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    ev = os.path.join(V, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    crate = p.get("crate", "harness")
    with cf.ThreadPoolExecutor(6) as ex:
        h = ex.submit(cargo, crate)
        kh = ex.submit(lambda: [kani(x) for x in p["kani"]]) if p.get("kani") else None
        vb = cargo("vx") if p["units"] else (0, "", "")
        us = []
        if p["units"]:
            if vb[0] != 0:
                us = [{"unit": n, "status": "not-obtained", "why": ["vx does not build: " + vb[2][-400:]], "fails": [], "fns": [], "obligations": 0, "solver_ms": 0} for n in p["units"]]
            else:
                us = list(ex.map(lambda n: unit(n, p["units"][n] or {}, b), p["units"]))
        ks = kh.result() if kh else []
        us += ks
        hb = h.result()
    failed = [u for u in us if u["status"] == "failed"]
    notobt = [u for u in us if u["status"] == "not-obtained"]
    secs = p.get("secs", 20) if tier == "quick" else p.get("thorough_secs", 400)
    if failed or notobt:
        secs = max(secs, 150)  # the bounded part now carries the decision, or looks for the failing input
    violations, bd = [], {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "broken": []}
    if hb[0] != 0:
        bd["error"] = "the harness does not build against /repo: " + hb[2].strip()[-800:]
    else:
        bd = bounded(pid, crate, secs, seed, b)
    bd["broken"] = [u["replay"] for u in us if u.get("replay")] + bd["broken"]
    for i, x in enumerate(bd["broken"]):
        f = os.path.join(rep, f"{pid}-{hashlib.sha1(x['case'].encode()).hexdigest()[:12]}.case")
        open(f, "w").write(x["case"])
        open(f + ".txt", "w").write(f"property {pid}\nwhy: {x['why']}\nreplay: {V}/{crate}/target/release/... replay {pid} {f}\n" + "".join(f"failed obligation: {y['obligation']} in {', '.join(y['in'])}\n" for u in failed for y in u["fails"]))
        violations.append((f, x["why"], ""))
    if failed and not violations:
        f = os.path.join(rep, f"{pid}-obligation.txt")
        with open(f, "w") as o:
            for u in failed:
                for y in u["fails"]:
                    o.write(f"failed obligation: {y['obligation']} in {', '.join(y['in'])} (unit {u['unit']})\n{y['text']}\n\n")
        violations.append((f, failed[0]["fails"][0]["obligation"] + " in " + ", ".join(failed[0]["fails"][0]["in"]), " no-failing-input-found"))
    obl = sum(u["obligations"] for u in us)
    dis = sum(u["obligations"] for u in us if u["status"] == "verified")
    cov = {
        "evaluations": bd["evaluations"], "distinct_nontrivial": bd["distinct_nontrivial"],
        "rule": bd["rule"] or "no cases were run", "samples": bd["samples"][:SAMPLES_MAX] or [x["case"][:300] for x in bd["broken"]] or ["(none)"],
    }
    if us:
        tb = sorted({t for u in us for t in u.get("trusted", [])}) + p.get("trusted", [])
        cov.update({
            "obligations": obl, "discharged": dis,
            "checker_cmd": us[0].get("cmd", "verus"), "back_end": "Verus (Z3)" + (" and Kani (CBMC, CaDiCaL)" if p.get("kani") else ""),
            "trusted_base": tb or ["Verus, Z3, rustc"],
            "functions_under_contract": [f for u in us for f in u["fns"]],
            "units": [{k: u.get(k) for k in ("unit", "status", "why", "verified_queries", "obligations", "solver_ms", "wall_s", "vacuity_probes", "vacuity_failed_as_required")} for u in us],
            "bounded_part": {"seconds": secs, "what": p.get("bounded", ""), "counted_as_proved": False},
        })
    else:
        cov["explanation"] = p.get("bounded", "")
    lvl = p["level"] if not notobt else "exploration"
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(violations)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, ensure_ascii=False)
    for u in us:
        print(f"{pid} unit {u['unit']}: {u['status']}, {u['obligations']} obligations, {len(u['fns'])} functions, solver {u['solver_ms']} ms")
        for w in u["why"]:
            print("  PROOF-NOT-OBTAINED " + w.replace("\n", " ")[:400])
        for y in u["fails"]:
            print(f"  FAILED {y['obligation']} in {', '.join(y['in'])}")
    print(f"{pid} bounded: {bd['evaluations']} cases, {bd['distinct_nontrivial']} distinct and non-trivial, {secs} s" + (f" ERROR {bd['error']}" if bd.get("error") else ""))
    for c, w in known(pid):
        print(f"KNOWN-FINDING: property={pid} {w}")
    for f, w, tail in violations:
        print(f"  {w}"[:600])
        print(f"VIOLATION property={pid} replay={f}{tail}")
    shutil.rmtree(b, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    if violations:
        sys.exit(1)
    if bd.get("error") and (notobt or not us):
        # Nothing was decided.
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
