#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current source:
 1. vx extracts the functions under contract from /repo/src (every run),
 2. the contracts of /verif/specs are attached and Verus discharges every obligation,
 3. the replay harness (built from /repo) looks for a concrete failing input: briefly when everything is
    proved, longer when an obligation failed or a function is outside the verifier's reach.
Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import fcntl, json, os, re, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble as A

VERIF = A.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")
EV = os.path.join(VERIF, "evidence")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        class R:
            returncode = 124
            stdout = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            stderr = "timeout"
        return R()


class Lock:
    def __enter__(self):
        self.f = open(os.path.join(tempfile.gettempdir(), "verif-build.lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "vx"), timeout=600)
    return r.returncode == 0, r.stderr


def build_harness():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "harness"), timeout=600,
           env={"RUSTFLAGS": "--cfg verif_hooks -A warnings", "CARGO_TARGET_DIR": os.path.join(VERIF, "harness", "target")})
    return r.returncode == 0, r.stderr


HARNESS = os.path.join(VERIF, "harness", "target", "release", "vharness")


def search(pid, seed, secs, tier, out):
    """(failed case or None, report)"""
    if os.path.exists(out):
        os.unlink(out)
    r = sh([HARNESS, "search", pid, str(seed), str(secs), tier, out], timeout=secs * 3 + 120)
    try:
        rep = json.load(open(out))
    except Exception:
        rep = {"failed": False, "evaluations": 0, "distinct": 0, "samples": [], "error": "harness ended with %s %s" % (r.returncode, r.stderr[-400:])}
    return (rep if rep.get("failed") else None), rep


# ------------------------------------------------------------------------------------------------ Verus
class VerusRun:
    pass


def run_verus(text, infos, extra_args=(), timeout=400, multi=4):
    """runs the verifier; returns VerusRun with .ok, .frontend (list of (key,msg)), .failed {key: [obligations]}, .undecided"""
    d = tempfile.mkdtemp(prefix="vx_")
    p = os.path.join(d, "code.rs")
    with open(p, "w") as f:
        f.write(text)
    args = ["verus", p, "--crate-type=lib", "--output-json", "--time-expanded", "--triggers-mode", "silent",
            "--multiple-errors", str(multi), "--error-format=json", "--num-threads", "8"] + list(extra_args)
    t = time.time()
    r = sh(args, timeout=timeout, cwd=d)
    v = VerusRun()
    v.wall = time.time() - t
    v.raw = ""
    lines = text.split("\n")

    def owner(line):
        for i in infos:
            if i["span"][0] <= line < i["span"][1]:
                return i["key"]
        # lemmas and preludes
        for k in range(min(line, len(lines)) - 1, -1, -1):
            m = re.match(r"^\s*(?:pub )?(?:broadcast )?proof fn (\w+)", lines[k])
            if m:
                return "lemma " + m.group(1)
            if re.match(r"^\s*pub mod ", lines[k]):
                break
        return None
    v.messages = []
    for l in r.stderr.split("\n"):
        if not l.startswith("{"):
            if l.strip():
                v.raw += l + "\n"
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if m.get("message", "").startswith("aborting due to"):
            continue
        spans = m.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        keys = []
        for s in prim + spans:
            if os.path.basename(s["file_name"]) == "code.rs":
                k = owner(s["line_start"])
                if k and k not in keys:
                    keys.append(k)
        # a failed precondition is reported at the call: the caller is the function which holds the non-signature span
        det = []
        for s in spans:
            if os.path.basename(s["file_name"]) == "code.rs":
                src = lines[s["line_start"] - 1].strip()
                det.append("%s | %s" % (s.get("label") or "", src))
        v.messages.append({"message": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None,
                           "keys": keys, "where": det, "rendered": m.get("rendered", "")[:1500],
                           "lines": [s["line_start"] for s in prim if os.path.basename(s["file_name"]) == "code.rs"]})
        v.raw += m.get("rendered", "")
    v.json = {}
    try:
        v.json = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        pass
    vr = v.json.get("verification-results", {})
    v.verified = vr.get("verified", 0)
    v.errors = vr.get("errors", 0)
    v.timeout = r.returncode == 124
    v.complete = bool(vr) and not vr.get("encountered-vir-error", True) and "verified" in vr
    v.success = bool(vr.get("success"))
    v.smt_ms = v.json.get("times-ms", {}).get("smt", {}).get("total", 0)
    v.funcs = []
    for m in v.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            v.funcs.append((re.sub(r"^code::", "", f.get("function", "")), f.get("time-micros", 0), f.get("success")))
    subprocess.run(["/bin/rm", "-rf", d])
    return v


VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
             "possible arithmetic", "decreases not satisfied", "possible division by zero", "possible bit shift",
             "recommendation not met", "unreachable", "loop invariant", "index out of bounds", "possible ", "could not prove",
             "bitvector assertion", "assert", "cannot prove", "termination")


def classify(m):
    t = m["message"].lower()
    if "resource limit" in t or "rlimit" in t:
        return "undecided"
    if any(t.startswith(x) or x in t for x in ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
                                               "assertion failed", "possible arithmetic underflow/overflow", "decreases not satisfied",
                                               "possible division by zero", "possible bit shift", "not satisfied", "assertion not satisfied")):
        return "obligation"
    if "could not prove termination" in t:
        return "undecided"
    return "frontend"


def attribute(m, infos):
    """function whose obligation failed"""
    keys = [k for k in m["keys"]]
    if not keys:
        return None
    if "precondition" in m["message"].lower() and len(keys) > 1:
        # primary span is the failed clause of the callee in some versions, the call in others: the caller is the
        # function whose *body* is involved
        for l, k in zip(m["lines"], keys):
            pass
    return keys[0]


def prove(sp, vx, roots, tags, base, notes):
    """returns dict with results of the deductive step"""
    ext, front = set(), {}
    fnkeys = {f["key"]: f for f in vx["fns"]}
    for k in sp.fns:
        if k in fnkeys and fnkeys[k]["unsupported"]:
            ext.add(k)
            front[k] = "outside the verifier's subset: " + "; ".join(fnkeys[k]["unsupported"])
    res = {"bounded": front, "failed": {}, "undecided": {}, "lost": None}
    v = infos = None
    for attempt in range(12):
        text, infos, missing = A.assemble(sp, vx, roots, tags, base, external=ext)
        v = run_verus(text, infos)
        fe = [m for m in v.messages if classify(m) == "frontend"]
        if v.complete and not fe:
            break
        bad = set()
        for m in fe:
            for k in m["keys"][:1]:
                if k in fnkeys and k not in ext:
                    bad.add(k)
                    front[k] = "front end: " + m["message"][:300]
        if v.timeout:
            res["lost"] = "the verifier did not finish within its time limit"
            break
        if not bad:
            res["lost"] = "front end: " + "; ".join(m["message"][:200] for m in fe)[:600] + (v.raw[-300:] if not fe else "")
            break
        ext |= bad
    res.update(text=text, infos=infos, missing=missing, v=v, ext=ext)
    if res["lost"]:
        return res

    def collect(v):
        f, u = {}, {}
        for m in v.messages:
            c = classify(m)
            k = attribute(m, infos) or "prelude"
            (f if c == "obligation" else u).setdefault(k, []).append(m)
        return f, u
    f, u = collect(v)
    t0 = time.time()
    allkeys = {i["key"] for i in infos}
    for rs, wide in ((7, False), (0, True), (23, True), (101, False)):
        # rule out solver noise and the solver's weakness in nonlinear arithmetic: the same obligations of the failed
        # functions under other seeds, with more resources, with nonlinear reasoning; what is accepted once is proved
        if not (f or u) or time.time() - t0 > 150:
            break
        bad = (set(f) | set(u)) & allkeys
        text2, infos2, _ = A.assemble(sp, vx, roots, tags, base, external=ext | (allkeys - bad), wide=bad if wide else ())
        v2 = run_verus(text2, infos2, ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % rs, "--smt-option", "timeout=40000"])
        if v2.complete and not any(classify(m) == "frontend" for m in v2.messages):
            infos, keep = infos2, infos
            f2, u2 = collect(v2)
            infos = keep
            f, u = ({k: m for k, m in f.items() if k in f2 or k in u2}, {k: m for k, m in u.items() if k in u2 or k in f2})
            v.smt_ms += v2.smt_ms
            if not (f or u):
                v.verified, v.errors = v.verified + v.errors, 0
                res["retried"] = True
    for k, ms in f.items():
        res["failed"][k] = ms
    for k, ms in u.items():
        if k not in res["failed"]:
            res["undecided"][k] = ms
    return res


def probes(sp, vx, res, tags, base, roots):
    """vacuity: an assertion of `false` at the end of every function under contract has to fail"""
    keys = [i["key"] for i in res["infos"] if i["key"] not in res["ext"]]
    probed, vac, v = probe_run(sp, vx, roots, tags, base, res["ext"], keys, ())
    if vac:
        # proved by a retry only: another obligation of the function fails first in this mode
        ext = set(res["ext"]) | {i["key"] for i in res["infos"]} - set(vac)
        again, vac, _ = probe_run(sp, vx, roots, tags, base, ext, vac, set(vac))
    return probed, vac, v


def probe_run(sp, vx, roots, tags, base, ext, keys, wide):
    text, infos, _ = A.assemble(sp, vx, roots, tags, base, external=ext, probe_keys=keys, wide=wide)
    v = run_verus(text, infos, multi=8 if wide else 0)
    lines = text.split("\n")
    hit = set()
    for m in v.messages:
        if classify(m) == "undecided":
            # `false` could not be derived within the resource limit
            hit.update(m["keys"][:1])
        for l in m["lines"]:
            if "vx-probe" in lines[l - 1]:
                for i in infos:
                    if i["span"][0] <= l < i["span"][1]:
                        hit.add(i["key"])
    probed = [k for k in keys if any("vx-probe" in lines[l] for i in infos if i["key"] == k for l in range(i["span"][0] - 1, i["span"][1]))]
    return probed, [k for k in probed if k not in hit], v


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = json.load(open(os.path.join(A.SPECS, "properties.json")))
    cfg = props[pid]
    tags = set(cfg["tags"])
    os.makedirs(EV, exist_ok=True)
    ev_path = os.path.join(EV, pid + ".json")
    replay = os.path.join(EV, "replay-%s.json" % pid)
    for p in (ev_path, replay):
        if os.path.exists(p):
            os.unlink(p)
    with Lock():
        okx, ex = build_vx()
        okh, eh = build_harness()
    if not okx:
        print("the extractor does not build\n" + ex)
        return 2
    log("extractor and harness built" if okh else "the replay harness does not build against this tree: " + eh[-600:])
    sp = A.parse_specs()
    base = A.load_baseline()
    vx, err = A.run_vx(sp, os.path.join(REPO, "src"))
    assumptions, trusted = [], []
    res = None
    lost = None
    if vx is None:
        lost = "extraction failed: " + err[-500:]
    else:
        A.apply_renames(sp, vx, base)
        roots = [k for k in cfg["roots"]]
        have = {f["key"] for f in vx["fns"]}
        res = prove(sp, vx, [k for k in roots if k in have], tags, base, [])
        lost = res["lost"]
    bounded = {}
    aligned = {}
    if res and not lost:
        aligned = {i["key"]: i["aligned"] for i in res["infos"]}
        reach = set(aligned)
        for k, why in res["bounded"].items():
            if k in reach:
                bounded[k] = why
        for k, ms in res["undecided"].items():
            bounded[k] = "undecided: " + ms[0]["message"][:200]
        for k in cfg["roots"]:
            if k not in have:
                bounded[k] = "the function is not in this tree under this name"
        v = res["v"]
        log("verifier: %d verified, %d errors, solver %.1f s" % (v.verified, v.errors, v.smt_ms / 1000.0))
    else:
        log("no proof on this tree:", lost)
    failed = {}
    if res and not lost:
        newf = A.new_fields(vx, base)
        text = {f["key"]: f["body"] for f in vx["fns"]}
        for k, ms in res["failed"].items():
            if not aligned.get(k, True):
                bounded[k] = "changed structure, the contract's invariants do not fit: " + ms[0]["message"][:200]
            elif newf and (k not in text or any(re.search(r"\b%s\b" % re.escape(n), text[k]) for n in newf)):
                bounded[k] = "uses a field the contracts' invariants do not know (%s): %s" % (", ".join(sorted(newf)), ms[0]["message"][:200])
            else:
                failed[k] = ms
    # a caller of a function that is only assumed (bounded) is proved against an unproved contract
    vac = []
    if res and not lost and not failed:
        probed, vac, pv = probes(sp, vx, res, tags, base, [k for k in cfg["roots"] if k in have])
        if not pv.complete:
            log("the vacuity probe run did not complete:", pv.raw[-400:], [m["message"] for m in pv.messages][:3])
        log("vacuity probes: %d, vacuous: %s" % (len(probed), vac))
        for k in vac:
            bounded.setdefault(k, "the proof of this function is vacuous: its end is unreachable under its contract")
    else:
        probed = []
    # -------------------------------------------------- search for a concrete failing input
    unproved = bool(failed or bounded or lost)
    if tier == "thorough":
        secs = cfg.get("thorough_s", 60) if not unproved else 400
    else:
        # nothing but the search decides a function whose structure changed: search longer than for a failed obligation
        secs = cfg.get("quick_s", 4) if not unproved else (90 if failed else 200)
    case, rep = None, {"evaluations": 0, "distinct": 0, "samples": []}
    if okh:
        if unproved:
            # escalate
            for s, t in ((8, "quick"), (secs, "thorough")):
                case, rep2 = search(pid, seed, s, t, os.path.join(EV, "search-%s.json" % pid))
                rep = {**rep2, "evaluations": rep["evaluations"] + rep2.get("evaluations", 0)}
                if case:
                    break
        else:
            case, rep = search(pid, seed, secs, tier, os.path.join(EV, "search-%s.json" % pid))
        if rep.get("error"):
            log("harness:", rep["error"])
        log("harness: %d executions, failing input: %s" % (rep.get("evaluations", 0), bool(case)))
    # -------------------------------------------------- evidence
    cov = {}
    fns_ok = []
    if res and not lost:
        v = res["v"]
        bad = set(failed) | set(bounded)
        fns_ok = sorted(k for k in aligned if k not in bad)
        nfail = len([k for k in set(failed)])
        cov["obligations"] = v.verified + v.errors
        cov["discharged"] = v.verified
        cov["back_end"] = "Verus %s, Z3" % v.json.get("verus", {}).get("version", "")
        cov["solver_ms"] = v.smt_ms
        cov["functions_under_contract_proved"] = fns_ok
        cov["contract_clauses"] = sum(len(A.clauses(sp.fns[k].get("ensures", []))) for k in aligned)
        cov["lemmas_and_functions_by_solver_ms"] = sorted([[f, round(t / 1000.0, 1)] for f, t, s in v.funcs], key=lambda x: -x[1])[:25]
        cov["vacuity_probes"] = {"functions_probed": len(probed), "vacuous": vac}
        cov["extraction_notes"] = sorted(set("%s: %s" % (f["key"], n) for f in vx["fns"] if f["key"] in aligned for n in f["notes"]))
        trusted = scan_trusted(res["text"])
        cov["extraction_notes"] += sorted(set("%s: %s" % (i["key"], n) for i in res["infos"] for n in i.get("notes", [])))
        assumptions = sorted(set(cov["extraction_notes"]))
    else:
        cov["obligations"] = 0
        cov["discharged"] = 0
    cov["checker_cmd"] = "python3 tools/check.py %s %s (vx extraction of /repo/src, then verus code.rs --crate-type=lib)" % (pid, tier)
    cov["trusted_base"] = trusted or ["none: no proof was made on this tree"]
    cov["bounded_functions"] = bounded
    cov["failed_obligations"] = {k: [m["message"] + " :: " + "; ".join(m["where"]) for m in ms] for k, ms in failed.items()}
    cov["harness"] = {"role": "replays and searches concrete inputs on the real code; bounded, never counted as proved",
                      "seconds": secs, "evaluations": rep.get("evaluations", 0), "distinct": rep.get("distinct", 0)}
    cov["evaluations"] = rep.get("evaluations", 0)
    cov["samples"] = rep.get("samples", [])[:3]
    if lost:
        cov["explanation"] = lost
    nviol = 1 if (case or failed) else 0
    level = "proof" if not (bounded or lost) else "other"
    if level == "other":
        cov["explanation"] = "proof incomplete on this tree, bounded search stands in: " + json.dumps(bounded)[:1500] + (lost or "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + assumptions, "wall_s": round(time.time() - T0, 1), "violations": nviol}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"^known: property=%s (.*)$" % pid, l)
        if m:
            print("KNOWN-FINDING: property=%s %s" % (pid, m.group(1)))
    for k, ms in failed.items():
        for m in ms:
            print("FAILED OBLIGATION in %s: %s" % (k, m["message"]))
            for w in m["where"]:
                print("    " + w)
    for k, w in bounded.items():
        print("BOUNDED (not proved on this tree): %s: %s" % (k, w))
    if case:
        with open(replay, "w") as f:
            json.dump({"property": pid, "case": case["case"], "message": case.get("message"),
                       "replay_cmd": "harness/target/release/vharness replay %s %s" % (pid, replay),
                       "failed_obligations": cov["failed_obligations"]}, f, indent=1)
        print("counterexample on the real code:", json.dumps(case["case"])[:600], "::", case.get("message"))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if failed:
        with open(replay, "w") as f:
            json.dump({"property": pid, "failed_obligations": cov["failed_obligations"], "vacuous": vac,
                       "verifier_output": [m["rendered"] for ms in failed.values() for m in ms]}, f, indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        return 1
    if not okh and unproved:
        print("nothing decides this property on this tree: no proof and no harness")
        return 2
    log("property %s holds on this tree" % pid)
    return 0


def scan_trusted(text):
    """every assumption left in the verified text"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[verifier::external_body]") or s.startswith("#[verifier::external]"):
            for j in range(i, min(i + 5, len(lines))):
                m = re.search(r"(?:fn|struct|impl)\b[^{;]*", lines[j])
                if m and not lines[j].strip().startswith("#"):
                    out.append("external: " + re.sub(r"\s+", " ", m.group(0)).strip()[:140])
                    break
        out += ["assumed of std: " + x[20:160].strip() for x in re.findall(r"assume_specification[^;]*", s) if not s.startswith("//")]
        for w in ("assume(", "admit(", "axiom fn"):
            if w in s and not s.startswith("//"):
                out.append(s[:160])
        m = re.match(r"^(?:pub )?uninterp spec fn .*", s)
        if m:
            out.append("uninterpreted: " + s[:140])
    out.append("the extractor /verif/vx (syntactic lowering of Rust to the Verus subset) and the layout `usize` = 64 bit")
    out.append("Verus and Z3")
    return sorted(set(out))


if __name__ == "__main__":
    sys.exit(main())
