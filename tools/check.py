#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. expands every contract unit that carries the property from /repo's current
   source (tools/rsx.py), has Verus discharge every obligation, and makes sure
   no contract is vacuous;
2. builds the native crate against /repo and runs the bounded search that looks
   for failing inputs (and stands in, labelled bounded, for functions no contract
   reaches).
Exit 0: every obligation accepted (or the function is undecided and the bounded
stand-in found nothing) and no failing input; exit 1: VIOLATION.
"""
import json, os, re, subprocess, sys, time, threading, tempfile, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import rsx

EV = os.path.join(VERIF, "evidence")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4

# seconds of native search
SEARCH = {"quick": 12, "thorough": 180}
EXTRA = {"quick": 60, "thorough": 300}
CONF = json.load(open(os.path.join(VERIF, "units", "units.json")))


# ------------------------------------------------------------------ verus
class FnRes:
    def __init__(self, name, props, lost):
        self.name, self.props, self.lost = name, props, lost
        self.state = "verified"   # verified / failed / undecided / lemma
        self.msgs = []
        self.ms = 0


class UnitRes:
    def __init__(self, name):
        self.name = name
        self.fns = []
        self.ok = False
        self.unit_errors = []
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.trusted = []
        self.rewrites = []
        self.lemma_failed = []
        self.vacuous = []
        self.vac_checked = 0
        self.raw = ""
        self.cmd = ""


def run_verus(path, extra, timeout):
    cmd = ["verus", path, "--crate-type", "lib", "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded", "--no-report-long-running"] + extra
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], "timeout", cmd
    try:
        o = p.stdout.decode(errors="replace")
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = None
    ds = []
    for l in p.stderr.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                ds.append(d)
    return j, ds, p.stderr.decode(errors="replace") if j is None else "", cmd


def where(u, d):
    """functions of the unit an error message points into (primary spans first)"""
    hit = []
    sp = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    for s in sp:
        for f in u.fns:
            if f[2] <= s["line_start"] <= f[3] and f not in hit:
                hit.append(f)
    return hit


def obligation(u, d):
    """the function whose proof failed: `at the end of the function body`, the call site, the loop"""
    # for a failed precondition the primary span is the call; the `requires` clause is labelled
    # and lies in the callee
    fs = []
    for s in d.get("spans", []):
        if s.get("label") in ("failed precondition",):
            continue
        if s.get("label") == "failed this postcondition" and len(d["spans"]) > 1:
            pass
        for f in u.fns:
            if f[2] <= s["line_start"] <= f[3]:
                fs.append(f)
    return fs[0] if fs else None


def is_verif_error(d):
    m = d["message"]
    return d.get("code") is None and any(m.startswith(x) or x in m for x in (
        "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
        "possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift",
        "decreases not satisfied", "loop invariant", "recommendation not met", "unreached", "could not prove termination",
        "unable to prove", "cannot prove", "possible", "may fail", "could not show", "not satisfied", "requirement not met", "unable to verify"))


def is_limit(d):
    m = d["message"]
    return "rlimit" in m or "Resource limit" in m or "timeout" in m or "timed out" in m


def verify_unit(name, work, deep):
    conf = CONF["units"][name]
    R = UnitRes(name)
    t0 = time.time()
    tmpl = os.path.join(VERIF, "units", conf["file"])
    skip = {}
    undecided = {}
    rl = str(conf.get("rlimit", 30))
    to = conf.get("timeout", 200)
    for attempt in range(8):
        try:
            u = rsx.build(tmpl, skip=set(skip))
        except Exception as e:
            R.unit_errors.append("extraction: %s" % e)
            R.wall = time.time() - t0
            return R
        fatal = [e for e in u.errors if e[1] is None]
        for e in u.errors:
            if e[1] is not None:
                undecided[e[1]] = "extraction: " + e[0]
        if fatal:
            R.unit_errors += [e[0] for e in fatal]
            R.wall = time.time() - t0
            return R
        src = os.path.join(work, name + ".rs")
        open(src, "w").write("\n".join(u.lines) + "\n")
        j, ds, raw, cmd = run_verus(src, ["--rlimit", rl, "--multiple-errors", "4"] + conf.get("args", []), to)
        R.cmd = " ".join(cmd)
        if j is None:
            R.unit_errors.append("verus gave no result: " + raw[-600:])
            R.wall = time.time() - t0
            return R
        vr = j["verification-results"]
        if vr.get("verified", 0) + vr.get("errors", 0) == 0 or vr.get("encountered-vir-error"):
            # does not compile as Verus: take the offending functions out and go on
            new = False
            for d in ds:
                for f in where(u, d)[:1]:
                    key = f[0]
                    if key not in skip:
                        skip[key] = "not accepted by the verifier: " + d["message"]
                        new = True
                if not where(u, d) and d.get("spans"):
                    R.unit_errors.append("outside any function: " + d["message"])
            if new:
                R.unit_errors = []
                continue
            R.unit_errors += [d["message"] for d in ds][:5] or ["verus failed without a message"]
            R.wall = time.time() - t0
            return R
        break
    R.verified, R.errors = vr.get("verified", 0), vr.get("errors", 0)
    R.smt_ms = j["times-ms"].get("smt", {}).get("smt-run", 0)
    R.rewrites = u.rewrites
    R.trusted = trusted("\n".join(u.lines))
    failed = {}

    def absorb(ds_, into):
        lem = []
        for d in ds_:
            f = obligation(u, d)
            if f is None:
                lem.append(d)
            else:
                into.setdefault(f[0], []).append(d)
        return lem

    lem = absorb(ds, failed)
    # second and third opinion: other seeds, more resources; an obligation counts as
    # failed only if no run discharges it
    if failed or lem:
        for k in (1, 2):
            src2 = src
            if k == 2:
                # std facts that the annotated code does not need but a rewritten one may
                src2 = os.path.join(work, name + "_fb.rs")
                open(src2, "w").write("\n".join(u.lines) + "\n" + open(os.path.join(VERIF, "units", "fallback.rs")).read())
            j2, ds2, raw2, _ = run_verus(src2, ["--rlimit", str(int(rl) * 3), "--multiple-errors", "4", "--smt-option", "smt.random_seed=%d" % (17 * k)] + conf.get("args", []), to * 2)
            if j2 is None:
                continue
            if j2["verification-results"].get("verified", 0) + j2["verification-results"].get("errors", 0) == 0:
                continue
            f2 = {}
            l2 = absorb(ds2, f2)
            for n in list(failed):
                if n not in f2:
                    del failed[n]
                elif any(not is_limit(x) for x in f2[n]) and all(is_limit(x) for x in failed[n]):
                    failed[n] = f2[n]
            if not l2:
                lem = []
            if not failed and not lem:
                break
    if not failed and not lem:
        R.verified, R.errors = R.verified + R.errors, 0
    R.lemma_failed = ["%s (line %s)" % (d["message"], d["spans"][0]["line_start"] if d["spans"] else "?") for d in lem]
    times = {}
    for m in j["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for b in m.get("function-breakdown", []):
            times[b["function"]] = times.get(b["function"], 0) + b["time"]
    for f in u.fns:
        if f[5]:
            continue
        r = FnRes(f[0], f[1], f[4])
        if f[0] in skip:
            r.state = "undecided"
            r.msgs = [skip[f[0]]]
        elif f[0] in failed:
            ds_ = failed[f[0]]
            hard = [d for d in ds_ if not is_limit(d)]
            r.msgs = [d.get("rendered", d["message"]) for d in (hard or ds_)]
            if not hard:
                r.state = "undecided"
            elif f[4]:
                r.state = "undecided"
                r.msgs = ["annotations no longer fit: %s" % f[4]] + r.msgs
            else:
                r.state = "failed"
        R.fns.append(r)
    for e in u.errors:
        if e[1] is not None:
            r = FnRes(e[1], e[2], [])
            r.state = "undecided"
            r.msgs = ["extraction: " + e[0]]
            R.fns.append(r)
    R.ok = True
    R.wall = time.time() - t0
    return R


def vacuity_unit(name, work, R):
    """every function's precondition must be satisfiable: `assert(false)` right after it has to fail"""
    conf = CONF["units"][name]
    tmpl = os.path.join(VERIF, "units", conf["file"])
    try:
        u = rsx.build(tmpl, vacuity=True)
    except Exception as e:
        return None
    src = os.path.join(work, name + "_vac.rs")
    open(src, "w").write("\n".join(u.lines) + "\n")
    j, ds, raw, cmd = run_verus(src, ["--rlimit", "5", "--multiple-errors", "0"] + conf.get("args", []), conf.get("timeout", 200))
    if j is None or j["verification-results"].get("verified", 0) + j["verification-results"].get("errors", 0) == 0:
        return None
    bad = set()
    for d in ds:
        for f in where(u, d):
            bad.add(f[0])
    own = [f for f in u.fns if not f[5]]
    return [f[0] for f in own if f[0] not in bad], len(own)


def trusted(src):
    out = []
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "verifier::external" in s:
            at = max(s.rfind("external_body"), s.rfind("verifier::external"))
            for l in [s[at:]] + lines[i + 1:i + 4]:
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", l)
                if m:
                    own = re.match(r"impl\b(.*?)\{", s)
                    if own and l == s[at:]:
                        out.append("assumed contract (body not verified): %s of impl%s" % (m.group(2), own.group(1).rstrip()))
                    else:
                        out.append("assumed contract (body not verified): %s" % m.group(2))
                    break
        m = re.search(r"assume_specification\b.*?\[\s*(.*?)\s*\]\s*\(", s)
        if m:
            out.append("assumed contract on std: " + m.group(1))
        if re.search(r"\badmit\s*\(\s*\)", s) or re.search(r"\bassume\s*\(", s):
            out.append("assume/admit: " + s)
        m = re.search(r"\baxiom\s+fn\s+(\w+)", s) or re.search(r"proof fn (axiom_\w+)", s)
        if m:
            out.append("axiom: " + m.group(1))
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


# ------------------------------------------------------------------ native
def native_build(log):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg patriecia_verif", CARGO_INCREMENTAL="0")
    env.pop("CARGO_TARGET_DIR", None)
    t = os.path.join(BUILD, "ntarget")
    os.makedirs(t, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", "hooks", "--target-dir", t], cwd=os.path.join(VERIF, "native"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log.append(p.stdout.decode(errors="replace")[-3000:])
    if p.returncode == 0:
        return os.path.join(t, "debug", "vnative"), True
    env["RUSTFLAGS"] = ""
    t2 = os.path.join(BUILD, "ntarget-nohooks")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", t2], cwd=os.path.join(VERIF, "native"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log.append(p.stdout.decode(errors="replace")[-3000:])
    if p.returncode == 0:
        return os.path.join(t2, "debug", "vnative"), False
    return None, False


class Native:
    def __init__(self):
        self.found = None
        self.err = ""
        self.known = []
        self.stats = {}
        self.problem = ""
        self.crash = False


def native_search(exe, pid, secs, seed, work, tag):
    N = Native()
    cur = os.path.join(work, "cur" + tag)
    os.makedirs(cur, exist_ok=True)
    os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
    rp = os.path.join(EV, "replays", "%s-%s.json" % (pid, tag))
    if os.path.exists(rp):
        os.remove(rp)
    st = os.path.join(work, "stats" + tag)
    scratch = os.path.join(work, "scratch" + tag)
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([exe, "search", pid, "--seed", str(seed), "--secs", str(secs), "--threads", str(NCPU), "--replay", rp, "--stats", st, "--cur", cur],
                           cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 240)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        N.problem = "native search did not come back"
        return N
    for l in out.split("\n"):
        if l.startswith("KNOWN "):
            k, e = l[6:].split(" :: ", 1)
            N.known.append((k.strip(), e))
    if os.path.exists(st):
        N.stats = json.load(open(st))
    if rc == 0:
        return N
    if rc == 1 and os.path.exists(rp):
        N.found = rp
        N.err = next((l[5:] for l in out.split("\n") if l.startswith("FAIL ")), "failed")
        return N
    # the process died (stack overflow, abort): find the case that kills it
    for f in sorted(glob.glob(os.path.join(cur, "cur*"))):
        ls = open(f).read().split("\n")
        if len(ls) < 2:
            continue
        json.dump({"property": pid, "kind": ls[0], "case": ls[1], "failure": "the process is killed (stack overflow or abort)", "trace": []}, open(rp, "w"), indent=1)
        try:
            q = subprocess.run([exe, "replay", pid, rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, cwd=scratch)
        except subprocess.TimeoutExpired:
            N.found, N.err = rp, "the case does not terminate"
            return N
        if q.returncode < 0 or q.returncode > 1:
            N.found, N.err = rp, "the process is killed (exit %d): %s" % (q.returncode, q.stderr.decode(errors="replace")[-200:].replace("\n", " "))
            return N
        if q.returncode == 1:
            N.found, N.err = rp, q.stdout.decode(errors="replace")[-300:].replace("\n", " ")
            return N
    N.problem = "native search ended with %d: %s" % (rc, p.stderr.decode(errors="replace")[-300:])
    return N


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+case=(\S+)\s+(.*)$", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    P = CONF["properties"].get(pid, {})
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    evf = os.path.join(EV, pid + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=BUILD)
    try:
        rc = decide(pid, P, t0, evf, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, P, t0, evf, work):
    log = []
    units = P.get("units", [])
    nat = {}

    def do_native():
        exe, hooks = native_build(log)
        nat["exe"], nat["hooks"] = exe, hooks
        if exe:
            nat["res"] = native_search(exe, pid, SEARCH[TIER], SEED, work, "search")

    th = threading.Thread(target=do_native)
    th.start()
    results, vac = {}, {}
    with ThreadPoolExecutor(max_workers=max(2, NCPU // 2)) as ex:
        fs = {n: ex.submit(verify_unit, n, work, TIER == "thorough") for n in units}
        fv = {n: ex.submit(vacuity_unit, n, work, None) for n in units}
        for n in units:
            try:
                results[n] = fs[n].result()
            except Exception as e:  # no answer is not an answer
                results[n] = UnitRes(n)
                results[n].unit_errors.append("internal: %r" % e)
            try:
                vac[n] = fv[n].result()
            except Exception as e:
                vac[n] = None
    th.join()

    failed, undecided, contracts, lemma_bad, notes = [], [], [], [], []
    obl = dis = smt = 0
    tb = []
    for n in units:
        R = results[n]
        if not R.ok:
            undecided.append(("unit " + n, "; ".join(R.unit_errors)[:600]))
            continue
        obl += R.verified + R.errors
        dis += R.verified
        smt += R.smt_ms
        for x in R.trusted:
            if x not in tb:
                tb.append(x)
        for f in R.fns:
            if pid not in f.props:
                continue
            contracts.append({"function": f.name, "state": f.state, "unit": n})
            if f.state == "failed":
                failed.append((n, f))
            elif f.state == "undecided":
                undecided.append((f.name, " ".join(f.msgs)[:400]))
        if R.lemma_failed:
            undecided.append(("lemmas of unit " + n, "; ".join(R.lemma_failed)[:400]))
        if vac[n] is None:
            notes.append("vacuity run of unit %s gave no answer" % n)
        else:
            v, c = vac[n]
            for x in v:
                undecided.append((x, "VACUOUS: its precondition is contradictory"))
            notes.append("unit %s: %d of %d contracts shown non-vacuous" % (n, c - len(v), c))

    exe = nat.get("exe")
    N = nat.get("res")
    if N is not None and N.problem and not N.found:
        N = native_search(exe, pid, SEARCH[TIER], SEED + 1000, work, "search2") if exe else N
    lines = []
    rc = 0
    kf = known_findings(pid)
    violations = 0
    if N:
        for k, e in N.known:
            if k in kf:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
            else:
                rp = os.path.join(EV, "replays", "%s-known-%s.json" % (pid, k))
                json.dump({"property": pid, "kind": "known", "case": k, "failure": e, "trace": []}, open(rp, "w"), indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
                violations += 1
                rc = 1
    if N and N.found:
        lines.append("  failing input on the real code: %s" % N.err[:500])
        for n, f in failed:
            lines.append("  failed obligation: %s (unit %s)" % (f.name, n))
        lines.append("VIOLATION property=%s replay=%s" % (pid, N.found))
        violations += 1
        rc = 1
    elif failed:
        M = None
        if exe:
            M = native_search(exe, pid, EXTRA[TIER], SEED + 7, work, "extended")
        if M and M.found:
            lines.append("  failing input on the real code: %s" % M.err[:500])
            for n, f in failed:
                lines.append("  failed obligation: %s (unit %s)" % (f.name, n))
            lines.append("VIOLATION property=%s replay=%s" % (pid, M.found))
        else:
            os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
            rp = os.path.join(EV, "replays", pid + "-obligation.txt")
            with open(rp, "w") as h:
                h.write("property %s\n" % pid)
                for n, f in failed:
                    h.write("\nfailed obligation of %s (unit %s; %s)\n" % (f.name, n, results[n].cmd))
                    for m in f.msgs:
                        h.write(m + "\n")
                h.write("\nno failing input was found by the native search (%s)\n" % (json.dumps(M.stats.get("evaluations")) if M else "not built"))
            for n, f in failed:
                lines.append("  failed obligation: %s (unit %s): %s" % (f.name, n, f.msgs[0].split("\n")[0]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        violations += 1
        rc = 1
    if rc == 0 and (exe is None or N is None or (N.problem and not N.found)):
        if undecided or not units:
            print("no answer: %s" % (N.problem if N else "the native crate does not build against /repo:\n" + "\n".join(log)))
            rc = 2

    st = (N.stats if N else {}) or {}
    lvl = P.get("level", "other")
    if lvl == "proof" and (undecided or dis < obl):
        # this run proved less than the property: say so
        lvl = "other"
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join(results[n].cmd for n in units if results[n].cmd) or "none",
        "backend": "verus 0.2026.09.13.671956e (z3)",
        "solver_s": round(smt / 1000.0, 2),
        "functions_under_contract": contracts,
        "functions_verified": sum(1 for c in contracts if c["state"] == "verified"),
        "undecided": [{"what": a, "why": b} for a, b in undecided],
        "vacuity": notes,
        "trusted_base": tb + ["verus, z3 and rustc", "tools/rsx.py (the mechanical extraction: it drops comments, attributes, visibility and error-message arguments)"] + P.get("trusted", []),
        "idiom_rewrites": sorted(set("%s: %s ==> %s" % x for n in units for x in results[n].rewrites)),
        "outside_contracts": P.get("bounded", []),
        "evaluations": st.get("evaluations", 0) + st.get("fixed_cases", 0),
        "distinct_nontrivial": st.get("distinct_nontrivial", 0),
        "rule": st.get("rule", "native search not run"),
        "samples": st.get("samples", []),
        "hooks_used": nat.get("hooks", False),
        "explanation": P.get("explanation", "") + " This run: %d obligations, %d discharged by Verus; bounded native search: %d cases." % (obl, dis, st.get("evaluations", 0)),
    }
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(evf, "w"), indent=1)
    for l in lines:
        print(l)
    for a, b in undecided:
        print("  undecided (bounded stand-in decides): %s: %s" % (a, b.replace("\n", " ")[:300]))
    print("%s: %d/%d obligations discharged, %d functions under contract, native %d cases, %.1f s, exit %d" % (pid, dis, obl, len(contracts), cov["evaluations"], time.time() - t0, rc))
    return rc


if __name__ == "__main__":
    main()
