#!/usr/bin/env python3
"""check.py ID [ID...]: decide properties of /repo's current tree.

Builds the verifier (gcv), has it generate and discharge every obligation of the
contracts tagged with the property, and runs the property's bounded companion on
the real code (a generated-input harness compiled into the package through an
overlay), which supplies failing inputs.  Writes evidence/<ID>.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false",
           GONOSUMDB="*", GOSUMDB="off", CGO_ENABLED="0", TZ="UTC")
ENV.setdefault("HOME", "/root")
PKGS = {"root": ".", "cmd_coin": "cmd/coin", "cmd_ofx2coin": "cmd/ofx2coin", "cmd_csv2coin": "cmd/csv2coin",
        "cmd_gen2coin": "cmd/gen2coin"}


def sh(args, cwd, timeout, env=None):
    try:
        p = subprocess.run(args, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return 124, (out.decode("utf8", "replace") if isinstance(out, bytes) else out) + "\ntimed out"


def prove(pid, tmp, res):
    gcv = os.environ.get("GCV") or os.path.join(tmp, "gcv")
    if not os.path.exists(gcv):
        rc, out = sh(["go", "build", "-o", gcv, "."], os.path.join(VERIF, "gcv"), 300)
        if rc:
            res["error"] = "cannot build the verifier: " + out[-2000:]
            return
    rep = os.path.join(tmp, "report.json")
    cmd = [gcv, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-props", pid, "-o", rep,
           "-t", "120" if TIER == "thorough" else {"C11": "45"}.get(pid, "20"), "-budget", "2400" if TIER == "thorough" else "400"]
    res["cmd"] = " ".join(["gcv"] + cmd[1:])
    rc, out = sh(cmd, VERIF, 3000 if TIER == "thorough" else 600)
    res["rc"], res["out"] = rc, out
    if os.path.exists(rep):
        res["report"] = json.load(open(rep))
    else:
        res["error"] = "the verifier gave no report: " + out[-2000:]


def harness(pid, tmp, res):
    hdir = os.path.join(VERIF, "harness", pid)
    if not os.path.isdir(hdir):
        res["none"] = True
        return
    res["runs"] = []
    bins = os.path.join(tmp, "bin")
    needs = os.path.join(hdir, "needs")
    if os.path.exists(needs):
        os.makedirs(bins)
        for n in open(needs).read().split():
            rc, out = sh(["go", "build", "-o", os.path.join(bins, n), "./cmd/" + n], REPO, 300)
            if rc:
                res.setdefault("notes", []).append("cannot build cmd/%s: %s" % (n, out[-500:]))
    for d in sorted(os.listdir(hdir)):
        if d not in PKGS:
            continue
        pkg = PKGS[d]
        rep = {}
        srcs = [os.path.join(hdir, d, f) for f in sorted(os.listdir(os.path.join(hdir, d))) if f.endswith(".go")]
        lib = os.path.join(VERIF, "harness", "lib", d)
        if os.path.isdir(lib):
            srcs += [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".go")]
        pk = re.search(r"^package (\w+)", open(srcs[0]).read(), re.M).group(1)
        common = open(os.path.join(VERIF, "harness", "common.tmpl")).read().replace("package PKG", "package " + pk)
        cf = os.path.join(tmp, d + "_common.go")
        open(cf, "w").write(common)
        for i, s in enumerate([cf] + srcs):
            rep[os.path.join(REPO, pkg, "zz_verif%d_test.go" % i)] = s
        ov = os.path.join(tmp, d + "_overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        exe = os.path.join(tmp, d + ".test")
        rc, out = sh(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", exe, "./" + pkg], REPO, 300)
        if rc or not os.path.exists(exe):
            res.setdefault("notes", []).append("companion for %s not built: %s" % (pkg, out[-1500:]))
            continue
        work = os.path.join(tmp, d + "_work")
        os.makedirs(work)
        outf = os.path.join(tmp, d + "_out.json")
        env = dict(ENV, VERIF_OUT=outf, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_BIN=bins, VERIF_WORK=work, COINDB="")
        t = 1500 if TIER == "thorough" else 90
        rc, out = sh([exe, "-test.run", "^TestVerif", "-test.timeout", "%ds" % t, "-test.parallel", "8"], work, t + 20, env)
        r = {"pkg": pkg, "rc": rc, "tail": out[-3000:]}
        if os.path.exists(outf):
            r.update(json.load(open(outf)))
        else:
            r["violations"] = []
            cur = ""
            if os.path.exists(outf + ".cur"):
                cur = open(outf + ".cur", errors="replace").read().split("\0")[0]
            if cur and rc not in (124, 2) and "test timed out" not in out:
                r["violations"] = [{"key": "exit", "what": "the program ends with status %d (%s); input in progress: %s" % (rc, out[-600:].strip(), cur)}]
            m = re.search(r"(?m)^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: (?!test timed out).*)", out)
            if m and rc != 124:
                r["violations"] = [{"key": "crash", "what": "the program dies (%s); input in progress: %s" % (m.group(1), cur)}]
            res.setdefault("notes", []).append("companion for %s ended early (%d): %s" % (pkg, rc, out[-1500:]))
        res["runs"].append(r)


def known():
    out = {}
    f = os.path.join(VERIF, "KNOWN-FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def check(pid):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        pr, hr = {}, {}
        th = [threading.Thread(target=prove, args=(pid, tmp, pr)), threading.Thread(target=harness, args=(pid, tmp, hr))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        return finish(pid, pr, hr, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def finish(pid, pr, hr, t0):
    rc, build = 0, ""
    if "report" not in pr:
        print("ERROR property=%s %s" % (pid, pr.get("error", "no report")))
        rc = 2
    rep = pr.get("report") or {"functions": [], "lemmas": [], "trusted": [], "axioms": [], "total": 0, "discharged": 0,
                               "failed": [], "solver_secs": {}, "by_backend": {}}
    if rc == 0 and rep["total"] == 0:
        print("ERROR property=%s no obligations were generated" % pid)
        rc = 2
    kn = known()
    viol, printed = [], set()
    for r in hr.get("runs", []):
        for v in r.get("violations") or []:
            if (pid, v["key"]) in kn:
                if v["key"] not in printed:
                    print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, v["key"])]))
                printed.add(v["key"])
                continue
            viol.append(dict(v, pkg=r["pkg"]))
    failed = rep["failed"] or []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    nviol = 0
    if viol or failed:
        nviol = max(1, len(viol))
        json.dump({"property": pid, "failing_inputs": viol[:20], "failed_obligations": failed,
                   "verifier_output": pr.get("out", "")[-8000:], "verifier": pr.get("cmd", "")}, open(replay, "w"), indent=1)
        for o in failed[:10]:
            print("failed obligation: %s (%s) %s %s" % (o["name"], o.get("pos", ""), o["status"], (o.get("output") or "").split("\n")[0][:300]))
        for v in viol[:5]:
            print("failing input [%s]: %s" % (v["key"], str(v["what"])[:1500]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if viol else " no-failing-input-found"))
        rc = 1
    for n in hr.get("notes", []):
        print("note:", n)
    ev = sum(r.get("evaluations", 0) for r in hr.get("runs", []))
    dn = sum(r.get("distinct_nontrivial", 0) for r in hr.get("runs", []))
    samples = [s for r in hr.get("runs", []) for s in (r.get("samples") or [])][:6]
    fns = [f["name"] for f in rep["functions"] or []]
    inl = sorted({i for f in rep["functions"] or [] for i in f.get("inlined") or []})
    lib = sorted({i for f in rep["functions"] or [] for i in f.get("library_semantics") or []})
    cov = {
        "obligations": rep["total"], "discharged": rep["discharged"],
        "checker_cmd": pr.get("cmd", ""),
        "trusted_base": ["gcv (the condition generator in /verif/gcv) over go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"]
        + ["assumed contract: " + t for t in rep["trusted"] or []]
        + ["library semantics built into gcv: " + l for l in lib]
        + ["axiom: " + a for a in rep["axioms"] or []],
        "functions_under_contract": fns, "functions_inlined": inl,
        "lemmas": [l["name"] for l in rep["lemmas"] or []],
        "proved_with_other_readings_of_loop_invariants": rep.get("reread") or [],
        "discharged_by": rep["by_backend"], "solver_seconds": rep["solver_secs"],
        "failed_obligations": [o["name"] for o in failed],
        "bounded_companion": {"label": "bounded: not counted as proved", "evaluations": ev, "distinct_nontrivial": dn,
                              "rules": [r.get("rule", "") for r in hr.get("runs", [])], "samples": samples,
                              "failing_inputs": len(viol), "notes": hr.get("notes", [])},
    }
    evidence = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
        "assumptions": [
            "integers are mathematical (no machine overflow), except where a contract asks for the check",
            "allocation never fails; no other goroutine runs; no reflection or unsafe access to the state",
            "time.Time is modelled by its instant (location and monotonic reading dropped)",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s: %d/%d obligations discharged over %d functions, companion %d cases (%d distinct), %.1f s" % (
        pid, rep["discharged"], rep["total"], len(fns), ev, dn, evidence["wall_s"]))
    return rc


if __name__ == "__main__":
    worst = 0
    for p in sys.argv[1:]:
        worst = max(worst, check(p))
    sys.exit(worst)
