#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on /repo's current working tree:
  1. gvc (built from /verif/gvc) generates the proof obligations of every function under
     contract that the property depends on and discharges them with z3 / cvc5;
  2. refute (built from /verif/refute into the module under test by a build overlay) replays
     the property on concrete inputs: it looks for a failing input when an obligation fails,
     and is a bounded stand-in where a function is outside the verifier's subset.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import json, os, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
t0 = time.time()

env = dict(os.environ)
env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", VERIF_REPO=REPO)
env.setdefault("HOME", "/root")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
env["GOMODCACHE"] = "/root/go/pkg/mod"
env.setdefault("GOCACHE", "/root/.cache/go-build")

work = tempfile.mkdtemp(prefix="verif-")
env["TMPDIR"] = work


def run(cmd, cwd, timeout, extra=None):
    e = dict(env)
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        return -99, (ex.stdout or b"").decode("utf-8", "replace") + "\ntimed out"


def meta():
    p = os.path.join(VERIF, "contracts", "properties.json")
    try:
        return json.load(open(p)).get(pid, {})
    except FileNotFoundError:
        return {}


def build_refute(race=False):
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "zzverif", os.path.basename(f)): f
                           for f in glob.glob(os.path.join(VERIF, "refute", "*.go"))}}, open(ov, "w"))
    out = os.path.join(work, "refute-race" if race else "refute")
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./zzverif"]
    rc, txt = run(cmd, REPO, 400, {"GOFLAGS": "-mod=readonly"})
    return (out, "") if rc == 0 else (None, txt)


def refute(binary, secs, seeds, timeout):
    """run several searches at once; returns (first failing result or None, merged stats)"""
    procs = []
    for s in seeds:
        out = os.path.join(work, "res-%d.json" % s)
        log = open(os.path.join(work, "log-%d.txt" % s), "wb")
        p = subprocess.Popen([binary, "-prop", pid, "-seed", str(s), "-secs", str(secs), "-out", out], cwd=work, env=env,
                             stdout=log, stderr=subprocess.STDOUT)
        procs.append((s, p, out, log))
    end = time.time() + timeout
    # the others stop as soon as one has found a failing input
    while time.time() < end and any(p.poll() is None for _, p, _, _ in procs):
        hit = False
        for _, p, out, _ in procs:
            if p.poll() is not None and os.path.exists(out):
                try:
                    hit = hit or bool(json.load(open(out)).get("failed"))
                except Exception:
                    pass
        if hit:
            for _, p, _, _ in procs:
                if p.poll() is None:
                    p.kill()
            break
        time.sleep(0.2)
    failing, stats = None, {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "seeds": list(seeds), "died": []}
    for s, p, out, log in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        log.close()
        txt = open(log.name, "rb").read().decode("utf-8", "replace")
        try:
            r = json.load(open(out))
        except Exception:
            r = None
        if r:
            stats["evaluations"] += r.get("evaluations", 0)
            stats["distinct_nontrivial"] += r.get("distinct_nontrivial", 0)
            if len(stats["samples"]) < 4:
                stats["samples"] += (r.get("samples") or [])[:2]
            if r.get("failed") and failing is None:
                failing = r
        elif failing is None and rc not in (0, -9, -99):
            # the process died: run again and write down each case before it runs
            tr = os.path.join(work, "trace.json")
            rc2, txt2 = run([binary, "-prop", pid, "-seed", str(s), "-secs", str(secs), "-out", out, "-trace", tr], work, timeout)
            if rc2 not in (0, -9, -99) and os.path.exists(tr) and not os.path.exists(out):
                failing = {"property": pid, "failed": True, "error": "the process died: " + txt2[-3000:], "case": json.load(open(tr))}
            else:
                stats["died"].append(txt[-500:])
        elif rc != 0:
            stats["died"].append("exit %d: %s" % (rc, txt[-300:]))
    return failing, stats


def main():
    m = meta()
    ncpu = os.cpu_count() or 4
    rep = {}
    # 1. the proof
    gvc = os.path.join(work, "gvc")
    rc, txt = run(["go", "build", "-o", gvc, "."], os.path.join(VERIF, "gvc"), 400)
    if rc != 0:
        print(txt)
        raise SystemExit("gvc does not build")
    rj = os.path.join(work, "gvc.json")
    tt = ("8", "25") if tier == "quick" else ("20", "120")
    cmd = [gvc, "-prop", pid, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-json", rj, "-t", tt[0], "-T", tt[1],
           "-limit", "330" if tier == "quick" else "3000"]
    rc, gtxt = run(cmd, VERIF, 420 if tier == "quick" else 3600)
    print(gtxt, end="")
    try:
        rep = json.load(open(rj))
    except Exception:
        rep = {"load_error": "no report: " + gtxt[-500:]}
    failed = rep.get("failed") or []
    vacuous = rep.get("vacuous") or []
    unsup = rep.get("unsupported") or {}
    late = rep.get("late") or []
    if late:
        # no solver gave up on these, the time did
        unsup = dict(unsup, **{"(time)": "%d obligations undecided when the time ran out: %s" % (len(late), ", ".join(late[:8]))})
    if rep.get("load_error"):
        unsup = dict(unsup, **{"(all)": rep["load_error"]})
    proof_bad = bool(failed or vacuous)
    # a lemma that fails for lack of solver time says nothing about the code
    # 2. concrete replay
    binary, berr = build_refute()
    failing, stats = None, {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "note": ""}
    if binary is None:
        stats["note"] = "the replay harness does not build against this tree: " + berr[-800:]
    elif proof_bad or unsup:
        failing, stats = refute(binary, 60 if tier == "quick" else 300, [seed * 100 + k for k in range(ncpu)], 240 if tier == "quick" else 900)
    elif tier == "thorough":
        failing, stats = refute(binary, 240, [seed * 100 + k for k in range(ncpu)], 900)
    else:
        failing, stats = refute(binary, 5, [seed * 100 + k for k in range(min(3, ncpu))], 200)
    race_note = ""
    if pid == "C05" and failing is None and binary is not None:
        rb, e = build_refute(race=True)
        if rb:
            f2, s2 = refute(rb, 10 if tier == "quick" else 120, [seed * 1000 + 7], 200)
            race_note = "race detector: %d histories" % s2["evaluations"]
            failing = f2
            if f2 is None and s2.get("died"):
                txt = " ".join(s2["died"])
                if "DATA RACE" in txt:
                    failing = {"property": pid, "failed": True, "error": txt, "case": {"property": pid, "kind": "race", "seed": seed * 1000 + 7}}
    if rep.get("load_error") and binary is None:
        print("no answer: neither the verifier nor the replay harness can read this tree")
        return 2
    # 3. verdict
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rpath = os.path.join(VERIF, "replay", pid + ".json")
    violation = None
    if failing is not None:
        violation = "VIOLATION property=%s replay=%s" % (pid, rpath)
    elif proof_bad:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
    if violation:
        json.dump({
            "property": pid, "tier": tier, "seed": seed,
            "failed_obligations": failed, "vacuous": vacuous, "unsupported": unsup,
            "verifier_output": gtxt[-8000:],
            "error": (failing or {}).get("error"), "case": (failing or {}).get("case"), "input_text": (failing or {}).get("input_text"),
            "how_to_replay": "bash %s/replay.sh %s %s" % (VERIF, pid, rpath),
        }, open(rpath, "w"), indent=1, ensure_ascii=False)
        if failing is not None:
            print("failing input: %s" % (str(failing.get("error"))[:600]))
    trusted = ["%s: %s" % kv for kv in sorted((rep.get("trusted") or {}).items())]
    axioms = ["axiom %s: %s" % kv for kv in sorted((rep.get("axioms") or {}).items())]
    nobl, ndis = rep.get("obligations", 0), rep.get("discharged", 0)
    level = m.get("level", "proof")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": " ".join(["gvc"] + cmd[1:3] + ["-repo", REPO]) + " (z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2)",
            "trusted_base": trusted + axioms + ["gvc: SSA-to-SMT translation, its string/UTF-8/slice theory (%d prelude axioms)" % rep.get("theory_axioms", 0),
                                                "go/ssa of golang.org/x/tools", "z3, cvc5"],
            "functions_under_contract": rep.get("functions") or [],
            "inlined_without_contract": rep.get("inlined") or [],
            "by_backend": rep.get("by_backend") or {}, "by_kind": rep.get("by_kind") or {},
            "solver_seconds": round(rep.get("solver_seconds", 0), 2), "max_obligation_seconds": round(rep.get("max_obligation_seconds", 0), 2),
            "failed": [f["function"] + " " + f["name"] for f in failed][:50], "vacuous": vacuous,
            "bounded_stand_in_for": unsup,
            "evaluations": stats.get("evaluations", 0), "distinct_nontrivial": stats.get("distinct_nontrivial", 0),
            "rule": "replay of the property on the real code: cases from fixed odd inputs and seeded random dictionaries, texts, options and histories; non-trivial: non-empty input; distinct by hash of the case",
            "samples": stats.get("samples", [])[:4],
            "bounded": m.get("bounded", ""), "race": race_note, "note": stats.get("note", ""),
        },
        "assumptions": m.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                print(l.strip())
    if violation:
        print(violation)
        return 1
    print("%s: held; %d/%d obligations discharged over %d functions%s; %d concrete cases" % (
        pid, ndis, nobl, len(rep.get("functions") or []),
        "" if not unsup else " (bounded stand-in for %d outside the verifier's reach)" % len(unsup), stats.get("evaluations", 0)))
    return 0


try:
    code = main()
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(code)
