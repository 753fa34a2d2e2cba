#!/usr/bin/env python3
"""Build and run the model-checking harness of one property against /repo's working tree.

  run.py --property C01 --tier quick|thorough     check (exit 0: held, 1: VIOLATION, 2: error)
  run.py --replay FILE                            replay a recorded violation
  run.py --build-only                             build every harness (setup)
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

CXX = "g++-9"
MODULES = ["LitlTypes", "LitlContainer", "LitlRaster", "LitlIo", "LitlTransforms", "LitlRun"]
ASAN = "-fsanitize=address"
FLAGS = ["-std=c++14", "-w", "-O1", ASAN, "-fno-omit-frame-pointer", "-DNDEBUG", "-w", "-pthread"]
FLAGS += sum((["-I", os.path.join(REPO, m)] for m in MODULES), []) + ["-I/usr/include/eigen3", "-I", os.path.join(VERIF, "harness")]
CACHE = os.path.join(VERIF, "build", "cache")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def compile_one(src, extra, asan=True):
    """Compile one translation unit; objects are cached by the hash of the preprocessed source and flags."""
    flags = [f for f in FLAGS if asan or f != ASAN] + extra
    with open(src) as f:
        m = re.match(r"// flags: (.*)", f.readline())
    if m:  # Specific to a translation unit
        flags += m.group(1).split()
    pre = subprocess.run([CXX] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        return None, pre.stderr.decode(errors="replace")
    key = hashlib.sha256(pre.stdout + " ".join(flags).encode()).hexdigest()[:40]
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d.%s.tmp.o" % (obj, os.getpid(), os.path.basename(src))
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, obj)
    return obj, ""


def build(pid, outdir):
    cfg = CHECKS[pid]
    srcs = [os.path.join(VERIF, "harness", "mc_main.cpp")]
    own = sorted(glob.glob(os.path.join(VERIF, "harness", pid + "*.cpp")))
    if not own:
        return None, "no harness source for " + pid
    srcs += own + [os.path.join(REPO, s) for s in cfg.get("repo_sources", [])]
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for obj, err in ex.map(lambda s: compile_one(s, cfg.get("flags", []), cfg.get("asan", True)), srcs):
            if obj is None:
                return None, err
            objs.append(obj)
    exe = os.path.join(outdir, pid)
    r = sh([CXX, "-pthread"] + ([ASAN] if cfg.get("asan", True) else []) + objs + ["-o", exe] + cfg.get("libs", []))
    if r.returncode:
        return None, r.stdout
    return exe, ""


def known_findings(pid):
    """Lines 'known: property=<id> match=<text>' of KNOWN_FINDINGS."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s*property=(\S+)\s+match=(.*?)\s+--\s+(.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def refused(pid, tier, err, lines):
    """The harness does not build. It only uses the documented interface: when the diagnostics lead into the repository's
    sources and the toolchain itself works, uses covered by the property stopped being supported, which is a violation;
    anything else is an error of the machinery."""
    obj, _ = compile_one(os.path.join(VERIF, "harness", "mc_main.cpp"), [])
    if obj is None or not re.search(r"^(In file included from )?%s/\S+:\d+" % re.escape(REPO), err, re.M) or "error:" not in err:
        print("ERROR: harness of %s does not build against %s" % (pid, REPO))
        return 2
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", "%s-build.json" % pid)
    with open(rp, "w") as f:
        json.dump({"property": pid, "tier": tier, "build": True, "message": "\n".join(lines)[:6000],
                   "replay": "python3 /verif/run.py --replay " + rp}, f, indent=1)
    write_evidence(pid, tier, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False,
                               "meaning": "the harness does not compile against the current tree: no execution"}, 0, 1)
    print("  failure:   uses of the library which the property covers do not compile")
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def write_evidence(pid, tier, coverage, wall, violations):
    cfg = CHECKS[pid]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": "model_checking", "coverage": coverage,
          "assumptions": cfg["assumptions"] + ["bounds: " + cfg["bounds"]],
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def run_check(pid, tier, only, limit):
    t0 = time.time()
    cfg = CHECKS[pid]
    outdir = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    try:
        exe, err = build(pid, outdir)
        if exe is None:
            lines = err.splitlines()
            keep = [l for i, l in enumerate(lines) if any("error" in m for m in lines[max(0, i - 3):i + 1])]
            sys.stderr.write("\n".join(keep or lines)[:6000] + "\n")
            return refused(pid, tier, err, keep or lines)
        t1 = time.time()
        res_path = os.path.join(outdir, "result.json")
        known = known_findings(pid)
        scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
        env = dict(os.environ, MC_SCRATCH=scratch, LC_ALL="C.UTF-8")
        cmd = [exe, "--tier", tier, "--workers", str(os.cpu_count() or 8), "--tmp", outdir, "--out", res_path,
               "--limit", str(limit), "--hang", str(cfg.get("hang", 15))]
        if only:
            cmd += ["--only", only]
        for match, _ in known:
            cmd += ["--known", match]
        try:
            r = subprocess.run(cmd, env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if r.returncode not in (0, 1, 3) or not os.path.exists(res_path):
            print("ERROR: explorer of %s ended with %s" % (pid, r.returncode))
            return 2
        res = json.load(open(res_path))
        vios = res["violations"]
        for match, desc in known:
            if any(match in s for s in res["known_seen"]):
                print("KNOWN-FINDING: property=%s %s" % (pid, desc))
        coverage = {
            "states": res["nodes"],
            "transitions": res["steps"],
            "traces_validated_against_impl": res["executions"],
            "samples": res["samples"],
            "exhaustive": bool(res["exhausted"]),
            "oracle_comparisons": res["checks"],
            "distinct_outcomes": res["distinct_outcomes"],
            "distinct_model_states": res["distinct_model_states"],
            "max_choice_depth": res["max_depth"],
            "pruned_choice_combinations": res["pruned"],
            "executions_replayed_for_determinism": res["replayed_twice"],
            "determinism_divergences": res["replay_diverged"],
            "executions_per_scenario": res["per_scenario"],
            "known_finding_executions": res["known_hits"],
            "meaning": "states: nodes of the enumerated choice tree (distinct driver prefixes); transitions: operations of the "
                       "real implementation executed and compared with the reference model; traces: complete executions, each "
                       "run on the real code compiled from /repo",
        }
        if res["capped"]:
            coverage["cap"] = "stopped by the time limit of %g s; per-scenario counts above were completed" % limit
        if not only:
            write_evidence(pid, tier, coverage, time.time() - t0, len(vios))
        print("%s %s: executions=%d nodes=%d steps=%d checks=%d outcomes=%d states=%d exhausted=%s build=%.1fs run=%.1fs div=%d" % (
            pid, tier, res["executions"], res["nodes"], res["steps"], res["checks"], res["distinct_outcomes"],
            res["distinct_model_states"], res["exhausted"], t1 - t0, res["wall_s"], res["replay_diverged"]))
        if vios:
            v = vios[0]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, hashlib.sha256(v["path"].encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                json.dump({"property": pid, "tier": tier, "path": v["path"], "worker": v["worker"], "workers": v["workers"], "execution": v["notes"], "message": v["message"],
                           "only": only, "replay": "python3 /verif/run.py --replay " + rp}, f, indent=1)
            for x in vios[:8]:
                print("  execution: %s" % x["notes"][:1200])
                print("  failure:   %s" % x["message"][:1200])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if res["unreproduced_text"]:
            print("ERROR: an execution failed but did not fail again alone: %s" % res["unreproduced_text"][:500])
            return 2
        return 0
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    outdir = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        exe, err = build(pid, outdir)
        if exe is None:
            sys.stderr.write(err[-4000:])
            return 1 if rec.get("build") else 2
        if rec.get("build"):
            return 0
        cmd = [exe, "--tier", rec["tier"], "--tmp", outdir, "--replay", rec["path"]]
        if rec.get("worker", -1) >= 0:
            cmd = cmd[:-2] + ["--again", str(rec["worker"]), "--workers", str(rec["workers"])]
            for match, _ in known_findings(pid):
                cmd += ["--known", match]
        if rec.get("only"):
            cmd += ["--only", rec["only"]]
        return subprocess.run(cmd, env=dict(os.environ, MC_SCRATCH=outdir), cwd=outdir).returncode
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--limit", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.build_only:
        # The checks build what they need themselves; this only verifies the toolchain.
        obj, err = compile_one(os.path.join(VERIF, "harness", "mc_main.cpp"), [])
        print("engine built" if obj else err)
        return 0 if obj else 2
    limit = a.limit or (420 if a.tier == "quick" else 3000)
    return run_check(a.property, a.tier, a.only, limit)


if __name__ == "__main__":
    sys.exit(main())
