#!/usr/bin/env python3
"""Decides one property: python3 check.py <ID> [--tier quick|thorough]
                                            [--replay FILE]

Builds the library sources of /repo's current working tree together with the
harnesses of that property, runs them (they explore exhaustively within stated
bounds, see mc/explore.h), writes evidence/<ID>.json and reports.

exit 0: the property held on everything explored
exit 1: a line "VIOLATION property=<ID> replay=<path>"
anything else: the check itself failed
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CONEX_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
EIGEN = "/usr/include/eigen3"

sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

COMMON = ["-std=c++17", "-w", "-DCONEX_VERBOSE=0", "-DEIGEN_MPL2_ONLY",
          "-DEIGEN_MAX_ALIGN_BYTES=64", "-DEIGEN_HAS_TYPE_TRAITS=0",
          "-iquote", REPO, "-I", REPO, "-I", REPO + "/conex", "-isystem", EIGEN, "-I", VERIF]
CONFIGS = {
    # As the project builds it, at a lower optimisation level.
    "fast": ["-O1", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-ftrivial-auto-var-init=pattern"],
    # Position independent, for a shared library.
    "shared": ["-O1", "-fPIC", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-ftrivial-auto-var-init=pattern"],
    "fast2": ["-O2", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-ftrivial-auto-var-init=pattern"],
    # AddressSanitizer, release semantics (asserts off).
    "asan": ["-O1", "-g1", "-DNDEBUG", "-DEIGEN_NO_DEBUG", "-fsanitize=address",
             "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
}
LINK = {"asan": ["-fsanitize=address"], "shared": ["-shared", "-Wl,-z,defs"]}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def headers_key():
    names = sorted(glob.glob(REPO + "/conex/*.h") + glob.glob(REPO + "/interfaces/*.h"))
    return sha(*[n + "\0" + read(n).decode("latin1") for n in names])


def verif_headers_key():
    names = sorted(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/harness/*.h"))
    return sha(*[n + "\0" + read(n).decode("latin1") for n in names])


def compile_one(src, flags, key):
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++"] + COMMON + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, "%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:])
    os.replace(tmp, out)
    return out, None


def build(config, harness):
    """Returns the path of the harness binary, or for a harness in Python that
    of the shared library it loads."""
    flags = CONFIGS[config]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hk, vk = headers_key(), verif_headers_key()
    libs = sorted(glob.glob(REPO + "/conex/*.cc") + glob.glob(REPO + "/interfaces/*.cc"))
    jobs = [(s, sha(s, read(s), hk, *flags, *COMMON)) for s in libs]
    hsrc = os.path.join(VERIF, "harness", harness + ".cc")
    if config != "shared":
        jobs.insert(0, (hsrc, sha(hsrc, read(hsrc), hk, vk, *flags, *COMMON)))
    # Slow translation units first.
    jobs.sort(key=lambda j: -(10**9 if j[0] == hsrc else 0) - ("jordan" in j[0]) * 10**8 - os.path.getsize(j[0]))
    exe = os.path.join(BUILD, "bin", harness + "-" + sha(config, *[k for _, k in jobs]))
    if os.path.exists(exe):
        return exe
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], flags, j[1]), jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        sys.stderr.write("check error: build failed\n")
        sys.exit(3)
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-o", tmp] + [o for o, _ in res] + LINK.get(config, []) + ["-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:] + "\ncheck error: link failed\n")
        sys.exit(3)
    os.replace(tmp, exe)
    return exe


def command(config, harness, exe):
    if config == "shared":
        return ["python3-vt", "-B", os.path.join(VERIF, "harness", harness + ".py"), "--lib", exe]
    return [exe]


def prune():
    """Keep the build cache small."""
    files = glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*")
    files.sort(key=lambda f: -os.path.getmtime(f))
    total = 0
    for f in files:
        total += os.path.getsize(f)
        if total > 3 * 10**9:
            os.unlink(f)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s key=" % pid):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                keys[key] = text
    return keys


def run_env():
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = "1"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1000000:malloc_fill_byte=203:allocator_may_return_null=1"
    return env


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        # Every check builds what it needs from /repo's working tree, so there
        # is nothing to prepare beyond the directory the evidence goes to.
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rundir = os.path.join(BUILD, "run", pid)
    os.makedirs(rundir, exist_ok=True)

    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        harness = config = None
        for line in open(path):
            w = line.split()
            if w and w[0] == "harness":
                harness, config = w[1], w[2]
        exe = build(config, harness)
        env = run_env()
        if "--show" in args:
            env["MC_SHOW"] = "1"
        sys.exit(subprocess.run(command(config, harness, exe) + ["--replay", path], env=env).returncode)

    known = known_findings(pid)
    kfile = os.path.join(rundir, "known")
    with open(kfile, "w") as f:
        f.write("".join(k + "\n" for k in known))

    cov = {"executions": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [],
           "exhaustive": True, "harnesses": [], "known_findings_seen": {}}
    violations, broken = [], False
    total_budget = spec.get("budget", {}).get(tier, 500 if tier == "quick" else 5400)
    for harness, config in spec["harnesses"]:
        exe = build(config, harness)
        out = os.path.join(rundir, harness + "-" + config + ".json")
        if os.path.exists(out):
            os.unlink(out)
        left = max(30, total_budget - (time.time() - t0))
        cmd = command(config, harness, exe) + ["--out", out, "--known", kfile, "--budget", str(left), "--workers", "8",
               "--stall", str(spec.get("stall", 60))]
        if tier == "thorough":
            cmd.append("--thorough")
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        r = subprocess.run(cmd, env=run_env())
        if not os.path.exists(out):
            sys.stderr.write("check error: %s produced no result (exit %d)\n" % (harness, r.returncode))
            sys.exit(3)
        d = json.load(open(out))
        if r.returncode not in (0, 1):
            broken = True
        cov["executions"] += d["executions"]
        cov["states"] += d["states"]
        cov["transitions"] += d["transitions"]
        cov["traces_validated_against_impl"] += d["validated"]
        cov["evaluations"] += d["executions"]
        cov["distinct_nontrivial"] += d["nontrivial"]
        cov["samples"] += d["samples"][:12]
        cov["exhaustive"] = cov["exhaustive"] and not d["capped"]
        cov["harnesses"].append({"harness": harness, "build": config, "wall_s": d["wall"],
                                 "scenarios": d["scenarios"], "counters": d["counters"]})
        for k, (n, msg) in d["known"].items():
            cov["known_findings_seen"][k] = n
        for v in d["violations"]:
            violations.append((harness, config, v))
        if violations:
            break
    cov["samples"] = cov["samples"][:24]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, text in known.items():
        if key in cov["known_findings_seen"]:
            print("KNOWN-FINDING: property=%s [%s] %s" % (pid, key, text))
    prune()
    if violations:
        for n, (harness, config, v) in enumerate(violations):
            path = os.path.join(VERIF, "evidence", "%s-replay-%d.txt" % (pid, n))
            with open(path, "w") as f:
                f.write("harness %s %s\nscenario %s\ntier %s\nchoices %s\n# [%s] %s\n# case: %s\n# run: python3 check.py %s --replay %s\n" % (
                    harness, config, v["scenario"], tier, v["choices"], v["key"], v["msg"], v["desc"], pid, path))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if broken:
        sys.stderr.write("check error: an execution failed and did not replay\n")
        sys.exit(3)
    if cov["executions"] == 0:
        sys.stderr.write("check error: nothing was explored\n")
        sys.exit(3)
    print("ok property=%s tier=%s executions=%d states=%d transitions=%d judged=%d complete=%s wall=%.1fs" % (
        pid, tier, cov["executions"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["exhaustive"], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
