#!/usr/bin/env python3
"""Runs the check of one property: builds its explorer from /repo's current
working tree, explores, writes evidence/<id>.json, prints the verdict.

  python3 check.py C01 [--tier quick|thorough] [--keep]
  python3 check.py C01 --replay FILE        re-executes one violation

Exit 0: the property held on everything explored (known findings, listed in
known_findings.txt, are printed but do not count).  Exit 1: a VIOLATION line.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ALBATROSS_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "g++"
BASE = [
    "-std=c++17", "-O1", "-w", "-pthread",
    "-I" + REPO + "/include",
    "-isystem", "/usr/include/eigen3",
    "-isystem", "/usr/include/libfccp",
    "-isystem", "/usr/include/suitesparse",
    "-DCEREAL_THREAD_SAFE=1", "-D_GLIBCXX_ASSERTIONS",
    "-iquote", REPO + "/include/albatross",
    "-I" + VERIF + "/support/include",
    "-I" + VERIF + "/support/mc",
    "-I" + VERIF + "/harness",
]
GUARD = ["-include", VERIF + "/support/mc/eigen_guard.h"]
LIBS = ["-lnlopt", "-lnlopt_cxx", "-lz", "-lzstd", "-lspqr", "-lcholmod",
        "-lpthread", "-ldl"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build(pid, cfg, work):
    """Returns (binary, error text)."""
    jobs = []
    eng = os.path.join(VERIF, "support/mc/mc.cc")
    srcs = [os.path.join(VERIF, "harness", s) for s in cfg["srcs"]]
    flags = [BASE[0]] + cfg.get("pre", []) + BASE[1:] + cfg.get("flags", [])
    guard = [] if cfg.get("noguard") else GUARD
    for i, s in enumerate(srcs):
        jobs.append((s, os.path.join(work, "o%d.o" % i), flags + guard))
    for i, s in enumerate(cfg.get("support", ["mc.cc"])):
        jobs.append((os.path.join(VERIF, "support/mc", s),
                     os.path.join(work, "s%d.o" % i),
                     BASE + cfg.get("support_flags", [])))

    def one(j):
        src, obj, fl = j
        r = run([CXX] + fl + ["-c", src, "-o", obj])
        return r.returncode, src, r.stdout

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [(s, o) for rc, s, o in res if rc != 0]
    if bad:
        return None, "\n".join(os.path.basename(s) + ":\n" + o[:3000] for s, o in bad)
    exe = os.path.join(work, "explore")
    r = run([CXX] + [j[1] for j in jobs] + ["-o", exe] + cfg.get("ldflags", []) + LIBS)
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    return exe, ""


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(w.split("=", 1) for w in line[7:].split()[:2])
                rest = line[7:].split(None, 2)
                out.append((f["property"], f["key"], rest[2] if len(rest) > 2 else ""))
    return out


def main():
    args = sys.argv[1:]
    if "--selftest" in args:
        # setup_cmd: only makes sure that the engine builds here.
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        r = run([CXX] + BASE + ["-fsyntax-only", os.path.join(VERIF, "support/mc/mc.cc")])
        print(r.stdout or "engine ok")
        return r.returncode
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    t0 = time.time()
    build_root = os.path.join(VERIF, "build")
    os.makedirs(build_root, exist_ok=True)
    work = os.path.join(build_root, pid + ("-" + tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(build_root, "replays")
    os.makedirs(replays, exist_ok=True)
    exe, err = build(pid, cfg, work)
    t_build = time.time() - t0

    if "--replay" in args:
        if exe is None:
            print(err)
            return 2
        rep = json.load(open(args[args.index("--replay") + 1]))
        r = run([exe, "--replay", rep["scenario"], rep["choices"]])
        print(r.stdout)
        return 1 if r.returncode else 0

    violations = []
    report = {"executions": 0, "transitions": 0, "states": 0, "assertions": 0,
              "samples": [], "complete": False, "scenarios": 0, "pruned": 0}
    if exe is None:
        print("the explorer does not build against this tree:")
        print(err)
        violations.append({"scenario": "build", "key": "build",
                           "message": err, "choices": ""})
    else:
        budget = cfg.get("budget", {}).get(tier, 240 if tier == "quick" else 1800)
        out = os.path.join(work, "out")
        cmd = [exe, "--out", out, "--tier", tier, "--budget", str(budget),
               "--workers", "8", "--hang", str(cfg.get("hang", 60))]
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        env = dict(os.environ, VERIF_SEED=str(seed), **cfg.get("env", {}))
        try:
            r = run(cmd, env=env, timeout=budget + 200)
            text, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            text, rc = "explorer timed out", 124
        if text.strip():
            print(text[-3000:])
        rp = os.path.join(out, "report.json")
        if rc == 0 and os.path.exists(rp):
            report = json.load(open(rp))
            violations = report.pop("violations")
        else:
            violations.append({"scenario": "explorer", "key": "explorer",
                               "message": "the explorer ended with %d: %s" % (rc, text[-1500:]),
                               "choices": ""})
        for extra in cfg.get("extra", []):
            ev, rep2 = extra(pid, cfg, work, tier, run, BASE, LIBS, REPO, VERIF)
            violations += ev
            report.update(rep2)

    merged = {}
    for v in violations:
        k = v["key"]
        if k not in merged or len(v["choices"].split()) < len(merged[k]["choices"].split()):
            merged[k] = v
    kf = known()
    new, old = [], []
    for k, v in sorted(merged.items()):
        hit = [x for x in kf if x[0] == pid and x[1] == k]
        (old if hit else new).append((v, hit))
    for v, hit in old:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, hit[0][1], hit[0][2]))
    for n, (v, _) in enumerate(new):
        h = hashlib.sha1(v["key"].encode()).hexdigest()[:8]
        path = os.path.join(replays, "%s-%s.json" % (pid, h))
        json.dump(v, open(path, "w"), indent=1)
        if n < 12:
            print("  [%s] %s: %s" % (v["scenario"], v["key"], v["message"][:1200]))
            print("VIOLATION property=%s replay=%s" % (pid, path))

    level = cfg.get("level", "model_checking")
    cov = {
        "samples": report.get("samples") or ["none: " + (new[0][0]["message"][:200] if new else "")],
        "scenarios": report["scenarios"],
        "exhaustive": bool(report["complete"]),
        "assertions_evaluated": report["assertions"],
        "pruned_by_assumption_or_shard": report["pruned"],
        "rule": cfg["rule"],
        "states": report["states"],
        "transitions": report["transitions"],
        "traces_validated_against_impl": report["executions"],
        "build_s": round(t_build, 1),
    }
    for k in report:
        if k not in cov and k not in ("complete", "executions", "assertions", "pruned"):
            cov[k] = report[k]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d transitions, %d states, complete=%s, %d new, %d known, %.1fs (build %.1fs)" % (
        pid, tier, report["executions"], report["transitions"], report["states"],
        report["complete"], len(new), len(old), time.time() - t0, t_build))
    if "--keep" not in args:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
