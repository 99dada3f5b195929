#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]

Builds the check for a property from /repo's working tree and runs it.
Exit status: 0 property held on everything explored, 1 violation (with a
VIOLATION line), 2 the check could not be built or run.
"""
import argparse
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import registry  # noqa: E402

VERIF = build.VERIF


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    pid = args.property
    spec = registry.CHECKS[pid]
    t0 = time.time()
    binaries = []
    specs = spec["parts"] if "parts" in spec else [spec]
    try:
        for s in specs:
            binaries.append(build.build(s["name"], s, verbose=True) + (s,))
    except build.BuildError as e:
        sys.stderr.write("[%s] the check could not be built:\n%s\n" % (pid, e))
        return 2
    t_build = time.time() - t0
    findings = known_findings(pid)
    results, rc = [], 0
    os.makedirs(os.path.join(VERIF, "build", "out"), exist_ok=True)
    for binary, info, s in binaries:
        out = os.path.join(VERIF, "build", "out", "%s-%s.json" % (pid, s["name"]))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [binary, "--property", pid, "--tier", args.tier, "--out", out,
               "--replay-dir", os.path.join(VERIF, "replays")]
        for k in findings:
            cmd += ["--known", k["key"]]
        budget = s.get(args.tier + "_budget",
                       spec.get(args.tier + "_budget",
                                420 if args.tier == "quick" else 7200))
        cmd += ["--budget", str(budget)]
        if args.only:
            cmd += ["--only", args.only]
        if args.workers:
            cmd += ["--workers", args.workers]
        if args.replay:
            cmd += ["--replay", os.path.abspath(args.replay)]
            r = subprocess.run(cmd)
            if r.returncode != 2 or len(binaries) == 1:
                return r.returncode
            continue
        sys.stdout.flush()
        env = dict(os.environ)
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(out):
            sys.stderr.write("[%s] %s ended with status %d and no result\n" %
                             (pid, s["name"], r.returncode))
            return 2
        with open(out) as f:
            res = json.load(f)
        res["part"] = s["name"]
        res["build"] = info
        results.append(res)
        if r.returncode == 1:
            rc = 1
            break
        if r.returncode != 0:
            return 2
    keys = {k for res in results for k in res["known"]}
    for k in findings:
        if k["key"] in keys:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not args.no_evidence and not args.only:
        states = sum(r["states"] for r in results)
        transitions = sum(r["transitions"] for r in results)
        executions = sum(r["executions"] for r in results)
        samples, scen = [], []
        for r in results:
            for sc in r["scenarios"]:
                scen.append({k: sc[k] for k in (
                    "name", "bounds", "executions", "pruned", "transitions",
                    "distinct_states", "max_depth", "complete", "wall_s")})
                samples += [{"scenario": sc["name"], "history": x}
                            for x in sc["samples"]]
        evidence = {
            "property": pid,
            "tier": args.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": transitions,
                "traces_validated_against_impl": executions,
                "exhaustive": all(r["exhaustive"] for r in results),
                "scenarios": scen,
                "samples": samples[:12],
                "repo_files_built": sum(r["build"]["repo_files"] for r in results),
                "build_s": round(t_build, 1),
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": [a for r in results for a in r["assumptions"]],
            "violations": sum(1 for r in results if r["violated"]),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    sys.stderr.write("[%s] %s tier: %s in %.1f s (build %.1f s)\n" % (
        pid, args.tier, "VIOLATED" if rc else "held", time.time() - t0, t_build))
    return rc


if __name__ == "__main__":
    sys.exit(main())
