#!/usr/bin/env python3
"""Decides one property: runs its monitor on /repo's working tree and reports the verdict.

    check.py --property C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (an error of the check, or the monitor observed too little).
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
SRC = os.environ.get("VP_SRC", "/repo/src")
FINDINGS = os.path.join(HERE, "known_findings.jsonl")


def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("{"):
                f = json.loads(line)
                if f.get("status") == "known" and f.get("property") == prop:
                    out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS") or 0))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    jobs = a.jobs or max(2, min(8, os.cpu_count() or 2))
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, only = r["seed"], r["tier"], r["index"]
        jobs = 1

    tmp = tempfile.mkdtemp(prefix="vp_run_")
    procs = []
    deadline = 100 if a.tier == "quick" else 700
    try:
        for shard in range(jobs):
            env = dict(os.environ)
            env.update({
                "PYTHONPATH": SRC + os.pathsep + HERE,
                "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONPYCACHEPREFIX": os.path.join(tmp, "pyc"),
                # different hash orders per worker, but the same in every run
                "PYTHONHASHSEED": str((a.seed * 1000 + shard * 7 + 1) % 4294967295),
                "VP_TMP": tmp, "VP_SRC": SRC, "PYTHONNOUSERSITE": "1",
                "PYTHONUTF8": "1", "TMPDIR": tmp,
            })
            out = os.path.join(tmp, f"out.{shard}.json")
            cmd = [PY, "-W", "ignore", "-m", "vp.worker", "--property", a.property, "--tier", a.tier,
                   "--seed", str(a.seed), "--shard", str(shard), "--shards", str(jobs),
                   "--deadline", str(deadline), "--out", out]
            if a.cases is not None:
                cmd += ["--cases", str(a.cases)]
            if only is not None:
                cmd += [f"--only={only}"]
            log = open(os.path.join(tmp, f"log.{shard}"), "wb")
            procs.append((shard, out, subprocess.Popen(
                cmd, env=env, cwd=tmp, stdout=log, stderr=log, start_new_session=True), cmd, env))
        end = time.time() + deadline + 90
        results, errors, violations = [], [], []
        for shard, out, p, cmd, env in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                # Unresponsive: not even the CPU-time guard got through. Confirm alone.
                cur = os.path.join(tmp, f"current.{shard}")
                index = open(cur).read().strip() if os.path.exists(cur) else None
                if index is not None:
                    c2 = [x for x in cmd if not x.startswith("--only=")] + [f"--only={index}"]
                    try:
                        subprocess.run(c2, env=env, cwd=tmp, timeout=120,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    except subprocess.TimeoutExpired:
                        violations.append({"index": int(index), "message":
                                           "call does not return (uninterruptible)", "detail": {}})
                        continue
                errors.append(f"worker {shard} unresponsive")
                continue
            if not os.path.exists(out):
                tail = open(os.path.join(tmp, f"log.{shard}"), errors="replace").read()[-2000:]
                errors.append(f"worker {shard} ended without result (rc {p.returncode}): {tail}")
                continue
            r = json.load(open(out))
            results.append(r)
            if r["status"] != "ok":
                errors.append(r.get("error", "?"))
    finally:
        for _, _, p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)

    counters, seen, samples, evaluations, stopped = {}, set(), [], 0, []
    for r in results:
        evaluations += r["evaluations"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        seen.update(r["seen"])
        samples += r["samples"][:3]
        violations += r["violations"]
        if r.get("stopped"):
            stopped.append(r["stopped"])
    known = known_findings(a.property)
    reported, findings = [], []
    for v in violations:
        text = v["message"] + " " + json.dumps(v["detail"], ensure_ascii=False)
        hit = next((f for f in known if f["match"] in text), None)
        (findings if hit else reported).append((hit or {}, v))

    required = results[0]["required"] if results else []
    lacking = [k for k in required if not counters.get(k)]
    wall = round(time.time() - t0, 2)

    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {
            "property": a.property, "tier": a.tier, "seed": a.seed,
            "level": results[0]["level"] if results else "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(seen),
                "rule": results[0]["rule"] if results else "",
                "samples": samples[:12],
                "observed": counters,
                "workers": len(results),
                "cut_short": stopped,
            },
            "assumptions": results[0]["assumptions"] if results else [],
            "wall_s": wall,
            "violations": len(reported),
        }
        with open(os.path.join(HERE, "evidence", f"{a.property}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")

    for f, v in findings:
        print(f"KNOWN-FINDING: property={a.property} {f.get('what')}")
    if reported:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (_, v) in enumerate(reported[:3]):
            path = os.path.join(rdir, f"{a.property}-{a.tier}-{a.seed}-{v['index']}.json")
            with open(path, "w") as fh:
                json.dump({"property": a.property, "tier": a.tier, "seed": a.seed, **v}, fh,
                          indent=1, ensure_ascii=True)
            print(f"{a.property}: {v['message']}")
            for k, d in v["detail"].items():
                print(f"    {k}: {d}")
            print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if errors or not results:
        print(f"{a.property}: no verdict: " + "; ".join(errors)[-1500:])
        return 2
    if a.replay:
        print(f"{a.property}: replayed case {only}: no violation")
        return 0
    if lacking and a.cases is None:
        print(f"{a.property}: no verdict: nothing observed for {lacking}")
        return 2
    print(f"{a.property} held: {evaluations} cases, {len(seen)} distinct, "
          f"{counters.get('comparisons', 0)} comparisons, {wall} s"
          + (f" (cut short: {stopped[0]})" if stopped else ""))
    print("    observed: " + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
