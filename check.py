#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--component NAME].

Runs every component of the property in worker processes (python of /opt/venv, code of /repo's working tree),
merges what they covered into evidence/<property>.json and exits
  0  held on everything explored
  1  a violation was found: prints "VIOLATION property=<id> replay=<path>"
  2  the check itself failed (never a verdict on the code)
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def worker_env(scratch: str, threads: int) -> dict:
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{REPO}:{HERE}:{HERE}/vendor",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        # Never reuse compiled code: numba's on-disk cache does not notice changes in functions of another file.
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS=str(threads),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_CORETYPE="Haswell",
        NUMBA_CPU_NAME="haswell",
        NUMBA_CPU_FEATURES="+avx2,+fma",
        PYSCF_TMPDIR=scratch,
        TMPDIR=scratch,
        QISKIT_PARALLEL="FALSE",
        HOME=scratch,
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        PYTHONWARNINGS="ignore",
    )
    return env


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--component")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    tier = "thorough" if args.tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vq-")
    procs = []

    def cleanup() -> None:
        for p in procs:
            if p["proc"].poll() is None:
                try:
                    os.killpg(p["proc"].pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)

    def on_term(signum, frame):  # noqa: ARG001
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return run(args, tier, t0, scratch, procs)
    finally:
        cleanup()


def run(args, tier, t0, scratch, procs) -> int:
    pid = args.property
    if args.replay:
        r = subprocess.run(
            [PY, "-m", "vq.worker", "--property", pid, "--replay", args.replay],
            cwd=scratch, env=worker_env(scratch, 2),
        )
        if r.returncode < 0:
            print(f"VIOLATION property={pid} replay={args.replay}")
            return 1
        return r.returncode
    plan = json.loads(
        subprocess.run(
            [PY, "-m", "vq.worker", "--property", pid, "--plan", tier],
            cwd=scratch, env=worker_env(scratch, 2), check=True, stdout=subprocess.PIPE,
        ).stdout.decode().strip().splitlines()[-1]
    )
    jobs = []
    for c in plan["components"]:
        if args.component and c["name"] != args.component:
            continue
        for s in range(c["shards"]):
            jobs.append((c["name"], s, max(1, int(c["examples"] * args.scale)), c["budget"], c["threads"], c["case_limit"]))
    # Longest first.
    jobs.sort(key=lambda j: -j[3])
    ncpu = max(1, min(8, os.cpu_count() or 1))
    pending = list(jobs)
    done = []
    error = None
    while pending or procs:
        while pending and len([p for p in procs if p["proc"].poll() is None]) < ncpu:
            name, shard, n, budget, threads, limit = pending.pop(0)
            out = os.path.join(scratch, f"{name}.{shard}.json")
            log = os.path.join(scratch, f"{name}.{shard}.log")
            with open(log, "wb") as lf:
                p = subprocess.Popen(
                    [PY, "-m", "vq.worker", "--property", pid, "--component", name, "--shard", str(shard), "--seed", str(args.seed),
                     "--examples", str(n), "--budget", str(budget), "--tier", tier, "--out", out],
                    cwd=scratch, env=worker_env(scratch, threads), stdout=lf, stderr=subprocess.STDOUT, start_new_session=True,
                )
            procs.append({"proc": p, "name": name, "shard": shard, "out": out, "log": log, "limit": limit, "start": time.time()})
        time.sleep(0.1)
        for p in list(procs):
            rc = p["proc"].poll()
            cur = p["out"] + ".current"
            if rc is None:
                # A single case that never ends.
                if os.path.exists(cur) and time.time() - os.path.getmtime(cur) > p["limit"]:
                    os.killpg(p["proc"].pid, signal.SIGKILL)
                    p["proc"].wait()
                    done.append(crash_result(p, cur, f"a case did not finish within {p['limit']} s"))
                    procs.remove(p)
                continue
            procs.remove(p)
            if rc == 0 and os.path.exists(p["out"]):
                done.append(json.load(open(p["out"])))
            elif rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL) and os.path.exists(cur):
                done.append(crash_result(p, cur, f"the process died with signal {-rc}"))
            else:
                tail = open(p["log"], errors="replace").read()[-4000:]
                error = f"worker {p['name']}.{p['shard']} exited with {rc}\n{tail}"
        if error:
            break
    if error:
        print(error, file=sys.stderr)
        print(f"CHECK-ERROR property={pid}")
        return 2
    return report(args, pid, plan, tier, done, t0)


def crash_result(p, cur, why):
    spec = json.load(open(cur))
    return {"component": p["name"], "shard": p["shard"], "evaluations": 1, "hashes": [], "samples": [], "known": {},
            "failure": {"spec": spec, "message": why}, "wall_s": time.time() - p["start"]}


def report(args, pid, plan, tier, done, t0) -> int:
    comps = {}
    samples = []
    seen = set()
    known = {}
    failures = []
    for r in sorted(done, key=lambda r: (r["component"], r["shard"])):
        c = comps.setdefault(r["component"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "wall_s": 0.0})
        c["evaluations"] += r["evaluations"]
        new = {r["component"] + ":" + h for h in r["hashes"]} - seen
        seen |= new
        c["distinct_nontrivial"] += len(new)
        c["wall_s"] = round(c["wall_s"] + r["wall_s"], 2)
        for k, v in r.get("labels", {}).items():
            c["labels"][k] = c["labels"].get(k, 0) + v
        if len([s for s in samples if s["component"] == r["component"]]) < 2:
            samples += [{"component": r["component"], "case": s} for s in r["samples"][:2]]
        for k, v in r["known"].items():
            known[k] = v
        if r["failure"]:
            failures.append(r)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = None
    for f in failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{f['component']}-{f['shard']}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "component": f["component"], "spec": f["failure"]["spec"], "message": f["failure"]["message"]}, fh, indent=1)
        replay = replay or path
        print(f"[{pid}/{f['component']}] {f['failure']['message']}\n  case: {json.dumps(f['failure']['spec'])[:1500]}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in comps.values()),
            "distinct_nontrivial": len(seen),
            "rule": plan["rule"],
            "samples": samples,
            "components": comps,
            "component_rules": {c["name"]: c["doc"] for c in plan["components"]},
        },
        "assumptions": plan["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, v in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {v}")
    print(f"{pid} [{tier}] {ev['coverage']['evaluations']} cases, {len(seen)} distinct non-trivial, {len(failures)} failing, {ev['wall_s']} s")
    if failures:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
