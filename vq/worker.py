"""Runs one component (one shard) of a property with Hypothesis, or replays one stored case."""
from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopAll(BaseException):
    """Leaves Hypothesis once the time for shrinking is used up."""


def load(pid: str):
    return importlib.import_module(f"vq.props.{pid.lower()}").PROPERTY


def known_keys(pid: str) -> dict:
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"KNOWN property={pid} key="):
                rest = line.split("key=", 1)[1]
                key, _, desc = rest.partition(" ")
                out[key] = desc
    return out


def is_code_failure(exc: BaseException) -> bool:
    """True if the exception says something about the code under test: an explicit Violation or a crash inside it."""
    from vq.core import Violation

    if isinstance(exc, Violation):
        return True
    tb = exc.__traceback__
    files = [f.filename for f in traceback.extract_tb(tb)]
    repo = os.environ.get("VERIF_REPO", "/repo")
    return any(f.startswith(os.path.join(repo, "slowquant")) for f in files)


def describe(exc: BaseException) -> str:
    from vq.core import Violation

    if isinstance(exc, Violation):
        return str(exc)
    last = traceback.extract_tb(exc.__traceback__)[-1]
    return f"{type(exc).__name__}: {exc} (at {last.filename}:{last.lineno})"


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--plan")
    ap.add_argument("--replay")
    ap.add_argument("--component")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--examples", type=int, default=20)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    args = ap.parse_args()
    with contextlib.redirect_stdout(io.StringIO()):
        prop = load(args.property)
    comps = {c.name: c for c in prop.components}
    if args.plan:
        quick = args.plan == "quick"
        print(json.dumps({
            "rule": prop.rule,
            "assumptions": prop.assumptions,
            "components": [
                {"name": c.name, "doc": c.doc, "shards": c.shards if quick else c.thorough_shards,
                 "examples": c.quick if quick else c.thorough, "budget": c.budget if quick else c.thorough_budget,
                 "threads": c.threads, "case_limit": c.case_limit if quick else 3 * c.case_limit}
                for c in prop.components
            ],
        }))
        return 0
    if args.replay:
        data = json.load(open(args.replay))
        comp = comps[data["component"]]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                comp.check(data["spec"])
        except Exception as e:  # noqa: BLE001
            from vq.core import Skip

            if isinstance(e, Skip):
                print("case is outside the domain")
                return 0
            if not is_code_failure(e):
                raise
            print(describe(e))
            print(f"VIOLATION property={args.property} replay={args.replay}")
            return 1
        print("replay: the property held")
        return 0
    return run_component(args, prop, comps[args.component])


def run_component(args, prop, comp) -> int:
    import numpy as np
    from hypothesis import HealthCheck, Phase, given, seed, settings

    from vq.core import Skip, Violation

    t0 = time.time()
    known = known_keys(args.property)
    st = {"n": 0, "hashes": set(), "samples": [], "labels": {}, "known": {}, "best": None, "fail_time": None, "started": False}
    current = args.out + ".current"
    shrink_budget = 45.0 if args.tier == "quick" else 180.0

    def one(spec) -> None:
        text = json.dumps(spec, sort_keys=True)
        with open(current, "w") as fh:
            fh.write(text)
        st["n"] += 1
        random.seed(0)
        np.random.seed(0)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                label = comp.check(spec)
        except Skip:
            st["labels"]["skipped"] = st["labels"].get("skipped", 0) + 1
            return
        except Exception as e:  # noqa: BLE001
            if not is_code_failure(e):
                raise
            key = getattr(e, "key", None)
            if key is not None and key in known:
                st["known"][key] = known[key]
                return
            msg = describe(e)
            if st["best"] is None or len(text) <= len(st["best"][0]):
                st["best"] = (text, msg)
            if st["fail_time"] is None:
                st["fail_time"] = time.time()
            if time.time() - st["fail_time"] > shrink_budget:
                raise StopAll from None
            raise Violation("fails") from None
        if label:
            st["hashes"].add(hashlib.sha1(text.encode()).hexdigest()[:16])
            if len(st["samples"]) < 3 or (len(st["samples"]) < 6 and st["n"] % 7 == 0):
                st["samples"].append(spec if len(text) < 1500 else text[:1500] + "...")
            if isinstance(label, str):
                st["labels"][label] = st["labels"].get(label, 0) + 1

    failed = False
    if args.shard == 0:
        for spec in comp.pinned:
            try:
                one(spec)
            except (Violation, StopAll):
                failed = True
                break
    if not failed:

        @seed(args.seed * 1_000_003 + args.shard * 7919 + int(hashlib.sha1(comp.name.encode()).hexdigest()[:6], 16))
        @settings(
            max_examples=args.examples + (args.shard > 0), database=None, deadline=None, suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
        )
        @given(comp.strategy(args.tier))
        def test(spec):
            if args.shard and not st["started"]:
                # every shard begins with the same smallest case: shard 0 runs it
                st["started"] = True
                return
            if st["best"] is None and time.time() - t0 > args.budget:
                return
            if st["fail_time"] is not None and time.time() - st["fail_time"] > shrink_budget:
                raise StopAll
            one(spec)

        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except (Violation, StopAll):
            failed = True
        except BaseException as e:  # noqa: BLE001
            # Flaky or an error of the harness itself: a verdict only if a violation was recorded.
            if st["best"] is None:
                traceback.print_exc()
                return 3
            failed = True
    res = {
        "component": comp.name, "shard": args.shard, "evaluations": st["n"], "hashes": sorted(st["hashes"]), "samples": st["samples"],
        "labels": st["labels"], "known": st["known"],
        "failure": {"spec": json.loads(st["best"][0]), "message": st["best"][1]} if failed and st["best"] else None,
        "wall_s": round(time.time() - t0, 2),
    }
    with open(args.out, "w") as fh:
        json.dump(res, fh)
    return 0


if __name__ == "__main__":
    sys.exit(main())
