#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed.
"""
import collections
import concurrent.futures
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import machine  # noqa: E402
import parts  # noqa: E402
from common import VERIF, ToolError  # noqa: E402


def judged(prop, aspects):
    """The aspects of a difference that this property is about."""
    return [a for a in aspects if a in ("panic", "hang", "crash") or any(a.startswith(p) for p in parts.ASPECTS[prop])]


def known():
    """Entries 'known: property=<id> key=<key> <what>' of the known-findings file."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path, encoding="utf-8") if os.path.exists(path) else []:
        if line.startswith("known:"):
            words = line.split()
            d = dict(w.split("=", 1) for w in words[1:] if w.startswith(("property=", "key=")))
            out.append((d["property"], d["key"], line.split("key=" + d["key"], 1)[1].strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    began = time.time()
    common.build()

    work = tempfile.mkdtemp(prefix="pn-%s-" % prop)
    try:
        jobs = parts.jobs(prop, tier, seed)
        results = []
        # Two at a time: starting TLC and reading the metadata takes one core.
        with concurrent.futures.ThreadPoolExecutor(2 if tier == "quick" else 1) as pool:
            futures = []
            for i, job in enumerate(jobs):
                d = os.path.join(work, str(i))
                os.makedirs(d)
                futures.append(pool.submit(job, d, 4 if tier == "quick" and len(jobs) > 1 else 8))
            deadline = began + (780 if tier == "quick" else 3300)
            for f in futures:
                try:
                    results.append(f.result(timeout=max(1, deadline - time.time())))
                except concurrent.futures.TimeoutError:
                    raise ToolError("out of time")
        return finish(prop, tier, seed, began, results)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def finish(prop, tier, seed, began, results):
    listed = [(k, what) for p, k, what in known() if p == prop]
    bad, found = [], collections.OrderedDict()
    for r in results:
        for case in r.bad:
            aspects = judged(prop, case["aspects"])
            if not aspects:
                continue
            match = [what for k, what in listed if k == case["key"]]
            if match:
                found[case["key"]] = match[0]
            else:
                bad.append(dict(case, aspects=aspects))

    elsewhere = collections.Counter(a for r in results for c in r.bad for a in c["aspects"] if not judged(prop, [a]))
    aspects = collections.Counter(a for c in bad for a in c["aspects"])
    coverage = {
        "states": sum(r.states for r in results),
        "transitions": sum(r.transitions for r in results),
        "traces_validated_against_impl": sum(r.traces for r in results),
        "calls_of_the_real_library": sum(r.calls for r in results),
        "distinct_inputs": sum(r.distinct for r in results),
        "parts": [{"name": r.name, "states": r.states, "calls": r.calls, "traces": r.traces, "wall_s": round(r.wall, 1),
                   **r.notes} for r in results],
        "samples": [s for r in results for s in r.samples][:12],
        "differences_of_other_properties": dict(elsewhere),
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                "assumptions": parts.ASSUMPTIONS, "wall_s": round(time.time() - began, 1), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for what in found.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if bad:
        path = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "aspects": dict(aspects), "cases": bad[:50]}, f, indent=1)
        for c in bad[:5]:
            print("  %s: %s" % (", ".join(c["aspects"]), c["show"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d states, %d traces validated, %d calls, %.0f s" % (
        prop, coverage["states"], coverage["traces_validated_against_impl"],
        coverage["calls_of_the_real_library"], time.time() - began))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except ToolError as e:
        print("check failed: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
