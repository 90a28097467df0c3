#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property."""
import argparse
import copy
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from argos import build, props, run     # noqa: E402

VERIF = build.VERIF
EVIDENCE = os.environ.get("ARGOS_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


def known_findings(prop):
    """Entries "open: property=<id> scenario=<json key> <text>" suppress one scenario."""
    path = os.path.join(VERIF, "known_findings.txt")
    result = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("open: property=%s " % prop):
                result.append(line[len("open: property=%s " % prop):].strip())
    return result


def key_of(sc):
    return run.scenario_key(sc)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    result = props.run_property(a.prop, a.tier, a.seed, a.scale)
    known = known_findings(a.prop)
    violations = []
    for v in result.violations:
        hit = [k for k in known if k.startswith("scenario=" + v["key"] + " ")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, hit[0]))
        else:
            violations.append(v)
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    for n, v in enumerate(violations[:5]):
        path = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (a.prop, n))
        with open(path, "w", encoding="utf-8") as f:
            json.dump(v, f, indent=1)
        print("  %s" % v["summary"])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
              level="model_checking", coverage=result.coverage(), assumptions=result.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVIDENCE, a.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d behaviours of the code checked, %d states, %.1f s, %d violations" % (
        a.prop, result.traces, result.stats.states, time.time() - t0, len(violations)))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
