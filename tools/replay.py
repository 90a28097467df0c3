#!/usr/bin/env python3
"""replay.py PATH: carries out a reported scenario on the current tree again and asks the specification about it."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from argos import build, props, run     # noqa: E402


def main(path):
    with open(path, encoding="utf-8") as f:
        v = json.load(f)
    # Some are reported together with what the same process had done before.
    scs = [dict(sc) for sc in v["scenario"].get("history", [v["scenario"]]) if sc]
    threads = any("ln" in op for sc in scs for op in sc.get("life", []))
    for sc, recs in zip(scs, run.drive(build.build_threads() if threads else build.build(), scs, 1)):
        sc["recs"] = recs
    rejected = {}
    for module in ("ArgosTrace", "ArgosLife"):
        some = [k for k, sc in enumerate(scs) if ("life" in sc) == (module == "ArgosLife")]
        if some:
            found = run.validate([scs[k] for k in some], run.Stats(), module=module)
            rejected.update({some[k]: e for k, e in found.items()})
    for k, sc in enumerate(scs):
        print("scenario %d: %s" % (k, json.dumps({f: sc[f] for f in sc if f != "recs"})))
        for n, rec in enumerate(sc["recs"]):
            print("  record %d: %s" % (n, json.dumps(rec)))
        print("  " + ("rejected: " + props.summarize(sc, rejected[k]) if k in rejected else "accepted"))
    return 1 if rejected else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
