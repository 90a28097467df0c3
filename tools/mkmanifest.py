#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from argos import props     # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOTE = ("TLC explores the specification exhaustively for families of definitions and all their short command lines "
        "(or sequences of operations on objects), with the property as an independent invariant, and every behaviour "
        "is replayed on the real library (built with ASan/UBSan from /repo); recorded runs of the library on larger "
        "random definitions are validated step by step by TLC against the same specification. Assurance is for what "
        "was explored; trusted: TLC, the driver, the compiler.")
checks = []
for i in ids:
    if i in props.CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification model-checked exhaustively with TLC; replay of its "
                                     "behaviours on the code and trace validation of the code",
                           level="model_checking", level_note=NOTE))
na = [dict(property=i, reason="The check for this property is still being built.") for i in ids if i not in props.CLAIMED]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
