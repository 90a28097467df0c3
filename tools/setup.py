#!/usr/bin/env python3
"""Builds the test driver once; the checks rebuild what has changed."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from argos import build     # noqa: E402

print(build.build())
print(build.build_threads())
