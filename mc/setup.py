#!/usr/bin/env python3
"""Builds what every check needs; the checks rebuild whatever is missing."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import registry  # noqa: E402

for pid, spec in sorted(registry.CHECKS.items()):
    for s in spec["parts"] if "parts" in spec else [spec]:
        try:
            build.build(s["name"], s, verbose=True)
        except build.BuildError as e:
            sys.stderr.write("%s: %s\n" % (pid, e))
