#!/usr/bin/env python3
"""check.py <property-id> [--thorough] : decide one property from /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import report  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("rules." + pid.lower())
    report.main(pid, mod.run, mod.EXPLANATION)
