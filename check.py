#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current sources."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sqlib import report  # noqa: E402


def run():
    pid = sys.argv[1]
    mods = [f[:-3] for f in sorted(os.listdir(os.path.join(report.VERIF, "checks")))
            if f.endswith(".py")]
    for m in mods:
        if m.upper().startswith(pid.upper() + "_"):
            mod = importlib.import_module("checks." + m)
            return mod.run(pid)
    print("ERROR: no check for", pid)
    return 2


report.main(sys.argv[1] if len(sys.argv) > 1 else "?", run)
