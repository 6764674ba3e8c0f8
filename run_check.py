#!/usr/bin/env python3
"""run_check.py <PROPERTY> [--replay FILE]   (tier from VERIF_TIER: quick | thorough)"""
import importlib
import json
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") \
        and not os.environ.get("MC_REEXEC"):
    os.environ["MC_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc import seam  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("mc.checks." + prop.lower())
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            data = json.load(f)
        return mod.replay(data["replay"])
    os.chdir("/tmp")
    return mod.main(os.environ.get("VERIF_TIER", "quick") == "thorough")


if __name__ == "__main__":
    sys.exit(main())
