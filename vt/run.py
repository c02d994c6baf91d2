"""python3 -m vt.run C01 [--replay FILE]: runs the check of one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core  # noqa: E402


def load(name):
    mod = importlib.import_module(f"vt.checks.{name.lower()}")
    return mod.CHECK


if __name__ == "__main__":
    sys.exit(core.main(load(sys.argv[1])))
