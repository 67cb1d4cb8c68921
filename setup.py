#!/usr/bin/env python3
"""setup_cmd: builds the compiler and the drivers once, so that the checks start warm."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import common, fulib, par, vec  # noqa: E402

if __name__ == "__main__":
    common.fu_compiler()
    vec.build_all()
    par.build_all()
    for name in fulib.drivers():
        try:
            fulib.driver(name)
        except fulib.NotBuilt:
            pass        # the check reports it
