#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, common, maps, par, sets, text, vec  # noqa: E402
from vf.lang import checks as lang  # noqa: E402

TABLE = {
    "C01": vec.c01,
    "C02": vec.c02,
    "C03": vec.c03,
    "C04": par.c04,
    "C05": par.c05,
    "C06": maps.c06,
    "C07": sets.c07,
    "C08": sets.c08,
    "C13": lang.c13,
    "C14": lang.c14,
    "C15": lang.c15,
    "C16": lang.c16,
    "C18": build.c18,
    "C19": lang.c19,
    "C21": par.c21,
    "C22": text.c22,
    "C23": text.c23,
}

if __name__ == "__main__":
    common.main(TABLE)
