#!/usr/bin/env python3
"""check.py <property> [quick|thorough|replay <path>]"""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
sys.dont_write_bytecode = True
import run  # noqa: E402

TABLE = {}
for mod in sorted(os.listdir(os.path.join(VERIF, "checks"))):
    if mod.endswith(".py"):
        for l in open(os.path.join(VERIF, "checks", mod)):
            l = l.strip()
            if l.startswith("id = "):
                TABLE[l.split('"')[1]] = mod[:-3]

if __name__ == "__main__":
    pid = sys.argv[1]
    m = importlib.import_module(TABLE[pid])
    for c in vars(m).values():
        if isinstance(c, type) and getattr(c, "id", None) == pid:
            sys.exit(run.main(c(), sys.argv[2:]))
    sys.exit(3)
