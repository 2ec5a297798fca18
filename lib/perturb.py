"""A library of delays that is preloaded into the server."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402


def library():
    src = os.path.join(VERIF, "harness", "perturb.c")
    out = os.path.join(builder.BUILD, "perturb.so")
    os.makedirs(builder.BUILD, exist_ok=True)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out + ".new", src, "-ldl"], check=True)
            os.rename(out + ".new", out)
    return out


def env(seed, level):
    return {"LD_PRELOAD": library(), "PERTURB_SEED": str(seed), "PERTURB_LEVEL": str(level)}
