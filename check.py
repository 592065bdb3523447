#!/usr/bin/env python
"""check.py C01 [--replay FILE] [--only scenario,...] [--scale 0.1]    (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0" or \
        os.environ.get("VMON_ENV") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VMON_ENV="1", TZ="UTC",
               LANG="C.UTF-8", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--replay")
ap.add_argument("--only")
ap.add_argument("--scale", type=float)
a = ap.parse_args()
from vmon import core
sys.stdout.reconfigure(line_buffering=True)
sys.exit(core.main(a.property.upper(), a.replay, a.only.split(",") if a.only else None, a.scale))
