#!/opt/venv/bin/python
"""Usage: run.py PROPERTY [--tier quick|thorough] [--only harness] [--replay FILE]"""
import argparse
import os
import sys

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYFHD_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from symnp import spec

    if a.selftest:
        import numpy
        import z3

        print("numpy", numpy.__version__, "z3", z3.get_version_string())
        rc = 0
    elif a.replay:
        rc = spec.replay(a.replay)
    else:
        rc = spec.run_prop(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.jobs, a.only, a.v)
    sys.stdout.flush()
    os._exit(rc)
