"""profile one harness case in-process: prof.py PROP harness index [seconds]"""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(here + "/run.py").read().split("if __name__")[0].replace("__file__", repr(here + "/run.py")))
import cProfile
import pstats

from symnp import harness as H
from symnp import spec

prop, name, idx = sys.argv[1], sys.argv[2], int(sys.argv[3])
sec = float(sys.argv[4]) if len(sys.argv) > 4 else 30
mod, specs = spec.load(prop)
sp = [s for s in specs if s.name == name][0]
params = (list(sp.quick) + list(sp.thorough))[idx]
params = {k: v for k, v in params.items() if not k.startswith("_")}
r = H.Runner(prop, sp.name, sp.func, params, sec, sp.timeout, validate=0, stubs=sp.stubs, uninit=sp.uninit)
pr = cProfile.Profile()
pr.enable()
try:
    r.explore()
finally:
    pr.disable()
    print({k: v for k, v in r.result().items() if k in ("paths", "checks_discharged", "solver_s", "violations", "errors", "spurious")}, len(r.violations))
    pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
