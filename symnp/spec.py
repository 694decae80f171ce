"""Harness registry, parallel driver, known findings, evidence, exit status."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import harness as H

VERIF = H.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Spec:
    def __init__(self, name, func, quick, thorough, budget, timeout, stubs, uninit, validate, needs):
        self.name, self.func = name, func
        self.quick, self.thorough = quick, thorough
        self.budget, self.timeout = budget, timeout
        self.stubs, self.uninit, self.validate, self.needs = stubs, uninit, validate, needs


REG = []


def harness(quick=({},), thorough=None, budget=60, timeout=8000, stubs=None, uninit=True, validate=3, name=None, needs=""):
    """Register a harness. quick/thorough: lists of keyword dictionaries (the bounds)."""

    def deco(f):
        REG.append(Spec(name or f.__name__, f, list(quick), list(thorough if thorough is not None else quick), budget, timeout, stubs, uninit, validate, needs))
        return f

    return deco


def load(prop):
    REG.clear()
    m = importlib.import_module("checks." + prop)
    return m, list(REG)


def known_findings():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)
    return []


def match_known(v, known):
    for k in known:
        if k.get("status") != "known" or k["property"] != v["property"] or k["harness"] != v["harness"]:
            continue
        if k.get("label") and k["label"] != v["label"]:
            continue
        if k.get("match") and k["match"] not in v["message"]:
            continue
        return k
    return None


def _jsonable(v):
    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_jsonable(x) for x in v]
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return str(v)


def _work(q, idx, prop, sp, params, budget, timeout, seed, tier):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        r = H.Runner(prop, sp.name, sp.func, params, budget, timeout, validate=sp.validate if tier == "quick" else 3 * sp.validate, stubs=sp.stubs, uninit=sp.uninit)
        t0 = time.time()
        r.explore()
        te = time.time()
        sample = None
        counts = (r.stats.checks, r.stats.queries, r.stats.solver_s)
        if not r.violations:
            r.validate(seed)
        if not r.violations and r.undecided():
            r.more_runs(seed)
        elif not r.violations and sp.validate:
            # what the encoding leaves out (the precision of numbers, types, views) in a few more runs of the real code
            r.more_runs(seed, int(os.environ.get("SYMNP_MORE", 12)), 4, "unmodelled")
        r.stats.checks, r.stats.queries, r.stats.solver_s = counts
        res = r.result()
        res["wall_s"] = round(time.time() - t0, 2)
        res["explore_s"] = round(te - t0, 2)
        res["violations"] = [_jsonable(v) for v in r.violations]
        res["sample"] = sample
        q.put((idx, res))
    except BaseException as e:  # noqa: the driver must hear about it
        q.put((idx, {"harness": sp.name, "params": {k: str(v) for k, v in params.items()}, "crash": f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]}))


def run_prop(prop, tier="quick", seed=1, jobs=8, only=None, verbose=False):
    t0 = time.time()
    import astropy.coordinates, astropy.time, h5py, scipy.ndimage, scipy.signal, scipy.interpolate  # noqa: F401,E401 (before forking)

    mod, specs = load(prop)
    cases = []
    for sp in specs:
        if only and sp.name not in only:
            continue
        for params in sp.quick if tier == "quick" else sp.quick + [c for c in sp.thorough if c not in sp.quick]:
            params = dict(params)
            b = params.pop("_budget", sp.budget if tier == "quick" else sp.budget * 4)
            to = params.pop("_timeout", sp.timeout)
            cases.append((sp, params, b, to))
    # longest budgets first
    order = sorted(range(len(cases)), key=lambda i: -cases[i][2])
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    running, results = {}, {}
    todo = list(order)
    hard_end = t0 + (800 if tier == "quick" else 6 * 3600)
    while todo or running:
        while todo and len(running) < jobs and time.time() < hard_end - 5:
            i = todo.pop(0)
            sp, params, b, to = cases[i]
            b = min(b, max(5, hard_end - time.time() - 60))
            p = ctx.Process(target=_work, args=(q, i, prop, sp, params, b, to, seed, tier), daemon=False)
            p.start()
            running[i] = (p, time.time() + b * 1.5 + 150)
        if todo and time.time() >= hard_end - 5 and not running:
            for i in todo:
                results[i] = {"harness": cases[i][0].name, "params": {k: str(v) for k, v in cases[i][1].items()}, "crash": "not started: time"}
            break
        try:
            i, res = q.get(timeout=0.2)
            results[i] = res
            p, _ = running.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
        except Exception:  # queue.Empty
            for i, (p, end) in list(running.items()):
                if not p.is_alive():
                    try:
                        j, res = q.get(timeout=1.0)
                        results[j] = res
                        running.pop(j)[0].join(1)
                        continue
                    except Exception:
                        pass
                    if i in running:
                        results[i] = {"harness": cases[i][0].name, "params": {k: str(v) for k, v in cases[i][1].items()}, "crash": f"worker ended with {p.exitcode}"}
                        running.pop(i)
                elif time.time() > min(end, hard_end + 30):
                    p.kill()
                    results[i] = {"harness": cases[i][0].name, "params": {k: str(v) for k, v in cases[i][1].items()}, "crash": "killed: over time"}
                    running.pop(i)
    rs = [results[i] for i in sorted(results)]
    return report(prop, tier, seed, mod, specs, cases, rs, time.time() - t0, verbose)


def report(prop, tier, seed, mod, specs, cases, rs, wall, verbose):
    known = known_findings()
    viols, printed_known = [], set()
    for r in rs:
        for v in r.get("violations", []):
            k = match_known(v, known)
            if k:
                printed_known.add(k["what"])
            else:
                viols.append(v)
    ok = [r for r in rs if "crash" not in r]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in ok)  # noqa: E731
    os.makedirs(EVID, exist_ok=True)
    replays = []
    for n, v in enumerate(viols):
        path = os.path.join(EVID, f"{prop}.replay{n}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        replays.append(path)
    funcs = sorted(set(f for r in ok for f in r["functions"]))
    inconclusive = []
    for r in rs:
        w = []
        if "crash" in r:
            w.append(r["crash"])
        else:
            if r["budget_exhausted"]:
                w.append(f"budget used up with {r['pending_paths']} path prefixes pending")
            if r["unknown_checks"]:
                w.append(f"solver unknown on {r['unknown_checks']}")
            if r["concretised"]:
                w.append(f"concretised {r['concretised_ops']}")
            if r["unsupported"]:
                w.append(f"{r['unsupported']}")
            if r["n_spurious"]:
                w.append(f"{r['n_spurious']} candidate(s) not reproduced: {r['spurious'][:1]}")
            if r["errors"]:
                w.append("; ".join(r["errors"][:2]))
            if r["mismatch"]:
                w.append("encoding mismatch: " + "; ".join(r["mismatch"][:2]))
            if r["paths_reaching_checks"] == 0 and not r["violations"]:
                w.append("no path reached a check (vacuous)")
        if w:
            inconclusive.append({"harness": r["harness"], "bounds": r["params"], "why": w})
    samples = []
    for r in ok:
        samples.append({"harness": r["harness"], "bounds": r["params"], "paths": r["paths"], "checks_discharged": r["checks"], "solver_queries": r["queries"], "solver_s": r["solver_s"], "paths_reaching_a_check": r["paths_reaching_checks"], "validated_runs": r["validated"], "wall_s": r["wall_s"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("completed_paths"),
            "transitions": tot("queries"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples or ["none"],
            "explanation": "states = symbolic paths of the real functions explored to the end; transitions = SMT queries (branch feasibility and assertion refutation); traces_validated = concrete runs of the real code compared value for value with the encoding",
            "functions_encoded": funcs,
            "bounds": [{"harness": sp.name, **{k: str(v) for k, v in p.items()}} for sp, p, _, _ in cases],
            "assertions_refuted_or_shown": tot("checks"),
            "solver_s": round(sum(r["solver_s"] for r in ok), 3),
            "unknown": tot("unknown"),
            "assertions_shown_within_tolerance_only": tot("tolerance_checks"),
            "infeasible_paths": tot("infeasible_paths"),
            "inconclusive": inconclusive,
            "known_findings": sorted(printed_known),
        },
        "assumptions": GLOBAL_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(printed_known):
        print(f"KNOWN-FINDING: property={prop} {w}")
    for v, path in zip(viols, replays):
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  harness={v['harness']} params={v['params']} label={v['label']!r}: {v['message'][:500]}")
    for i in inconclusive:
        print(f"  inconclusive {i['harness']} {i['bounds']}: {str(i['why'])[:600 if not verbose else 4000]}")
    if verbose:
        for s in samples:
            print("  ", s)
    print(f"{prop} {tier}: harness cases {len(ok)}/{len(cases)}, paths {tot('completed_paths')}, checks {tot('checks')}, queries {tot('queries')}, solver {ev['coverage']['solver_s']}s, validated {tot('validated')}, wall {wall:.1f}s, violations {len(viols)}")
    if viols:
        return 1
    if not any(r.get("paths_reaching_checks") or r.get("violations") for r in ok):
        print("no harness reached a check: nothing was explored")
        if tot("validated"):
            # not encodable, yet every concrete run of the harnesses on the real code held
            print("inconclusive: nothing was decided")
            return 0
        return 2
    return 0


GLOBAL_ASSUMPTIONS = [
    "floating point modelled as exact real arithmetic (plus explicit nan and +-inf); rounding, overflow and signed zeros are outside the claim",
    "integers are mathematical integers (no 64-bit wrap)",
    "NumPy, numba.njit and the listed SciPy functions are replaced by a symbolic model of their documented behaviour; the model is compared with the real libraries on concrete runs each time",
    "transcendental functions are uninterpreted except for the algebraic facts stated in symnp/core.py",
]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod, specs = load(v["property"])
    sp = [s for s in specs if s.name == v["harness"]][0]
    cases = [p for p in sp.quick + sp.thorough if all(str(p.get(k)) == str(x) or p.get(k) == x for k, x in v["params"].items())]
    params = {k: x for k, x in cases[0].items() if not k.startswith("_")} if cases else v["params"]
    st, lab, m, _ = H.run_real(sp.func, params, v["values"], poison=v.get("poison", False))
    print(st, lab, m)
    return 1 if st in ("fail", "raise") else 0
