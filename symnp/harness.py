"""Harness contexts (symbolic / concrete), exploration, replay and evidence."""
from __future__ import annotations

import importlib
import json
import logging
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as rnp
import z3

from . import core, nps
from .arr import A, BOOL, C128, F64, I64, S, as_A, dk, fconc, mk, payload
from .core import Budget, Cx, Explorer, Path, PathAbort, Unsupported, conv, kind_of

LOG = logging.getLogger("pyfhd-verif")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL + 1)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AssumeFailed(Exception):
    pass


class ConcFail(Exception):
    def __init__(self, label, msg=""):
        super().__init__(f"{label}: {msg}")
        self.label = label


class Found(BaseException):
    """a candidate was found on this path"""


class StopHarness(BaseException):
    pass


class Hang(BaseException):
    pass


# ------------------------------------------------------------------ symbolic
class SymCtx:
    mode = "sym"
    sym = True

    def __init__(self, runner, path, loader, params, fixed=None):
        self.runner = runner
        self.path = path
        self.loader = loader
        self.np = nps.np
        self.params = params
        self.fixed = fixed
        self.decl = {}
        self.logger = LOG
        self.obs = []
        self.bounds = []
        self.checks_here = 0

    def mod(self, name):
        return self.loader.load(name)

    def _shape(self, shape):
        if shape is None:
            return None
        return (shape,) if isinstance(shape, int) else tuple(shape)

    def _var(self, name, sort, lo, hi):
        if self.fixed is not None:
            raise KeyError(name)
        v = {"f": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](name)
        if sort != "b":
            if lo is not None:
                self._bound(v >= (core.zreal(core.from_float(lo)) if sort == "f" else int(lo)))
            if hi is not None:
                self._bound(v <= (core.zreal(core.from_float(hi)) if sort == "f" else int(hi)))
            conv = (lambda x: None if x is None else core.Fraction(core.from_float(x))) if sort == "f" else (lambda x: None if x is None else int(x))
            self.path.bounds[v.get_id()] = conv(lo), conv(hi)
            self.path.keep.append(v)
        return v

    def _bound(self, b):
        self.path.add(b)

    def _mkarr(self, name, shape, kind, lo, hi, dt):
        shape = self._shape(shape)
        names = []

        def one(nm):
            if kind == "c":
                return Cx(one_r(nm + ".re"), one_r(nm + ".im"))
            return one_r(nm)

        def one_r(nm):
            k = "f" if kind == "c" else kind
            if self.fixed is not None:
                p = payload(self.fixed[nm])
                return conv(p, k)
            v = self._var(nm, k, lo, hi)
            self.decl[nm] = v
            return v

        if shape is None:
            return S(one(name), dt)
        o = rnp.empty(shape, dtype=object)
        for idx in rnp.ndindex(*shape):
            o[idx] = one(name + "[" + ",".join(map(str, idx)) + "]")
        return A(o, dt)

    def real(self, name, shape=None, lo=-64, hi=64):
        return self._mkarr(name, shape, "f", lo, hi, F64)

    def complex(self, name, shape=None, lo=-64, hi=64):
        return self._mkarr(name, shape, "c", lo, hi, C128)

    def int(self, name, shape=None, lo=-8, hi=8):
        return self._mkarr(name, shape, "i", lo, hi, I64)

    def bool(self, name, shape=None):
        return self._mkarr(name, shape, "b", None, None, BOOL)

    def choice(self, name, options):
        """one path per option"""
        options = list(options)
        if self.fixed is not None:
            return options[int(self.fixed[name])]
        v = z3.Int(name)
        self.decl[name] = v
        self.path.add(z3.And(v >= 0, v < len(options)))
        return options[int(self.path.pick(v))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def split_cases(self):
        """explore both sides of every value selection as separate paths"""
        self.path.fork_ite = True

    # -- helpers usable in both modes
    def arr(self, x, dtype=None):
        return nps.array(x, dtype=dtype)

    def logical(self, b):
        if isinstance(b, A):
            b = b.all()
        if isinstance(b, S):
            return core.truth(b.v)
        if isinstance(b, (z3.BoolRef, bool)):
            return b
        return bool(b)

    def And(self, *bs):
        r = True
        for b in bs:
            r = core.b_and(r, self.logical(b))
        return mk(r)

    def Or(self, *bs):
        r = False
        for b in bs:
            r = core.b_or(r, self.logical(b))
        return mk(r)

    def Not(self, b):
        return mk(core.b_not(self.logical(b)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def If(self, c, a, b):
        c = self.logical(c)
        if isinstance(a, A) or isinstance(b, A):
            return nps._where3(mk(c), a, b)
        return mk(core.ite(c, payload(a), payload(b)))

    def assume(self, cond):
        c = self.logical(cond)
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assume")
            return
        self.path.add(c)
        if not self.path.model_valid:
            r = self.path._check()
            if r == z3.unsat:
                raise PathAbort("assume")
            if r == z3.sat:
                self.path.model_valid = True

    def near(self, a, b, tol=1e-6):
        """scalar closeness as a boolean"""
        pa, pb = payload(a), payload(b)
        return mk(self._eq_payload(pa, pb, None))

    def _eq_payload(self, a, b, tol):
        if core.isnan(a) or core.isnan(b):
            return core.isnan(a) and core.isnan(b)
        if tol is None:
            return core.eq(a, b)
        if kind_of(a) == "c" or kind_of(b) == "c":
            a, b = conv(a, "c"), conv(b, "c")
            return core.b_and(self._eq_payload(a.re, b.re, tol), self._eq_payload(a.im, b.im, tol))
        if core.is_special(a) or core.is_special(b):
            return a == b if core.is_special(a) and core.is_special(b) else False
        if kind_of(a) in "bi" and kind_of(b) in "bi":
            return core.eq(a, b)
        d = core.sub(conv(a, "f"), conv(b, "f"))
        t = Fraction(tol)
        return core.b_and(core.compare("le", d, t), core.compare("ge", d, -t))

    def _pairs(self, label, a, b):
        a, b = as_A(a), as_A(b)
        if a.shape != b.shape and not (b.size == 1 and b.ndim == 0):
            return None
        bo = rnp.broadcast_to(b._a, a.shape)
        return [(x, y) for x, y in zip(a._a.ravel(), bo.ravel())]

    def eq(self, label, a, b, tol=None):
        """elementwise equality (exact; otherwise within tol)"""
        known, tol = tol or 1e-8, tol or 1e-6
        prs = self._pairs(label, a, b)
        if prs is None:
            self.record(label + " shape", as_A(a).shape)
            self._fail(label, True, f"shape {as_A(a).shape} != {as_A(b).shape}")
            return
        self.record(label, a)
        self.runner.stats.checks += 1
        self.checks_here += 1
        bad = False
        bad_tol = False
        for x, y in prs:
            e = self._eq_payload(x, y, None)
            if e is True:
                continue
            if e is False and not core.is_symbolic(x) and not core.is_symbolic(y) and self._eq_payload(x, y, known) is True:
                continue
            if isinstance(e, z3.BoolRef) and self._syntactic_zero(x, y):
                continue
            bad = core.b_or(bad, core.b_not(e))
            bad_tol = core.b_or(bad_tol, core.b_not(self._eq_payload(x, y, tol)))
        self._refute(label, bad, bad_tol)

    def _syntactic_zero(self, x, y):
        """polynomial identity after normalisation by the solver's simplifier"""
        if kind_of(x) == "c" or kind_of(y) == "c":
            x, y = conv(x, "c"), conv(y, "c")
            return self._syntactic_zero(x.re, y.re) and self._syntactic_zero(x.im, y.im)
        if kind_of(x) in "O" or core.is_special(x) or core.is_special(y):
            return False
        d = core.sub(x, y) if not (kind_of(x) == "b" and kind_of(y) == "b") else None
        if d is None:
            return False
        t = time.time()
        r = core.canon(d)
        self.runner.stats.solver_s += time.time() - t
        if not core.is_z(r) and r == 0:
            self.runner.stats.queries += 1
            return True
        return False

    def check(self, label, cond, msg=""):
        if isinstance(cond, A):
            self.record(label, cond.all())
        else:
            self.record(label, cond)
        self.runner.stats.checks += 1
        self.checks_here += 1
        c = self.logical(cond)
        self._refute(label, core.b_not(c), None)

    def fail(self, label, msg=""):
        self.runner.stats.checks += 1
        self._fail(label, True, msg)

    def _refute(self, label, bad, bad_tol):
        if bad is False:
            return
        p = self.path
        if bad is True:
            self._fail(label, True)
            return
        r = p._check(bad)
        if r == z3.unsat:
            return
        if bad_tol is not None:
            if bad_tol is False:
                return
            if bad_tol is not True:
                r2 = p._check(bad_tol)
                if r2 == z3.unsat:
                    self.runner.tol_used += 1
                    return
                if r2 == z3.sat:
                    self._fail(label, bad_tol)
                    return
            r = z3.sat if r == z3.sat else z3.unknown
        if r == z3.unknown:
            self.runner.note_unknown(label)
            return
        self._fail(label, bad)

    def _fail(self, label, bad, msg=""):
        if self.fixed is not None:
            raise ConcFail(label, msg)
        self.runner.candidate(self, label, bad, msg)
        raise Found()

    def record(self, label, x):
        if self.fixed is not None:
            self.obs.append((label, x))


def model_values(ctx, m):
    out = {}
    for nm, v in ctx.decl.items():
        x = m.eval(v, model_completion=True)
        if z3.is_bool(x):
            out[nm] = z3.is_true(x)
        else:
            f = core.fold(x)
            if core.is_z(f):
                f = Fraction(f.approx(25).as_fraction())
            out[nm] = f if isinstance(f, int) else [f.numerator, f.denominator]
    return out


# ------------------------------------------------------------------ concrete
class ConcCtx:
    mode = "conc"
    sym = False

    def __init__(self, values=None, rng=None, params=None, tol_scale=1.0):
        self.values = values
        self.rng = rng
        self.params = params or {}
        self.np = rnp
        self.logger = LOG
        self.obs = []
        self.used = {}
        self.stubs = {}
        self.nchecks = 0
        # some runs with numbers which do not fit into single precision
        self.grain = 1024
        if rng is not None:
            rng.runs = getattr(rng, "runs", 0) + 1
            self.grain = 2**26 if rng.runs % 2 else 1024

    def mod(self, name):
        return importlib.import_module(name)

    def _get(self, nm, kind, lo, hi):
        if nm in self.used:
            return self.used[nm]
        if self.values is not None and nm in self.values:
            v = self.values[nm]
            if isinstance(v, list):
                v = v[0] / v[1]
        elif self.rng is not None:
            if kind == "b":
                v = self.rng.random() < 0.5
            elif kind == "i":
                v = self.rng.randint(int(lo if lo is not None else -8), int(hi if hi is not None else 8))
            else:
                l, h = (lo if lo is not None else -64.0), (hi if hi is not None else 64.0)
                v = l + (h - l) * self.rng.random()
                grain = self.grain
                while grain > 1024 and 0 < (h - l) * grain < 2.0**32:
                    grain *= 2
                v = round(v * grain) / grain
                v = min(max(v, l), h)
                if self.rng.random() < 0.15:
                    v = min(max(0.0, l), h)
        else:
            v = {"b": False, "i": max(0, lo or 0), "f": float(max(0, lo or 0))}[kind]
        self.used[nm] = v
        return v

    def _mkarr(self, name, shape, kind, lo, hi):
        def one(nm):
            if kind == "c":
                return complex(self._get(nm + ".re", "f", lo, hi), self._get(nm + ".im", "f", lo, hi))
            return self._get(nm, kind, lo, hi)

        dt = {"f": float, "c": complex, "i": rnp.int64, "b": bool}[kind]
        if shape is None:
            return rnp.dtype(dt).type(one(name))
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = rnp.zeros(shape, dtype=dt)
        for idx in rnp.ndindex(*shape):
            o[idx] = one(name + "[" + ",".join(map(str, idx)) + "]")
        return o

    def real(self, name, shape=None, lo=-64, hi=64):
        return self._mkarr(name, shape, "f", lo, hi)

    def complex(self, name, shape=None, lo=-64, hi=64):
        return self._mkarr(name, shape, "c", lo, hi)

    def int(self, name, shape=None, lo=-8, hi=8):
        return self._mkarr(name, shape, "i", lo, hi)

    def bool(self, name, shape=None):
        return self._mkarr(name, shape, "b", None, None)

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name, "i", 0, len(options) - 1))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def split_cases(self):
        pass

    def arr(self, x, dtype=None):
        return rnp.array(x, dtype=dtype)

    def logical(self, b):
        return bool(rnp.all(b))

    def And(self, *bs):
        return all(self.logical(b) for b in bs)

    def Or(self, *bs):
        return any(self.logical(b) for b in bs)

    def Not(self, b):
        return not self.logical(b)

    def Implies(self, a, b):
        return (not self.logical(a)) or self.logical(b)

    def If(self, c, a, b):
        if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
            return rnp.where(c, a, b)
        return a if self.logical(c) else b

    def assume(self, cond):
        if not self.logical(cond):
            raise AssumeFailed()

    def near(self, a, b, tol=1e-6):
        return bool(rnp.isclose(a, b, rtol=tol, atol=tol, equal_nan=True))

    def eq(self, label, a, b, tol=None):
        # double precision: single precision or less somewhere shows
        tol, default = tol or 1e-8, tol is None
        self.obs.append((label, a))
        self.nchecks += 1
        a_, b_ = rnp.asarray(a), rnp.asarray(b)
        if a_.shape != b_.shape and b_.ndim != 0:
            raise ConcFail(label, f"shape {a_.shape} != {b_.shape}")
        atol = tol
        if default and b_.size and b_.dtype.kind in "fc":
            big = rnp.abs(b_[rnp.isfinite(b_)])
            atol *= min(max(big.max(), 1e-3), 1.0) if big.size else 1.0
        if not rnp.allclose(a_, b_, rtol=tol, atol=atol, equal_nan=True):
            raise ConcFail(label, f"{_short(a_)} != {_short(b_)}")

    def check(self, label, cond, msg=""):
        self.obs.append((label, bool(rnp.all(cond))))
        self.nchecks += 1
        if not self.logical(cond):
            raise ConcFail(label, msg or "condition false")

    def fail(self, label, msg=""):
        raise ConcFail(label, msg)


def _short(a):
    s = rnp.array2string(a, threshold=40, precision=6)
    return s if len(s) < 400 else s[:400] + "..."


def restore(values):
    return values


# -------------------------------------------------------------------- runner
class Timeout(Exception):
    pass


def _alarm(sec):
    def h(s, f):
        raise Timeout(f"no result within {sec} s")

    signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)


def run_real(func, params, values, poison=False, rng=None, limit=60):
    """run harness on the unpatched code; returns (status, label, message, ctx)"""
    c = ConcCtx(values=values, params=params, rng=rng)
    saved = {}
    if poison:
        def mkp(orig):
            def e(*a, **k):
                r = orig(*a, **k)
                if r.dtype.kind in "fc":
                    r.fill(-7777.25)
                elif r.dtype.kind in "iu":
                    r.fill(77)
                return r

            return e

        for n in ("empty", "empty_like"):
            saved[n] = getattr(rnp, n)
            setattr(rnp, n, mkp(saved[n]))
    old = signal.getsignal(signal.SIGALRM)
    try:
        _alarm(limit)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with rnp.errstate(all="ignore"):
                func(c, **params)
        return "ok", "", "", c
    except AssumeFailed:
        return "assume", "", "", c
    except ConcFail as e:
        return "fail", e.label, str(e), c
    except Timeout as e:
        return "raise", "hang", str(e), c
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "/PyFHD/" in f.filename]
        where = f"{loc[-1].filename.split('/PyFHD/', 1)[1]}:{loc[-1].name}" if loc else "harness"
        return "raise", f"raises {type(e).__name__}", f"{type(e).__name__}: {e} in {where}", c
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        for n, f in saved.items():
            setattr(rnp, n, f)


class Runner:
    """explores one harness instance"""

    def __init__(self, prop, name, func, params, budget_s, timeout_ms, validate=2, max_candidates=6, stubs=None, uninit=True):
        self.prop, self.name, self.func, self.params = prop, name, func, params
        self.ex = Explorer(time.time() + budget_s, timeout_ms)
        self.stats = self.ex.stats
        self.violations = []
        self.spurious = []
        self.unknown_labels = {}
        self.tol_used = 0
        self.functions = set()
        self.max_candidates = max_candidates
        self.validate_n = validate
        self.reach = 0
        self.errors = []
        self.exhausted = False
        self.mismatch = []
        self.validated = 0
        self.stubs = stubs or {}
        self.uninit = uninit
        self.tried = {}

    def note_unknown(self, label):
        self.unknown_labels[label] = self.unknown_labels.get(label, 0) + 1

    # -- counterexamples
    def candidate(self, ctx, label, bad, msg):
        n = self.tried.get(label, 0)
        self.tried[label] = n + 1
        if n >= self.max_candidates:
            return
        models = self._models(ctx, bad)
        seen = []
        for vals in models:
            if vals in seen:
                continue
            seen.append(vals)
            for poison in (False, True):
                st, lab, m, _ = run_real(self.func, self.params, vals, poison=poison)
                if st in ("fail", "raise"):
                    self.violations.append({"property": self.prop, "harness": self.name, "label": lab, "sym_label": label, "message": m, "values": vals, "params": self.params, "poison": poison})
                    if len(self.violations) >= 3 or not self.keep_going:
                        raise StopHarness()
                    return
                if st == "assume":
                    break
        self.spurious.append({"label": label, "msg": msg, "models": seen[:1], "why": "not reproduced on the real code" if seen else "no model"})

    keep_going = False

    def _models(self, ctx, bad):
        p = ctx.path
        outs = []
        base = list(p.solver.assertions())
        if bad is not True:
            base.append(bad)
        grid = []
        for nm, v in ctx.decl.items():
            if not z3.is_bool(v) and v.is_real():
                k = z3.Int("grid!" + nm)
                grid.append(v * 16 == z3.ToReal(k))
        nz = [v != 0 for v in ctx.decl.values() if not z3.is_bool(v) and v.is_real()]
        distinct = [z3.Distinct([v for v in ctx.decl.values() if not z3.is_bool(v) and v.is_real()])] if len(nz) > 1 else []
        for extra, to in ((grid + nz, 3000), (grid, 4000), (nz + distinct, 3000), ([], self.ex.timeout_ms)):
            s = z3.Solver()
            s.set("timeout", to)
            s.add(*base)
            s.add(*extra)
            t = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                outs.append(model_values(ctx, s.model()))
        if not outs:
            r = p._check(*([bad] if bad is not True else []))
            if r == z3.sat:
                outs.append(model_values(ctx, p.last_model))
        return outs

    # -- exploration
    def explore(self):
        from .loader import Loader, trace_functions

        t0 = time.time()
        loader = Loader(self.stubs)
        self.ex.work = [[]]
        completed = 0
        prof = trace_functions(self.functions)
        nps.UNINIT = self.uninit

        def on_prof(sig, frame):
            raise Hang()

        signal.signal(signal.SIGPROF, on_prof)
        try:
            while self.ex.work:
                if self.stats.paths >= self.ex.max_paths or time.time() > self.ex.deadline:
                    raise Budget()
                prefix = self.ex.work.pop()
                path = Path(prefix, self.ex)
                core.set_path(path)
                ctx = SymCtx(self, path, loader, self.params)
                self.stats.paths += 1
                try:
                    signal.setitimer(signal.ITIMER_PROF, self.path_limit)
                    if self.stats.paths <= 40:
                        sys.setprofile(prof)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        self.func(ctx, **self.params)
                    sys.setprofile(None)
                    completed += 1
                    if ctx.checks_here:
                        self.reach += 1
                except PathAbort:
                    self.stats.infeasible += 1
                except Found:
                    completed += 1
                except (Budget, StopHarness):
                    raise
                except Hang:
                    sys.setprofile(None)
                    self._hang(ctx)
                except (Exception, SystemExit) as e:
                    sys.setprofile(None)
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    self._path_exception(ctx, e)
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    sys.setprofile(None)
                    core.set_path(None)
        except Budget:
            self.exhausted = True
        except StopHarness:
            pass
        self.completed = completed
        core.set_path(None)
        self.wall = time.time() - t0
        return self

    def _path_exception(self, ctx, e):
        """the code (or the engine) raised on this path"""
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        label = f"raises {type(e).__name__}"
        core.set_path(ctx.path)
        if isinstance(e, Unsupported):
            k = f"Unsupported: {e}"
            self.stats.unsupported[k] = self.stats.unsupported.get(k, 0) + 1
            self.stats.aborted_paths += 1
            self._concolic(ctx)
            return
        n0 = len(self.violations)
        self.candidate(ctx, label, True, f"{type(e).__name__}: {e} at {where.filename}:{where.lineno}")
        if len(self.violations) == n0:
            self.stats.aborted_paths += 1
            if len(self.errors) < 5:
                self.errors.append(f"{type(e).__name__}: {e} at {where.filename}:{where.lineno} [" + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-6:][::-1]) + "]")

    path_limit = 120

    def _hang(self, ctx):
        """one path used more than path_limit CPU seconds: does the real code terminate there?"""
        self.stats.aborted_paths += 1
        self.exhausted = True
        core.set_path(ctx.path)
        if self._concolic(ctx, "hang") is False and len(self.errors) < 5:
            self.errors.append(f"path exceeded {self.path_limit} CPU s")

    def _concolic(self, ctx, why="unmodelled"):
        """an unmodelled operation stopped the path: try its model on the real code"""
        try:
            r = ctx.path._check()
        except Budget:
            return False
        if r == z3.sat:
            vals = model_values(ctx, ctx.path.last_model)
            st, lab, m, _ = run_real(self.func, self.params, vals)
            if st in ("fail", "raise"):
                self.violations.append({"property": self.prop, "harness": self.name, "label": lab, "sym_label": why, "message": m, "values": vals, "params": self.params, "poison": False})
                if not self.keep_going:
                    raise StopHarness()
                return True
        return False

    # -- encoding validation: same concrete inputs through the real code and the encoding
    def validate(self, seed):
        from .loader import Loader

        rng = random.Random(f"{seed}-{self.name}-{sorted(map(str, self.params.items()))}")
        tries = 0
        while self.validated < self.validate_n and tries < self.validate_n * 40:
            tries += 1
            if time.time() > self.ex.deadline + 30:
                break
            st, lab, m, c = run_real(self.func, self.params, None, rng=rng)
            if st == "assume":
                continue
            vals = dict(c.used)
            path = Path([], self.ex)
            core.set_path(path)
            ctx = SymCtx(self, path, Loader(self.stubs), self.params, fixed={k: (v if not isinstance(v, list) else Fraction(*v)) for k, v in vals.items()})
            old = nps.UNINIT
            nps.UNINIT = False
            st2, lab2 = "ok", ""
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.func(ctx, **self.params)
            except ConcFail as e:
                st2, lab2 = "fail", e.label
            except PathAbort:
                st2 = "assume"
            except Budget:
                break
            except (Exception, SystemExit) as e:
                st2, lab2 = "raise", f"raises {type(e).__name__}"
                exc = e
            finally:
                core.set_path(None)
                nps.UNINIT = old
            self.validated += 1
            if st in ("fail", "raise") and lab != "hang":
                # the encoding lacks what breaks the real code (a type, a view), or could not get there: the input is the counterexample
                self._concrete_violation(lab, m, vals, "unmodelled" if st2 == "ok" else "encoding agrees" if st2 == st else "encoding differs")
                return
            if st2 == "raise" and isinstance(exc, Unsupported):
                continue
            if st != st2 and not (st2 == "assume"):
                self.mismatch.append(f"status real={st}/{lab}/{m} encoding={st2}/{lab2}")
                continue
            for (la, xa), (lb, xb) in zip(c.obs, ctx.obs):
                try:
                    ok = la == lb and close(xa, xb)
                except Exception as e:  # noqa
                    ok = False
                if not ok:
                    self.mismatch.append(f"{la}: real {_short(rnp.asarray(xa))} encoding {str(xb)[:300]}")
                    break

    def _concrete_violation(self, lab, m, vals, why):
        self.violations.append({"property": self.prop, "harness": self.name, "label": lab, "sym_label": why, "message": m, "values": vals, "params": self.params, "poison": False})

    def undecided(self):
        return bool(self.exhausted or self.spurious or self.errors or self.stats.unsupported or self.unknown_labels or self.mismatch or not self.reach)

    def more_runs(self, seed, n=80, limit=25, why="undecided by the solver"):
        """more inputs for the real code, mostly where the solver did not decide a case (never so on the unchanged tree)"""
        rng = random.Random(f"more-{seed}-{self.name}-{sorted(map(str, self.params.items()))}")
        end = time.time() + limit
        for _ in range(n):
            if time.time() > end:
                break
            st, lab, m, c = run_real(self.func, self.params, None, rng=rng)
            if st in ("fail", "raise") and lab != "hang":
                self._concrete_violation(lab, m, dict(c.used), why)
                return
            self.more += st == "ok"

    more = 0

    def result(self):
        st = self.stats
        return {
            "harness": self.name,
            "params": {k: str(v) for k, v in self.params.items()},
            "paths": st.paths,
            "completed_paths": getattr(self, "completed", 0),
            "infeasible_paths": st.infeasible,
            "paths_reaching_checks": self.reach,
            "checks": st.checks,
            "queries": st.queries,
            "solver_s": round(st.solver_s, 3),
            "unknown": st.unknown,
            "unknown_checks": self.unknown_labels,
            "tolerance_checks": self.tol_used,
            "concretised": st.concretised,
            "concretised_ops": st.concretised_ops,
            "unsupported": st.unsupported,
            "aborted_paths": st.aborted_paths,
            "budget_exhausted": self.exhausted,
            "pending_paths": len(self.ex.work) if self.exhausted else 0,
            "functions": sorted(self.functions),
            "violations": self.violations,
            "spurious": self.spurious[:5],
            "n_spurious": len(self.spurious),
            "errors": self.errors,
            "validated": self.validated,
            "mismatch": self.mismatch,
            "wall_s": round(getattr(self, "wall", 0), 2),
        }


def close(xr, xs):
    a = rnp.asarray(xr)
    b = as_A(xs)
    if a.dtype == bool and b.dtype.kind == "b":
        bb = rnp.array([core.decide(v) for v in b._a.ravel()]).reshape(b.shape)
        return rnp.array_equal(a, bb)
    vals = [fconc(v) for v in b._a.ravel()]
    if any(core.is_z(v) or (isinstance(v, complex) and False) for v in vals):
        return True  # depends on an uninterpreted atom
    bb = rnp.array(vals).reshape(b.shape) if vals else rnp.zeros(b.shape)
    if a.shape != bb.shape:
        return False
    return rnp.allclose(a, bb, rtol=1e-5, atol=1e-6, equal_nan=True)
