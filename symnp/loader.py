"""Loads the real PyFHD source from /repo with NumPy & friends replaced by the symbolic shims."""
from __future__ import annotations

import builtins
import importlib
import math
import os
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import core, nps
from .arr import A, S, as_A, conv_index, dk, mk, payload, wrap
from .core import conv, kind_of
from .nps import np

REPO = os.environ.get("PYFHD_REPO", "/repo")
_code = {}
ENCODED = set()  # (module, function) entered symbolically


# ------------------------------------------------------------------ stubs
class _Math:
    def __getattr__(self, n):
        return getattr(math, n)

    pi = math.pi
    e = math.e

    @staticmethod
    def _w(sym, real):
        def f(x, *a):
            if isinstance(x, (S, A)):
                r = sym(x if isinstance(x, S) else x.reshape(-1)[0])
                return r
            return real(x, *a)

        return staticmethod(f)


for _n, _r in dict(sqrt=math.sqrt, exp=math.exp, log10=math.log10, sin=math.sin, cos=math.cos, tan=math.tan, atan=math.atan, radians=math.radians, degrees=math.degrees, fabs=math.fabs, isnan=math.isnan, isinf=math.isinf, isfinite=math.isfinite).items():
    setattr(_Math, _n, _Math._w(getattr(nps, {"atan": "arctan", "fabs": "absolute"}.get(_n, _n)), _r))
_Math.floor = _Math._w(lambda x: mk(core.floor_i(x.v)), math.floor)
_Math.ceil = _Math._w(lambda x: mk(core.ceil_i(x.v)), math.ceil)
_Math.trunc = _Math._w(lambda x: mk(core.trunc(x.v)), math.trunc)
_Math.log = staticmethod(lambda x, *b: nps.log(x) if isinstance(x, S) else math.log(x, *b))
_Math.atan2 = staticmethod(lambda y, x: nps.arctan2(y, x) if isinstance(y, S) or isinstance(x, S) else math.atan2(y, x))
_Math.factorial = staticmethod(lambda n: math.factorial(n.__index__() if isinstance(n, S) else n))
_Math.pow = staticmethod(lambda a, b: a**b)
_Math.hypot = staticmethod(lambda *a: nps.hypot(*a) if builtins.any(isinstance(x, S) for x in a) else math.hypot(*a))
math_shim = _Math()


def _njit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


class _NS(types.SimpleNamespace):
    pass


class _Fallback:
    """module stand-in: known functions symbolic, the rest concretised"""

    def __init__(self, real, **k):
        self.__dict__["_realmod"] = real
        self.__dict__.update(k)

    def __getattr__(self, n):
        r = getattr(importlib.import_module(self._realmod), n)
        if callable(r) and not isinstance(r, type):
            return nps._fb(r, self._realmod + "." + n)
        return r


numba_shim = _NS(njit=_njit, jit=_njit, prange=range, vectorize=nps.vectorize)


def label(a, structure=None, output=None):
    from scipy import ndimage

    a = as_A(a)
    m = conv_index(a != 0)
    lab, n = ndimage.label(m, structure=structure)
    return nps.array(lab.astype("int32")), int(n)


def _filter_idx(n, size, mode):
    """neighbour indices for each output position (origin 0)"""
    out = []
    for i in range(n):
        row = []
        for d in range(-(size // 2), size - size // 2):
            j = i + d
            if mode == "reflect":
                while j < 0 or j >= n:
                    j = -j - 1 if j < 0 else 2 * n - 1 - j
            elif mode == "nearest":
                j = min(max(j, 0), n - 1)
            elif mode == "wrap":
                j %= n
            else:
                raise core.Unsupported("filter mode")
            row.append(j)
        out.append(row)
    return out


def median_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
    a = as_A(input)
    if footprint is not None:
        raise core.Unsupported("median_filter footprint")
    sizes = [int(size)] * a.ndim if not isinstance(size, (tuple, list)) else [int(s) for s in size]
    idx = [_filter_idx(n, s, mode) for n, s in zip(a.shape, sizes)]
    o = rnp.empty(a.shape, dtype=object)
    for p in rnp.ndindex(*a.shape):
        vals = list(a._a[rnp.ix_(*[idx[d][p[d]] for d in range(a.ndim)])].ravel())
        o[p] = nps.sort_net(vals)[len(vals) // 2]
    return A(o, a.dtype)


def uniform_filter(input, size=3, output=None, mode="reflect", cval=0.0, origin=0, **k):
    a = as_A(input)
    if dk(a.dtype) in "bi":
        raise core.Unsupported("uniform_filter int")
    sizes = [int(size)] * a.ndim if not isinstance(size, (tuple, list)) else [int(s) for s in size]
    for d in range(a.ndim):
        idx = _filter_idx(a.shape[d], sizes[d], mode)
        parts = [nps.mean(A(rnp.take(a._a, ix, axis=d), a.dtype), axis=d) for ix in idx]
        a = nps.stack(parts, axis=d)
    return a


def convolve(a, b, mode="full", method="auto"):
    a, b = as_A(a), as_A(b)
    if a.ndim != b.ndim:
        raise ValueError("volume and kernel should have the same dimensionality")
    full_shape = tuple(x + y - 1 for x, y in zip(a.shape, b.shape))
    r = nps.zeros(full_shape, nps.result_dtype(a, b))
    for j in rnp.ndindex(*b.shape):
        sl = tuple(slice(j[d], j[d] + a.shape[d]) for d in range(a.ndim))
        r[sl] = r[sl] + a * b[j]
    if mode == "full":
        return r
    if mode == "same":
        sl = tuple(slice((f - s) // 2, (f - s) // 2 + s) for f, s in zip(full_shape, a.shape))
        return r[sl].copy()
    if mode == "valid" and all(y <= x for x, y in zip(a.shape, b.shape)):
        sl = tuple(slice(y - 1, x) for x, y in zip(a.shape, b.shape))
        return r[sl].copy()
    raise core.Unsupported("convolve valid")


def Box2DKernel(width, **k):
    w = payload(width)
    if k or core.is_z(w) or w != int(w) or int(w) % 2 == 0:
        raise core.Unsupported("Box2DKernel: even or symbolic width")
    w = int(w)
    return nps.ones((w, w)) / (w * w)


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        if kind != "linear":
            raise core.Unsupported("interp1d kind")
        self.x, self.y = as_A(x), as_A(y)

    def __call__(self, v):
        v = as_A(v)
        if bool(((v < self.x[0]) | (v > self.x[-1])).any()):
            raise ValueError("A value in x_new is out of the interpolation range.")
        return nps.interp(v, self.x, self.y)


ndimage_shim = _Fallback("scipy.ndimage", label=label, median_filter=median_filter, uniform_filter=uniform_filter)
signal_shim = _Fallback("scipy.signal", convolve=convolve)
interp_shim = _Fallback("scipy.interpolate", interp1d=interp1d)

STUBS = {
    "numpy": np,
    "numba": numba_shim,
    "math": math_shim,
    "scipy.ndimage": ndimage_shim,
    "scipy.signal": signal_shim,
    "scipy.interpolate": interp_shim,
    "astropy.convolution": _Fallback("astropy.convolution", Box2DKernel=Box2DKernel),
    "numpy.fft": nps.fft,
    "numpy.linalg": nps.linalg,
    "numpy.polynomial": nps.polynomial,
}


def _minmax(op, real):
    def f(*args, **k):
        xs = args
        if len(args) == 1 and not k:
            xs = list(args[0]) if not isinstance(args[0], (dict, str)) else args[0]
            if not isinstance(xs, list):
                return real(xs)
        if not k and builtins.any(isinstance(x, S) for x in xs) and builtins.all(isinstance(x, (S, int, float, rnp.generic)) for x in xs):
            acc = xs[0]
            for x in xs[1:]:
                # python's builtin keeps the first on ties / nan comparisons
                pa, px = payload(acc), payload(x)
                acc = mk(core.ite(core.compare(op, px, pa), px, pa))
            return acc
        return real(*args, **k)

    return f


def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, S):
            if x.weak:
                return {"i": nps._IntM, "f": nps._FloatM, "c": nps._ComplexM, "b": bool}[kind_of(x.v)]
            return nps.TYPES.get(x.dtype.name if x.dtype.name != "bool" else "bool_", nps.TYPES["float64"])
        if isinstance(x, A):
            return nps.ndarray
        t = type(x)
        if t is rnp.ndarray:  # text or objects
            return nps.ndarray
        return {int: nps._IntM, float: nps._FloatM, complex: nps._ComplexM}.get(t, t)
    return type(*a)


def _sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _abs(x):
    return builtins.abs(x)


class Loader:
    def __init__(self, stubs=None):
        self.mods = {}
        self.stubs = dict(STUBS)
        self.stubs.update(stubs or {})
        b = dict(vars(builtins))
        b.update(int=nps._IntM, float=nps._FloatM, complex=nps._ComplexM, type=_type, min=_minmax("lt", builtins.min), max=_minmax("gt", builtins.max), sum=_sum, print=lambda *a, **k: None, __import__=self._import)
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise core.Unsupported("relative import")
        if name in self.stubs:
            if fromlist or "." not in name:
                return self.stubs[name]
            root = name.split(".")[0]
            if root in self.stubs:
                return self.stubs[root]
            return _NS(**{name.split(".")[1]: self.stubs[name]})
        if name == "PyFHD" or name.startswith("PyFHD."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except FileNotFoundError:
                            pass
                return m
            return self.mods["PyFHD"]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split(".")
        if len(parts) > 1:
            parent = self.load(".".join(parts[:-1]))
        path = os.path.join(REPO, *parts)
        if os.path.isdir(path):
            init = os.path.join(path, "__init__.py")
            m = types.ModuleType(name)
            m.__path__ = [path]
            m.__file__ = init
            self.mods[name] = m
            src = init if os.path.exists(init) else None
        else:
            src = path + ".py"
            if not os.path.exists(src):
                raise FileNotFoundError(src)
            m = types.ModuleType(name)
            m.__file__ = src
            self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        if len(parts) > 1:
            setattr(parent, parts[-1], m)
        if src:
            if src not in _code:
                with open(src) as f:
                    _code[src] = compile(f.read(), src, "exec", dont_inherit=True)
            exec(_code[src], m.__dict__)
        return m


def trace_functions(active):
    """record which PyFHD functions are executed symbolically"""
    pref = os.path.join(REPO, "PyFHD") + os.sep

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(pref):
                active.add(f[len(REPO) + 1 :] + ":" + frame.f_code.co_name)

    return prof
