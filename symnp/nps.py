"""NumPy functions over A / S.  Names shadowing builtins are exported through EXPORT."""
from __future__ import annotations

import builtins
import functools
import math
from fractions import Fraction

import numpy as rnp
import z3

from . import core
from .arr import (A, BOOL, C128, F64, I64, OBJ, S, Flat, as_A, box, conv_index, dk, fconc, is_conc, mk, obj_from_nested, out_dtype, payload, pick_payload, result_dtype, to_concrete, uf1, uf2, wrap)
from .core import Cx, Unsupported, conv, kind_of

_SLICE = slice
_range = range


# --------------------------------------------------------------------- types
class _TM(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        if c is cls:
            return True
        r = getattr(c, "_real", c)
        try:
            return issubclass(r, cls._real)
        except TypeError:
            return False

    def __call__(cls, *a, **k):
        return cls._new(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real or getattr(o, "_real", None) is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return f"<shim {cls._real.__name__}>"


def _mk_np_type(name):
    real = getattr(rnp, name)
    try:
        dt = rnp.dtype(real)
    except TypeError:
        dt = None
    abstract = name in ("number", "generic", "integer", "signedinteger", "unsignedinteger", "inexact", "floating", "complexfloating")

    def check(x):
        if isinstance(x, S):
            if x.weak:
                return False
            return issubclass(x.dtype.type, real)
        return isinstance(x, real)

    def new(x=0, *a, **k):
        if abstract:
            raise TypeError(f"cannot create {name} instances")
        if dt.kind in "biufc":
            if isinstance(x, (A, rnp.ndarray, list, tuple)):
                return as_A(x).astype(dt)
            if isinstance(x, str):
                return mk(payload(real(x)), dt)
            return mk(conv(payload(x), dk(dt)), dt)
        return real(x, *a, **k)

    d = {"_real": real, "_check": staticmethod(check), "_new": staticmethod(new)}
    if dt is not None and not abstract:
        d["dtype"] = dt
    return _TM(name, (), d)


TYPES = {n: _mk_np_type(n) for n in "float64 float32 float16 int64 int32 int16 int8 uint8 uint16 uint32 uint64 complex128 complex64 bool_ number generic integer signedinteger unsignedinteger inexact floating complexfloating double cdouble single intp longlong csingle byte bool longdouble".split() if hasattr(rnp, n)}


class _NDM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (A, rnp.ndarray))


class ndarray(metaclass=_NDM):
    _real = rnp.ndarray


def _py_type(real, kinds, newf):
    def check(x):
        if isinstance(x, S):
            if kind_of(x.v) == "f" and real is float:
                return True
            if kind_of(x.v) == "c" and real is complex:
                return True
            if x.weak and kind_of(x.v) in kinds:
                return True
            return False
        return isinstance(x, real)

    return _TM(real.__name__, (), {"_real": real, "_check": staticmethod(check), "_new": staticmethod(newf), "dtype": rnp.dtype(real), "__args__": ()})


def _int_new(x=0, *a, **k):
    if isinstance(x, A):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    if isinstance(x, S):
        if kind_of(x.v) == "c":
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        if core.isnan(x.v):
            raise ValueError("cannot convert float NaN to integer")
        if core.isinf(x.v):
            raise OverflowError("cannot convert float infinity to integer")
        v = core.trunc(x.v)
        return S(v, I64, weak=True) if core.is_z(v) else int(v)
    return int(x, *a, **k)


def _float_new(x=0.0):
    if isinstance(x, A):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    if isinstance(x, S):
        if kind_of(x.v) == "c":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return S(conv(x.v, "f"), F64)
    return float(x)


def _complex_new(*a):
    if builtins.any(isinstance(x, (S, A)) for x in a):
        re = payload(a[0])
        r = conv(re, "c")
        if len(a) > 1:
            r = core.add(r, core.mul(conv(payload(a[1]), "c"), Cx(core.ZERO, core.ONE)))
        return S(r, C128)
    return complex(*a)


def _bool_new(x=False):
    if isinstance(x, S):
        return core.decide(core.truth(x.v))
    return bool(x)


_IntM = _py_type(int, "i", _int_new)
_FloatM = _py_type(float, "f", _float_new)
_ComplexM = _py_type(complex, "c", _complex_new)


def to_dt(dt):
    if dt is None:
        return F64
    if isinstance(dt, rnp.dtype):
        return dt
    r = getattr(dt, "_real", dt)
    if r is S:
        return F64
    return rnp.dtype(r)


def ishape(shape):
    if isinstance(shape, (A, rnp.ndarray)):
        return tuple(int(x) for x in shape)
    if isinstance(shape, (tuple, list)):
        return tuple(x.__index__() if isinstance(x, (S, A)) else (x if isinstance(x, int) else _shape_int(x)) for x in shape)
    if isinstance(shape, S):
        return (shape.__index__(),)
    return (_shape_int(shape),)


def _shape_int(x):
    import operator

    return operator.index(x)


def _zero(k):
    return {"b": False, "i": 0, "f": core.ZERO, "c": Cx(core.ZERO, core.ZERO)}.get(k, 0)


def _one(k):
    return {"b": True, "i": 1, "f": core.ONE, "c": Cx(core.ONE, core.ZERO)}.get(k, 1)


def _filled(shape, p, dt):
    o = rnp.empty(ishape(shape), dtype=object)
    o[...] = box(p)
    return A(o, dt)


def is_str_data(x):
    if isinstance(x, str):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype.kind in "USMmV"
    if isinstance(x, (list, tuple)) and len(x):
        return builtins.any(is_str_data(e) for e in x)
    return False


# ------------------------------------------------------------------ creation
def array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    if is_str_data(x) or (dtype is not None and to_dt(dtype).kind in "USMmV"):
        if isinstance(x, A):
            x = to_concrete(x, "array str")
        return rnp.array(x, dtype=None if dtype is None else to_dt(dtype))
    if isinstance(x, (list, tuple)) and builtins.any(isinstance(e, dict) or e is None for e in x):
        r = rnp.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            r[i] = e
        return r
    if isinstance(x, Flat):
        x = x.copy()
    if isinstance(x, dict):
        return rnp.array(x)
    if dtype is not None and to_dt(dtype).kind == "O" and isinstance(x, (list, tuple)):
        parts = [as_A(e).shape if not isinstance(e, (str, dict)) and e is not None else None for e in x]
        if len(set(parts)) > 1:
            r = rnp.empty(len(x), dtype=object)
            for i, e in enumerate(x):
                r[i] = e
            return r
    o, d = obj_from_nested(x)
    d2 = to_dt(dtype) if dtype is not None else d
    kk = dk(d2)
    r = A.make(o.copy(), d2)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, A) and (dtype is None or to_dt(dtype) == x.dtype):
        return x
    if isinstance(x, rnp.ndarray) and x.dtype.kind in "USMmVO":
        return x
    return array(x, dtype)


asanyarray = ascontiguousarray = asfortranarray = asarray


def copy(x, **k):
    return as_A(x).copy()


def zeros(shape, dtype=None, **k):
    dt = to_dt(dtype)
    if dt.kind in "USO":
        return rnp.zeros(ishape(shape), dt)
    return _filled(shape, _zero(dk(dt)), dt)


def ones(shape, dtype=None, **k):
    dt = to_dt(dtype)
    return _filled(shape, _one(dk(dt)), dt)


def full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (A, list, tuple)):
        r = empty(shape, dtype or as_A(fill_value).dtype)
        r[...] = fill_value
        return r
    p = payload(fill_value)
    if dtype is None:
        dt = result_dtype(fill_value)
    else:
        dt = to_dt(dtype)
    if dk(dt) == "O":
        return rnp.full(ishape(shape), fill_value, dt)
    return _filled(shape, conv(p, dk(dt)), dt)


UNINIT = True


def empty(shape, dtype=None, **k):
    dt = to_dt(dtype)
    kk = dk(dt)
    if kk == "O":
        return rnp.empty(ishape(shape), dt)
    o = rnp.empty(ishape(shape), dtype=object)
    f = o.reshape(-1)
    try:
        p = core.cur() if UNINIT else None
    except Unsupported:
        p = None
    for i in _range(f.shape[0]):
        if p is None:
            f[i] = _zero(kk)
        elif kk == "f":
            f[i] = p.fresh_real("uninit")
        elif kk == "i":
            f[i] = p.fresh_int("uninit")
        elif kk == "b":
            f[i] = p.fresh_bool("uninit")
        else:
            f[i] = Cx(p.fresh_real("uninit"), p.fresh_real("uninit"))
    return A(o, dt)


def _like(fn):
    def f(a, dtype=None, shape=None, **k):
        a = as_A(a) if not isinstance(a, rnp.ndarray) else a
        return fn(a.shape if shape is None else shape, dtype=dtype if dtype is not None else a.dtype)

    return f


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


def full_like(a, fill_value, dtype=None, **k):
    a = as_A(a)
    return full(a.shape, fill_value, dtype if dtype is not None else a.dtype)


def arange(*args, dtype=None, **k):
    start, step = 0, 1
    args = list(args)
    for name in ("start", "stop", "step"):
        pass
    if "stop" in k:
        args = [k.get("start", 0), k["stop"]] + ([k["step"]] if "step" in k else [])
    if "step" in k and len(args) == 2:
        args.append(k["step"])
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args[:3]
    dt0 = result_dtype(start, stop, step)
    if dk(dt0) == "b":
        dt0 = I64
    s, e, d = payload(start), payload(stop), payload(step)
    # length = ceil((stop-start)/step)
    n = core.ceil_i(core.div(core.sub(e, s), conv(d, "f")))
    n = pick_payload(n) if core.is_z(n) else int(n)
    n = builtins.max(n, 0)
    if n > 200000:
        raise Unsupported("huge arange")
    o = rnp.empty(n, dtype=object)
    kk = dk(dt0)
    s, d = conv(s, kk), conv(d, kk)
    for i in _range(n):
        o[i] = core.add(s, core.mul(d, i))
    r = A.make(o, dt0)
    return r.astype(dtype) if dtype is not None else r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    s, e = conv(payload(start), "f"), conv(payload(stop), "f")
    div = (n - 1) if endpoint else n
    o = rnp.empty(n, dtype=object)
    d = core.r_div(core.r_sub(e, s), Fraction(div)) if div > 0 else core.NAN
    for i in _range(n):
        o[i] = s if i == 0 else core.r_add(s, core.r_mul(d, Fraction(i)))
    r = A(o, F64)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, mk(d)) if retstep else r


def identity(n, dtype=None):
    r = zeros((n, n), dtype)
    for i in _range(r.shape[0]):
        r[i, i] = 1
    return r


def eye(N, M=None, k=0, dtype=None):
    r = zeros((N, M or N), dtype)
    for i in _range(r.shape[0]):
        if 0 <= i + k < r.shape[1]:
            r[i, i + k] = 1
    return r


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    arrs = [as_A(x).reshape(-1) for x in xs]
    outs = rnp.meshgrid(*[rnp.arange(a.size) for a in arrs], indexing=indexing)
    return [A(a._a[i], a.dtype) for a, i in zip(arrs, outs)]


def diag(x, k=0):
    x = as_A(x)
    if x.ndim == 1:
        r = zeros((x.size + abs(k),) * 2, x.dtype)
        for i in _range(x.size):
            r[i + builtins.max(0, -k), i + builtins.max(0, k)] = x[i]
        return r
    return A(rnp.diagonal(x._a, k).copy(), x.dtype)


def indices(dims, dtype=None):
    return array(rnp.indices(ishape(dims)))


# ---------------------------------------------------------------- structural
def _structural(name):
    real = getattr(rnp, name)

    def f(a, *args, **k):
        if is_str_data(a) or (isinstance(a, rnp.ndarray) and a.dtype.kind == "O"):
            return real(a, *[_uns(x) for x in args], **{x: _uns(y) for x, y in k.items()})
        a = as_A(a)
        r = real(a._a, *[_uns(x) for x in args], **{x: _uns(y) for x, y in k.items()})
        if isinstance(r, list):
            return [A(x, a.dtype) for x in r]
        return A(r, a.dtype) if isinstance(r, rnp.ndarray) else mk(r, a.dtype)

    f.__name__ = name
    return f


def _uns(x):
    """shape/axis style arguments -> real ints"""
    if isinstance(x, S):
        return x.__index__() if kind_of(x.v) in "bi" else float(x)
    if isinstance(x, A):
        return conv_index(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_uns(e) for e in x)
    return x


for _n in "tile repeat roll flip fliplr flipud rot90 squeeze expand_dims ravel swapaxes moveaxis rollaxis broadcast_to array_split split hsplit vsplit take delete diagonal triu tril atleast_1d atleast_2d atleast_3d".split():
    globals()[_n] = _structural(_n)


def transpose(a, axes=None):
    return as_A(a).transpose(axes)


permute_dims = transpose


def reshape(a, shape=None, order="C", newshape=None, **k):
    if isinstance(a, rnp.ndarray) and a.dtype.kind in "USO":
        return rnp.reshape(a, ishape(shape if shape is not None else newshape))
    a = as_A(a)
    return A(a._a.reshape(ishape(shape if shape is not None else newshape), order=order), a.dtype)


def broadcast_arrays(*xs):
    arrs = [as_A(x) for x in xs]
    sh = rnp.broadcast_shapes(*[a.shape for a in arrs])
    return [A(rnp.broadcast_to(a._a, sh), a.dtype) for a in arrs]


def _joinwrap(name):
    real = getattr(rnp, name)

    def f(seq, *args, **k):
        seq = list(seq)
        if builtins.any(is_str_data(x) for x in seq):
            return real([to_concrete(x, name) if isinstance(x, A) else x for x in seq], *args, **k)
        arrs = [as_A(x) for x in seq]
        # empty python lists are float64 in numpy: keep that rule
        dt = result_dtype(*arrs)
        kk = dk(dt)
        dtype = k.pop("dtype", None)
        r = real([A.make(a._a, dt)._a if dk(a.dtype) != kk else a._a for a in arrs], *[_uns(a) for a in args], **{x: _uns(y) for x, y in k.items()})
        r = A(r, dt)
        return r.astype(dtype) if dtype is not None else r

    return f


for _n in "concatenate hstack vstack stack dstack column_stack".split():
    globals()[_n] = _joinwrap(_n)
row_stack = vstack


def append(arr, values, axis=None):
    if is_str_data(arr) or is_str_data(values):
        return rnp.append(arr, values, axis)
    arr, values = as_A(arr), as_A(values)
    if axis is None:
        arr, values = arr.ravel(), values.ravel()
        axis = 0
    return concatenate((arr, values), axis=axis)


def insert(arr, obj, values, axis=None):
    arr = as_A(arr)
    v = as_A(values)
    k = dk(arr.dtype)
    from .arr import conv_arr

    r = rnp.insert(arr._a, _uns(obj), conv_arr(v._a, k) if v.ndim else conv(v._a[()], k), axis)
    return A(r, arr.dtype)


def pad(a, pad_width, mode="constant", **k):
    a = as_A(a)
    kk = dk(a.dtype)
    if mode == "constant":
        cv = k.get("constant_values", 0)
        idx = rnp.pad(rnp.arange(a.size).reshape(a.shape), _uns(pad_width), mode="constant", constant_values=-1)
        o = rnp.empty(idx.shape, dtype=object)
        fl = a._a.reshape(-1)
        z = conv(payload(cv), kk)
        of, xf = o.reshape(-1), idx.reshape(-1)
        for i in _range(of.shape[0]):
            of[i] = fl[xf[i]] if xf[i] >= 0 else z
        return A(o, a.dtype)
    idx = rnp.pad(rnp.arange(a.size).reshape(a.shape), _uns(pad_width), mode=mode)
    return A(a._a.reshape(-1)[idx], a.dtype)


def resize(a, new_shape):
    a = as_A(a)
    idx = rnp.resize(rnp.arange(a.size), ishape(new_shape))
    return A(a._a.reshape(-1)[idx], a.dtype)


def outer(a, b, out=None):
    return as_A(a).reshape(-1)[:, None] * as_A(b).reshape(-1)[None, :]


def multiply_outer(a, b):
    a, b = as_A(a), as_A(b)
    return a.reshape(a.shape + (1,) * b.ndim) * b


def dot(a, b, out=None):
    a, b = as_A(a), as_A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return amsum(a * b)
    if b.ndim == 1:
        return amsum(a * b, axis=-1)
    if a.ndim == 2 and b.ndim == 2:
        return matmul(a, b)
    if a.ndim == 1 and b.ndim == 2:
        return matmul(a, b)
    r = tensordot(a, b, (a.ndim - 1, b.ndim - 2))
    return r


def vdot(a, b):
    return amsum(conjugate(as_A(a)).reshape(-1) * as_A(b).reshape(-1))


def inner(a, b):
    a, b = as_A(a), as_A(b)
    if a.ndim == 1 and b.ndim == 1:
        return amsum(a * b)
    return tensordot(a, b, (a.ndim - 1, b.ndim - 1))


def matmul(a, b, out=None):
    a, b = as_A(a), as_A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bt = b.swapaxes(-1, -2)
    r = amsum(A(a._a[..., :, None, :], a.dtype) * A(bt._a[..., None, :, :], b.dtype), axis=-1)
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return r


def tensordot(a, b, axes=2):
    a, b = as_A(a), as_A(b)
    ia = rnp.arange(a.size).reshape(a.shape)
    if isinstance(axes, int):
        ax_a, ax_b = list(_range(a.ndim - axes, a.ndim)), list(_range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ra = [i for i in _range(a.ndim) if i not in [x % a.ndim for x in ax_a]]
    rb = [i for i in _range(b.ndim) if i not in [x % b.ndim for x in ax_b]]
    am = a.transpose(ra + [x % a.ndim for x in ax_a]).reshape((int(rnp.prod([a.shape[i] for i in ra], initial=1)), -1))
    bm = b.transpose([x % b.ndim for x in ax_b] + rb).reshape((-1, int(rnp.prod([b.shape[i] for i in rb], initial=1))))
    return matmul(am, bm).reshape(tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb))


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum list")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        letters = sorted(set("".join(ins)))
        out = "".join(c for c in letters if "".join(ins).count(c) == 1)
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ops = [as_A(o) for o in ops]
    sizes = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape):
            sizes[c] = n
    summed = [c for c in sizes if c not in out]
    dt = result_dtype(*ops)
    kk = dk(dt)
    r = rnp.empty(tuple(sizes[c] for c in out), dtype=object)
    for oi in rnp.ndindex(*r.shape):
        env = dict(zip(out, oi))
        acc = _zero(kk)
        for si in rnp.ndindex(*[sizes[c] for c in summed]):
            env.update(zip(summed, si))
            t = _one(kk)
            for tt, o in zip(ins, ops):
                t = core.mul(t, o._a[tuple(env[c] for c in tt)])
            acc = core.add(acc, t)
        r[oi] = acc
    return wrap(r, dt) if r.ndim else mk(r[()], dt)


def cross(a, b):
    a, b = as_A(a), as_A(b)
    return stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


# --------------------------------------------------------------- elementwise
def _unary(f, mode=None, complex_ok=True):
    def g(x, out=None, where=True, dtype=None, **k):
        if isinstance(x, S):
            r = mk(f(x.v), out_dtype(x.dtype, mode))
        elif not isinstance(x, (A, rnp.ndarray, list, tuple)) and not hasattr(x, "__symarray__"):
            p = payload(x)
            r = mk(f(p), out_dtype(result_dtype(x), mode))
        else:
            a = as_A(x)
            r = wrap(uf1(f)(a._a), out_dtype(a.dtype, mode))
        if where is not True:
            base = out if out is not None else empty(as_A(x).shape, r.dtype)
            base[...] = _where3(where, r, base)
            return base
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r

    g._payload = f
    return g


_PLAIN = (int, float, rnp.float64, rnp.int64)


class _BinaryUF:
    def __init__(self, f, mode, name, ident=None):
        self.f, self.mode, self.__name__, self.ident = f, mode, name, ident

    def __call__(self, a, b, out=None, where=True, dtype=None, **k):
        f, mode = self.f, self.mode
        if type(a) in _PLAIN and type(b) in _PLAIN and self.__name__ in ("add", "subtract", "multiply", "divide") and out is None and where is True and dtype is None:
            return getattr(rnp, self.__name__)(a, b)  # what Python's operators do with them too
        a_ = as_A(a) if isinstance(a, (A, rnp.ndarray, list, tuple)) else S(payload(a), result_dtype(a), weak=not isinstance(a, (S, rnp.generic)) or getattr(a, "weak", False))
        if where is not True:
            # evaluate lazily only where the mask holds (division guards)
            return self._masked(a, b, out, where)
        r = a_._bin(b, f, mode)
        if r is NotImplemented:
            raise TypeError(f"ufunc '{self.__name__}' not supported for the input types")
        if dtype is not None:
            r = r.astype(dtype)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r

    def _masked(self, a, b, out, where):
        aa, bb, ww = broadcast_arrays(a, b, where)
        dt = out_dtype(result_dtype(aa, bb), self.mode)
        if out is None:
            out = empty(aa.shape, dt)
        af, bf, wf = aa._a.reshape(-1), bb._a.reshape(-1), ww._a.reshape(-1)
        res = out._a.copy()
        rf = res.reshape(-1)
        for i in _range(af.shape[0]):
            if core.decide(wf[i]):
                rf[i] = conv(self.f(af[i], bf[i]), dk(out.dtype))
        out._a[...] = res
        return out

    def reduce(self, a, axis=0, initial=None, **k):
        return _reduce(a, axis, lambda xs: functools.reduce(self.f, xs, *([] if self.ident is None else [self.ident])), None, k.get("keepdims", False))

    def outer(self, a, b):
        a, b = as_A(a), as_A(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, idx, b=None):
        ii = rnp.arange(a.size).reshape(a.shape)[conv_index(idx, a.shape)]
        v = as_A(b)
        v = rnp.broadcast_to(v._a, ii.shape).reshape(-1)
        k = dk(a.dtype)
        for j, pos in enumerate(ii.reshape(-1)):
            u = rnp.unravel_index(int(pos), a.shape)
            a._a[u] = conv(self.f(a._a[u], v[j]), k)

    def accumulate(self, a, axis=0):
        a = as_A(a)
        o = a._a.copy()
        o = rnp.moveaxis(o, axis, 0)
        for i in _range(1, o.shape[0]):
            o[i] = uf2(self.f)(o[i - 1], o[i])
        return A(rnp.moveaxis(o, 0, axis), a.dtype)


def _cmp(op):
    return lambda a, b: core.compare(op, a, b)


def _land(a, b):
    return core.b_and(core.truth(a), core.truth(b))


def _lor(a, b):
    return core.b_or(core.truth(a), core.truth(b))


def _lxor(a, b):
    return core.ne(core.truth(a), core.truth(b))


def _fmax(a, b):
    if core.isnan(a):
        return b
    if core.isnan(b):
        return a
    return core.maximum(a, b)


def _fmin(a, b):
    if core.isnan(a):
        return b
    if core.isnan(b):
        return a
    return core.minimum(a, b)


from .arr import _and as _pand, _or as _por, _xor as _pxor, _inv as _pinv  # noqa: E402

add = _BinaryUF(core.add, None, "add", 0)
subtract = _BinaryUF(core.sub, None, "subtract")
multiply = _BinaryUF(core.mul, None, "multiply", 1)
divide = true_divide = _BinaryUF(core.div, "div", "divide")
floor_divide = _BinaryUF(core.floordiv, "nob", "floor_divide")
mod = remainder = _BinaryUF(core.mod, "nob", "remainder")


def _fmodf(a, b):
    a, b = conv(a, "f"), conv(b, "f")
    return core.r_sub(a, core.r_mul(b, core.fix(core.r_div(a, b))))


fmod = _BinaryUF(_fmodf, "nob", "fmod")
power = float_power = _BinaryUF(core.power, "nob", "power")
pow = power
maximum = _BinaryUF(core.maximum, None, "maximum")
minimum = _BinaryUF(core.minimum, None, "minimum")
fmax = _BinaryUF(_fmax, None, "fmax")
fmin = _BinaryUF(_fmin, None, "fmin")
greater = _BinaryUF(_cmp("gt"), "b", "greater")
greater_equal = _BinaryUF(_cmp("ge"), "b", "greater_equal")
less = _BinaryUF(_cmp("lt"), "b", "less")
less_equal = _BinaryUF(_cmp("le"), "b", "less_equal")
equal = _BinaryUF(core.eq, "b", "equal")
not_equal = _BinaryUF(core.ne, "b", "not_equal")
logical_and = _BinaryUF(_land, "b", "logical_and", True)
logical_or = _BinaryUF(_lor, "b", "logical_or", False)
logical_xor = _BinaryUF(_lxor, "b", "logical_xor")
bitwise_and = _BinaryUF(_pand, "bit", "bitwise_and")
bitwise_or = _BinaryUF(_por, "bit", "bitwise_or")
bitwise_xor = _BinaryUF(_pxor, "bit", "bitwise_xor")
arctan2 = _BinaryUF(core.arctan2, "div", "arctan2")
hypot = _BinaryUF(lambda a, b: core.sqrt(core.r_add(core.r_mul(conv(a, "f"), conv(a, "f")), core.r_mul(conv(b, "f"), conv(b, "f")))), "div", "hypot")

invert = bitwise_not = _unary(_pinv)
logical_not = _unary(lambda v: core.b_not(core.truth(v)), "b")
negative = _unary(core.neg)
positive = _unary(lambda v: v)
absolute = _unary(core.absval, "abs")
fabs = absolute
conjugate = conj = _unary(core.conj)
square = _unary(lambda v: core.mul(v, v))
reciprocal = _unary(lambda v: core.div(_one(kind_of(v)), v) if kind_of(v) != "i" else core.floordiv(1, v))
sign = _unary(core.sign)
floor = _unary(core.floor)
ceil = _unary(core.ceil)
trunc = _unary(core.fix)
rint = _unary(core.rint)
sqrt = _unary(core.sqrt, "div")
exp = _unary(core.exp, "div")
log = _unary(core.log, "div")
log10 = _unary(core.log10, "div")
_LN2 = Fraction(math.log(2))
log2 = _unary(lambda v: core.r_div(core.log(v), _LN2), "div")
log1p = _unary(lambda v: core.log(core.add(v, 1)), "div")
expm1 = _unary(lambda v: core.sub(core.exp(v), 1), "div")


def _sc(i):
    def f(v):
        if kind_of(v) == "c":
            raise Unsupported("complex trig")
        return core.cossin(v)[i]

    return f


sin = _unary(_sc(1), "div")
cos = _unary(_sc(0), "div")
tan = _unary(core.tan, "div")
arctan = _unary(core.arctan, "div")
arcsin = _unary(lambda v: core.monotone("arcsin", math.asin, v), "div")
arccos = _unary(lambda v: core.neg(core.monotone("arccosn", lambda x: -math.acos(x), v)), "div")
sinc = _unary(lambda v: core.generic("sinc", lambda x: float(rnp.sinc(x)), v), "div")
_RAD = Fraction(math.pi) / 180
radians = deg2rad = _unary(lambda v: core.r_mul(conv(v, "f"), _RAD), "div")
degrees = rad2deg = _unary(lambda v: core.r_div(conv(v, "f"), _RAD), "div")
isnan = _unary(core.isnan, "b")
isinf = _unary(core.isinf, "b")
isfinite = _unary(lambda v: not (core.isnan(v) or core.isinf(v)), "b")
iscomplex = _unary(lambda v: core.ne(v.im, core.ZERO) if isinstance(v, Cx) else False, "b")
isreal = _unary(lambda v: core.eq(v.im, core.ZERO) if isinstance(v, Cx) else True, "b")
signbit = _unary(lambda v: core.compare("lt", v, 0), "b")


def fix(x, out=None):
    return _unary(lambda v: core.fix(conv(v, "f") if kind_of(v) == "b" else v))(x)


def angle(z, deg=False):
    def f(v):
        v = conv(v, "c")
        a = core.arctan2(v.im, v.re)
        return core.r_div(a, _RAD) if deg else a

    return _unary(f, "abs")(as_A(z).astype(C128) if not isinstance(z, S) else z.astype(C128))


def around(x, decimals=0, out=None):
    d = int(decimals)
    return _unary(lambda v: core.rint(v, d))(x)


round_ = around


def real(x):
    return x.real if hasattr(x, "real") else as_A(x).real


def imag(x):
    if isinstance(x, (A, S, rnp.ndarray)):
        return as_A(x).imag if not isinstance(x, S) else x.imag
    return as_A(x).imag


def iscomplexobj(x):
    if isinstance(x, (A, S)):
        return x.dtype.kind == "c"
    return rnp.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def isscalar(x):
    if isinstance(x, S):
        return True
    if isinstance(x, A):
        return False
    return rnp.isscalar(x)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = Fraction(float(rnp.finfo(float).max))

    def f(v):
        if kind_of(v) == "c":
            return Cx(f(v.re), f(v.im))
        if core.isnan(v):
            return conv(payload(nan), "f")
        if core.isinf(v):
            if v > 0:
                return big if posinf is None else conv(payload(posinf), "f")
            return -big if neginf is None else conv(payload(neginf), "f")
        return v

    r = _unary(f)(x)
    if not copy and isinstance(x, A):
        x[...] = r
        return x
    return r


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def heaviside(x, h0):
    return where(as_A(x) > 0, 1.0, where(as_A(x) == 0, h0, 0.0))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = as_A(a), as_A(b)
    return absolute(a - b) <= (atol + rtol * absolute(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return alltrue(isclose(a, b, rtol, atol))


def array_equal(a, b, equal_nan=False):
    if is_str_data(a) or is_str_data(b):
        return rnp.array_equal(a, b)
    a, b = as_A(a), as_A(b)
    if a.shape != b.shape:
        return False
    return bool(alltrue(a == b))


# ---------------------------------------------------------------- reductions
def _norm_axis(axis, nd):
    if axis is None:
        return tuple(_range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    ax = int(axis)
    if not -nd <= ax < nd:
        raise rnp.exceptions.AxisError(ax, nd)
    return (ax % nd,)


def _reduce(a, axis, f, dt, keepdims=False, empty_ok=True):
    """f: list of payloads -> payload"""
    a = as_A(a)
    dt = a.dtype if dt is None else dt
    if a.ndim == 0:
        return mk(conv(f([a._a[()]]), dk(dt)), dt)
    axes = _norm_axis(axis, a.ndim)
    keep = [i for i in _range(a.ndim) if i not in axes]
    m = a._a.transpose(keep + list(axes)).reshape(tuple(a.shape[i] for i in keep) + (-1,)) if a.size or not keep else rnp.empty(tuple(a.shape[i] for i in keep) + (int(rnp.prod([a.shape[i] for i in axes])),), dtype=object)
    out = rnp.empty(m.shape[:-1], dtype=object)
    k = dk(dt)
    for idx in rnp.ndindex(*out.shape):
        v = f(list(m[idx]))
        out[idx] = conv(v, k) if k != "O" else v
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in _range(a.ndim)))
    if out.ndim == 0:
        return mk(out[()], dt)
    return A(out, dt)


def _sumdt(a):
    return I64 if dk(a.dtype) == "b" else a.dtype


def _fsum(k):
    z = _zero(k)

    def f(xs):
        acc = z
        for x in xs:
            acc = core.add(acc, conv(x, k))
        return acc

    return f


def _wmask(a, where, fill):
    if where is None or where is True:
        return as_A(a)
    return _where3(where, a, fill)


def amsum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(a, (map, filter)) or hasattr(a, "__next__"):
        a = list(a)
    a = as_A(a)
    if where is not None:
        a = _where3(where, a, full((), 0, a.dtype))
    dt = to_dt(dtype) if dtype is not None else _sumdt(a)
    r = _reduce(a, axis, _fsum(dk(dt)), dt, keepdims)
    if initial is not None:
        r = r + initial
    if out is not None:
        out[...] = r
        return out
    return r


def prod(a, axis=None, dtype=None, keepdims=False, **kw):
    a = as_A(a)
    dt = to_dt(dtype) if dtype is not None else _sumdt(a)
    k = dk(dt)

    def f(xs):
        acc = _one(k)
        for x in xs:
            acc = core.mul(acc, conv(x, k))
        return acc

    return _reduce(a, axis, f, dt, keepdims)


def _mean_p(xs, k="f"):
    if not xs:
        return core.NAN if k == "f" else Cx(core.NAN, core.NAN)
    return core.div(_fsum(k)(xs), Fraction(len(xs)) if k == "f" else Cx(Fraction(len(xs)), core.ZERO))


def _fdt(a):
    return F64 if dk(a.dtype) in "bi" else a.dtype


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    a = as_A(a)
    dt = _fdt(a) if dtype is None else to_dt(dtype)
    k = dk(dt)
    if where is not None and where is not True:
        w = as_A(where)
        return amsum(a, axis, None, None, keepdims, where=w) / amsum(rnp_bcast(w, a.shape), axis, keepdims=keepdims)
    return _reduce(a, axis, lambda xs: _mean_p(xs, k), dt, keepdims)


def rnp_bcast(w, shape):
    return A(rnp.broadcast_to(w._a, shape), w.dtype)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = as_A(a)
    if weights is None:
        return mean(a, axis)
    w = as_A(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = rnp_bcast(w.reshape(sh), a.shape)
    scl = amsum(w, axis)
    r = amsum(a * w, axis) / scl
    return (r, scl) if returned else r


def _var_p(ddof):
    def f(xs):
        if not xs:
            return core.NAN
        cplx = builtins.any(isinstance(x, Cx) for x in xs)
        k = "c" if cplx else "f"
        m = _mean_p(xs, k)
        acc = core.ZERO
        for x in xs:
            d = core.sub(conv(x, k), m)
            acc = core.r_add(acc, core.abs2(d) if cplx else core.r_mul(d, d))
        return core.r_div(acc, Fraction(len(xs) - ddof)) if len(xs) - ddof > 0 else core.NAN

    return f


def var(a, axis=None, dtype=None, ddof=0, keepdims=False, **k):
    return _reduce(a, axis, _var_p(int(ddof)), F64, keepdims)


def _sqrt_nonneg(v):
    """sqrt of a value known to be >= 0"""
    if core.is_z(v):
        c = core.canon(v)
        if not core.is_z(c):
            return core.sqrt(c)

        def build():
            p = core.cur()
            y = p.fresh_real("sqrt")
            p.add(y >= 0)
            p.add(y * y == v)
            return y

        return core.cur().atom("sqrt", (v,), build)
    return core.sqrt(v)


def std(a, axis=None, dtype=None, ddof=0, keepdims=False, **k):
    f = _var_p(int(ddof))
    return _reduce(a, axis, lambda xs: _sqrt_nonneg(f(xs)), F64, keepdims)


def _fold(f):
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        xs = [x for x in xs if not core.is_symbolic(x)] + [x for x in xs if core.is_symbolic(x)]   # numbers first, for small terms
        acc = xs[0]
        for x in xs[1:]:
            acc = f(acc, x)
        return acc

    return g


def amax(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    if initial is not None:
        a = append(as_A(a).ravel(), initial) if axis is None else a
    return _reduce(a, axis, _fold(core.maximum), None, keepdims)


def amin(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    if initial is not None:
        a = append(as_A(a).ravel(), initial) if axis is None else a
    return _reduce(a, axis, _fold(core.minimum), None, keepdims)


def ptp(a, axis=None):
    return amax(a, axis) - amin(a, axis)


def _nn(f, empty_val=core.NAN):
    def g(xs):
        ys = [x for x in xs if not core.isnan(x)]
        return f(ys) if ys else empty_val

    return g


def nanmax(a, axis=None, keepdims=False, **k):
    return _reduce(a, axis, _nn(_fold(core.maximum)), None, keepdims)


def nanmin(a, axis=None, keepdims=False, **k):
    return _reduce(a, axis, _nn(_fold(core.minimum)), None, keepdims)


def nansum(a, axis=None, dtype=None, keepdims=False, **k):
    a = as_A(a)
    dt = _sumdt(a)
    return _reduce(a, axis, _nn(_fsum(dk(dt)), _zero(dk(dt))), dt, keepdims)


def nanmean(a, axis=None, dtype=None, keepdims=False, **k):
    a = as_A(a)
    dt = _fdt(a)
    return _reduce(a, axis, _nn(lambda xs: _mean_p(xs, dk(dt)), core.NAN if dk(dt) == "f" else Cx(core.NAN, core.NAN)), dt, keepdims)


def nanvar(a, axis=None, ddof=0, keepdims=False, **k):
    return _reduce(a, axis, _nn(_var_p(int(ddof))), F64, keepdims)


def nanstd(a, axis=None, ddof=0, keepdims=False, **k):
    f = _var_p(int(ddof))
    return _reduce(a, axis, _nn(lambda xs: _sqrt_nonneg(f(xs))), F64, keepdims)


def sort_net(xs):
    """values sorted ascending without forking (odd-even transposition network)"""
    xs = list(xs)
    if builtins.any(core.isnan(x) for x in xs):
        return sort_net([x for x in xs if not core.isnan(x)]) + [x for x in xs if core.isnan(x)]
    if not builtins.any(core.is_symbolic(x) for x in xs):
        return sorted(xs, key=functools.cmp_to_key(_cmp3))
    if builtins.any(core.is_special(x) for x in xs):
        return [xs[i] for i in _argsort_list(xs)]
    n = len(xs)
    for r in _range(n):
        for i in _range(r % 2, n - 1, 2):
            a, b = xs[i], xs[i + 1]
            c = core.compare("le", a, b)
            xs[i], xs[i + 1] = core.ite(c, a, b), core.ite(c, b, a)
    return xs


def _cmp3(a, b):
    if core.decide(core.compare("lt", a, b)):
        return -1
    if core.decide(core.compare("gt", a, b)):
        return 1
    return 0


def _argsort_list(xs):
    nn = [i for i in _range(len(xs)) if not core.isnan(xs[i])]
    nans = [i for i in _range(len(xs)) if core.isnan(xs[i])]
    out = []
    for i in nn:  # insertion sort, stable, forks on comparisons
        j = len(out)
        while j > 0 and core.decide(core.compare("lt", xs[i], xs[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out + nans


def _median_p(xs):
    if not xs:
        return core.NAN
    if builtins.any(core.isnan(x) for x in xs):
        return core.NAN if not isinstance(xs[0], Cx) else Cx(core.NAN, core.NAN)
    s = sort_net(xs)
    n = len(s)
    two = Fraction(2)
    if n % 2:
        v = s[n // 2]
        return v if isinstance(v, Cx) else conv(v, "f")
    return core.div(core.add(s[n // 2 - 1], s[n // 2]), two)


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = as_A(a)
    return _reduce(a, axis, _median_p, _fdt(a), keepdims)


def nanmedian(a, axis=None, keepdims=False, **k):
    a = as_A(a)
    return _reduce(a, axis, _nn(_median_p), _fdt(a), keepdims)


def percentile(a, q, axis=None, **k):
    return quantile(a, as_A(q) / 100 if not isinstance(q, (int, float)) else Fraction(q) / 100, axis)


def quantile(a, q, axis=None, **k):
    if isinstance(q, (A, list, tuple)):
        return stack([quantile(a, e, axis) for e in q])
    qq = conv(payload(q), "f")

    def f(xs):
        s = sort_net([conv(x, "f") for x in xs])
        pos = qq * (len(s) - 1)
        i = math.floor(pos)
        fr = pos - i
        if fr == 0:
            return s[i]
        return core.r_add(s[i], core.r_mul(fr, core.r_sub(s[i + 1], s[i])))

    return _reduce(a, axis, f, F64)


def alltrue(a, axis=None, out=None, keepdims=False, where=None):
    return _reduce(a, axis, lambda xs: functools.reduce(core.b_and, [core.truth(x) for x in xs], True), BOOL, keepdims)


def sometrue(a, axis=None, out=None, keepdims=False, where=None):
    return _reduce(a, axis, lambda xs: functools.reduce(core.b_or, [core.truth(x) for x in xs], False), BOOL, keepdims)


def count_nonzero(a, axis=None, keepdims=False):
    def f(xs):
        acc = 0
        for x in xs:
            acc = core.r_add(acc, core.conv(core.truth(x), "i"))
        return acc

    return _reduce(a, axis, f, I64, keepdims)


def _arg(op, skipnan=False):
    def f(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        if not skipnan:
            for i, x in enumerate(xs):
                if core.isnan(x):
                    return i
        best = None
        for i in _range(len(xs)):
            if skipnan and core.isnan(xs[i]):
                continue
            if best is None or core.decide(core.compare(op, xs[i], xs[best])):
                best = i
        if best is None:
            raise ValueError("All-NaN slice encountered")
        return best

    return f


def argmax(a, axis=None, out=None, keepdims=False):
    return _reduce(a, axis, _arg("gt"), I64, keepdims)


def argmin(a, axis=None, out=None, keepdims=False):
    return _reduce(a, axis, _arg("lt"), I64, keepdims)


def nanargmax(a, axis=None):
    return _reduce(a, axis, _arg("gt", True), I64)


def nanargmin(a, axis=None):
    return _reduce(a, axis, _arg("lt", True), I64)


def _scan(f):
    def g(a, axis=None, dtype=None, out=None):
        a = as_A(a)
        dt = _sumdt(a) if dtype is None else to_dt(dtype)
        if dt != a.dtype:
            a = a.astype(dt)
        if axis is None:
            a = a.ravel()
            axis = 0
        o = rnp.moveaxis(a._a.copy(), axis, 0)
        for i in _range(1, o.shape[0]):
            o[i] = uf2(f)(o[i - 1], o[i]) if o.ndim > 1 else f(o[i - 1], o[i])
        return A(rnp.moveaxis(o, 0, axis), dt)

    return g


cumsum = _scan(core.add)
cumprod = _scan(core.mul)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = as_A(a)
    if prepend is not None:
        a = concatenate([as_A(prepend).reshape(-1), a])
    if append is not None:
        a = concatenate([a, as_A(append).reshape(-1)])
    for _ in _range(n):
        o = rnp.moveaxis(a._a, axis, 0)
        f = core.ne if dk(a.dtype) == "b" else core.sub
        r = uf2(f)(o[1:], o[:-1])
        a = A(rnp.moveaxis(r, 0, axis), a.dtype)
    return a


def ediff1d(a):
    return diff(as_A(a).ravel())


def gradient(a):
    raise Unsupported("gradient")


def trace(a):
    a = as_A(a)
    return amsum(A(rnp.diagonal(a._a).copy(), a.dtype))


# ------------------------------------------------------------------ searching
def nonzero(a):
    a = as_A(a)
    if a.ndim == 0:
        a = a.reshape(1)
    m = rnp.empty(a.shape, dtype=bool)
    mf, af = m.reshape(-1), a._a.reshape(-1)
    for i in _range(af.shape[0]):
        mf[i] = core.decide(core.truth(af[i]))
    return tuple(array(x) for x in rnp.nonzero(m))


def flatnonzero(a):
    return nonzero(as_A(a).ravel())[0]


def argwhere(a):
    return transpose(stack(nonzero(a)))


def _where3(c, x, y):
    c = as_A(c)
    xa = x if isinstance(x, (A, S)) else (as_A(x) if isinstance(x, (rnp.ndarray, list, tuple)) else x)
    ya = y if isinstance(y, (A, S)) else (as_A(y) if isinstance(y, (rnp.ndarray, list, tuple)) else y)
    dt = result_dtype(xa, ya)
    xo = xa._a if isinstance(xa, A) else box(payload(xa))
    yo = ya._a if isinstance(ya, A) else box(payload(ya))
    r = rnp.frompyfunc(lambda cc, p, q: core.ite(core.truth(cc), p, q), 3, 1)(c._a, xo, yo)
    return wrap(r, dt)


def where(c, *xy):
    if not xy:
        if isinstance(c, rnp.ndarray):
            return tuple(array(x) for x in rnp.where(c))
        if isinstance(c, bool):
            return tuple(array(x) for x in rnp.where(rnp.array([c])))
        return nonzero(c)
    if is_str_data(xy[0]) or is_str_data(xy[1]):
        return rnp.where(conv_index(as_A(c)), *xy)
    return _where3(c, *xy)


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = _where3(c, x, r)
    return r


def choose(a, choices):
    raise Unsupported("choose")


def extract(c, a):
    return as_A(a).ravel()[as_A(c).ravel().astype(bool)]


def compress(c, a, axis=None):
    c = as_A(c)
    i = conv_index(c.astype(bool))
    a = as_A(a)
    return A(rnp.compress(i, a._a, axis), a.dtype)


def sort(a, axis=-1, kind=None, order=None, **k):
    if is_str_data(a):
        return rnp.sort(a, axis)
    a = as_A(a)
    if a.ndim == 0:
        raise rnp.exceptions.AxisError(-1, 0)
    if axis is None:
        a = a.ravel()
        axis = -1
    o = rnp.moveaxis(a._a, axis, -1)
    r = rnp.empty(o.shape, dtype=object)
    for i in rnp.ndindex(*o.shape[:-1]):
        s = sort_net(list(o[i]))
        for j, v in enumerate(s):
            r[i + (j,)] = v
    return A(rnp.moveaxis(r, -1, axis), a.dtype)


def argsort(a, axis=-1, kind=None, order=None, **k):
    if is_str_data(a):
        return array(rnp.argsort(a, axis, kind="stable"))
    a = as_A(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    o = rnp.moveaxis(a._a, axis, -1)
    r = rnp.empty(o.shape, dtype=object)
    for i in rnp.ndindex(*o.shape[:-1]):
        for j, v in enumerate(_argsort_list(list(o[i]))):
            r[i + (j,)] = int(v)
    return A(rnp.moveaxis(r, -1, axis), I64)


def lexsort(keys):
    keys = [as_A(k) for k in keys]
    n = keys[0].size

    def c(i, j):
        for k in reversed(keys):
            r = _cmp3(k._a[i], k._a[j])
            if r:
                return r
        return 0

    return array(sorted(_range(n), key=functools.cmp_to_key(c)))


def partition(a, kth, axis=-1):
    return sort(a, axis)


def argpartition(a, kth, axis=-1):
    return argsort(a, axis)


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if is_str_data(ar) or isinstance(ar, rnp.ndarray) and ar.dtype.kind == "O":
        r = rnp.unique(ar, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
        return r
    a = as_A(ar)
    if axis is not None:
        raise Unsupported("unique axis")
    shp = a.shape
    fl = list(a._a.ravel())
    order = _argsort_list(fl)
    groups = []
    for i in order:
        if groups and not core.isnan(fl[i]) and core.decide(core.eq(fl[i], fl[groups[-1][0]])):
            groups[-1].append(i)
        elif groups and core.isnan(fl[i]) and core.isnan(fl[groups[-1][0]]):
            groups[-1].append(i)
        else:
            groups.append([i])
    o = rnp.empty(len(groups), dtype=object)
    for j, g in enumerate(groups):
        o[j] = fl[g[0]]
    u = A(o, a.dtype)
    if not (return_index or return_inverse or return_counts):
        return u
    out = [u]
    if return_index:
        out.append(array([builtins.min(g) for g in groups], dtype=I64))
    if return_inverse:
        inv = rnp.zeros(len(fl), dtype=int)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        out.append(array(inv.reshape(shp)))
    if return_counts:
        out.append(array([len(g) for g in groups], dtype=I64))
    return tuple(out)


def searchsorted(a, v, side="left", sorter=None):
    a = as_A(a)
    if sorter is not None:
        a = a[sorter]
    xs = list(a._a)

    def f(x):
        # number of elements < x (left) or <= x (right), binary-search semantics on sorted input
        op = "lt" if side == "left" else "le"
        lo, hi = 0, len(xs)
        while lo < hi:
            m = (lo + hi) // 2
            if core.decide(core.compare(op, xs[m], x)):
                lo = m + 1
            else:
                hi = m
        return lo

    if isinstance(v, (A, rnp.ndarray, list, tuple)):
        v = as_A(v)
        return wrap(uf1(f)(v._a) if v.size else v._a.copy(), I64)
    return mk(f(payload(v)), I64)


def digitize(x, bins, right=False):
    b = as_A(bins)
    return searchsorted(b, x, side="left" if right else "right")


def isin(element, test_elements, assume_unique=False, invert=False, **k):
    if is_str_data(element) or is_str_data(test_elements):
        return array(rnp.isin(element, test_elements, invert=invert))
    t = list(as_A(list(test_elements) if isinstance(test_elements, (set, range)) else test_elements)._a.ravel())

    def f(x):
        r = False
        for y in t:
            r = core.b_or(r, core.eq(x, y))
        return core.b_not(r) if invert else r

    if not isinstance(element, (A, rnp.ndarray, list, tuple)):
        return mk(f(payload(element)))
    e = as_A(element)
    return wrap(uf1(f)(e._a) if e.size else e._a.copy(), BOOL)


in1d = isin


def intersect1d(a, b, **k):
    ua, ub = unique(a), unique(b)
    return ua[isin(ua, ub)]


def setdiff1d(a, b, **k):
    ua = unique(a)
    return ua[isin(ua, b, invert=True)]


def union1d(a, b):
    return unique(concatenate([as_A(a).ravel(), as_A(b).ravel()]))


def bincount(x, weights=None, minlength=0):
    x = as_A(x)
    idx = conv_index(x)
    n = builtins.max(int(minlength), int(idx.max()) + 1 if idx.size else 0)
    if idx.size and idx.min() < 0:
        raise ValueError("'list' argument must have no negative elements")
    if weights is None:
        return array(rnp.bincount(idx, minlength=n))
    w = as_A(weights)
    r = zeros(n, F64)
    for i, j in enumerate(idx):
        r._a[j] = core.add(r._a[j], conv(w._a[i], "f"))
    return r


def histogram(a, bins=10, range=None, weights=None, density=None):
    a = as_A(a).ravel()
    if isinstance(bins, (int, S)):
        lo, hi = (amin(a), amax(a)) if range is None else range
        edges = linspace(lo, hi, int(bins) + 1)
    else:
        edges = as_A(bins)
    n = edges.size - 1
    r = zeros(n, I64 if weights is None else F64)
    for i in _range(a.size):
        for j in _range(n):
            lo_ok = core.compare("ge", a._a[i], edges._a[j])
            hi_ok = core.compare("le" if j == n - 1 else "lt", a._a[i], edges._a[j + 1])
            if core.decide(core.b_and(lo_ok, hi_ok)):
                r[j] += 1 if weights is None else as_A(weights).ravel()[i]
                break
    return r, edges


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = as_A(xp), as_A(fp)
    n = xp.size

    def f(v):
        if core.decide(core.compare("lt", v, xp._a[0])):
            return fp._a[0] if left is None else payload(left)
        if core.decide(core.compare("gt", v, xp._a[n - 1])):
            return fp._a[n - 1] if right is None else payload(right)
        for i in _range(n - 1):
            if core.decide(core.compare("le", v, xp._a[i + 1])) and not (i < n - 2 and core.decide(core.eq(v, xp._a[i + 1])) and False):
                d = core.sub(xp._a[i + 1], xp._a[i])
                if core.decide(core.eq(d, 0)):
                    return conv(fp._a[i + 1], "f")
                t = core.div(core.sub(v, xp._a[i]), d)
                return core.add(fp._a[i], core.mul(t, core.sub(fp._a[i + 1], fp._a[i])))
        return fp._a[n - 1]

    if isinstance(x, (A, rnp.ndarray, list, tuple)):
        x = as_A(x)
        return wrap(uf1(f)(x._a), F64 if dk(fp.dtype) != "c" else C128)
    return mk(f(payload(x)))


def unravel_index(i, shape):
    i = _uns(i)
    r = rnp.unravel_index(i, ishape(shape))
    return tuple(array(x) if isinstance(x, rnp.ndarray) else int(x) for x in r)


def ravel_multi_index(mi, dims, **k):
    return array(rnp.ravel_multi_index(tuple(_uns(m) for m in mi), ishape(dims), **k))


def ix_(*xs):
    return tuple(array(a) for a in rnp.ix_(*[conv_index(as_A(x)) for x in xs]))


def size(a, axis=None):
    if isinstance(a, (A, S, rnp.ndarray)):
        return a.size if axis is None else a.shape[axis]
    if isinstance(a, (list, tuple)):
        if is_str_data(a):
            return rnp.size(a, axis)
        if builtins.any(isinstance(e, (A, S, list, tuple)) for e in a):
            try:
                r = as_A(a)
            except ValueError:
                raise
            return r.size if axis is None else r.shape[axis]
        return len(a)
    return rnp.size(a)


def shape(a):
    if isinstance(a, (A, S, rnp.ndarray)):
        return a.shape
    if isinstance(a, (list, tuple)):
        return as_A(a).shape if not is_str_data(a) else rnp.shape(a)
    return rnp.shape(a)


def ndim(a):
    return len(shape(a))


def put(a, ind, v):
    a.flat[ind] = v


def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where3(where, src, dst)


def fill_diagonal(a, v):
    for i in _range(builtins.min(a.shape)):
        a[i, i] = v


def vectorize(pyfunc=None, otypes=None, **kw):
    if pyfunc is None:
        return lambda f: vectorize(f, otypes, **kw)

    import inspect

    sig = inspect.signature(pyfunc)

    def g(*args, **k):
        if k:                               # an array may be given by its name too
            b = sig.bind(*args, **k)
            args, k = b.args, b.kwargs
        arrs = broadcast_arrays(*[a if isinstance(a, (A, S)) else (array(a) if not isinstance(a, rnp.ndarray) else a) for a in args])
        o = rnp.empty(arrs[0].shape, dtype=object)
        for i in rnp.ndindex(*o.shape):
            o[i] = pyfunc(*[x[i] for x in arrs], **k)
        if o.ndim == 0:
            return o[()]
        return array(o.tolist()) if o.size else A(o, F64)

    functools.update_wrapper(g, pyfunc)
    return g


def apply_along_axis(f, axis, a, *args, **k):
    a = as_A(a)
    o = rnp.moveaxis(a._a, axis, -1)
    res = [f(A(o[i], a.dtype), *args, **k) for i in rnp.ndindex(*o.shape[:-1])]
    r = array(res)
    r = r.reshape(o.shape[:-1] + r.shape[1:])
    return A(rnp.moveaxis(r._a, -1, axis), r.dtype) if r.ndim == a.ndim else r


def issubdtype(a, b):
    a = getattr(a, "_real", a)
    b = getattr(b, "_real", b)
    return rnp.issubdtype(a, b)


def can_cast(a, b, **k):
    return rnp.can_cast(a.dtype if isinstance(a, (A, S)) else getattr(a, "_real", a), to_dt(b), **k)


def result_type(*a):
    return rnp.result_type(*[x.dtype if isinstance(x, (A, S)) else getattr(x, "_real", x) for x in a])


def dtype(x, *a, **k):
    return rnp.dtype(getattr(x, "_real", x), *a, **k)


def unwrap(p, discont=None, axis=-1, period=2 * math.pi):
    p = as_A(p)
    o = rnp.moveaxis(p._a.copy(), axis, -1)
    per = conv(payload(period), "f")
    half = per / 2
    for i in rnp.ndindex(*o.shape[:-1]):
        row = list(o[i])
        corr = core.ZERO
        out = [row[0]]
        for j in _range(1, len(row)):
            d = core.sub(row[j], row[j - 1])
            dm = core.r_sub(core.mod(core.r_add(conv(d, "f"), half), per), half)
            if core.decide(core.b_and(core.eq(dm, -half), core.compare("gt", d, 0))):
                dm = half
            ph = core.r_sub(dm, conv(d, "f"))
            if core.decide(core.compare("lt", core.absval(d), half)):
                ph = core.ZERO
            corr = core.r_add(corr, ph)
            out.append(core.r_add(conv(row[j], "f"), corr))
        for j, v in enumerate(out):
            o[i + (j,)] = v
    return A(rnp.moveaxis(o, -1, axis), F64)


def polyval(p, x):
    p = as_A(p)
    y = zeros_like(as_A(x)) if isinstance(x, (A, rnp.ndarray, list, tuple)) else 0
    for c in p:
        y = y * x + c
    return y


def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    x, y = as_A(x), as_A(y)
    V = _vander(x, int(deg))
    if w is not None:
        w = as_A(w)
        V = V * w[:, None]
        y = y * (w if y.ndim == 1 else w[:, None])
    c = _lsq(V, y)
    return c[::-1]


def _vander(x, deg):
    cols = []
    p = ones(x.shape, F64)
    for i in _range(deg + 1):
        cols.append(p)
        p = p * x
    return stack(cols, axis=1)


def solve_lin(M, b):
    """Gaussian elimination with exact arithmetic; forks on zero pivots. Raises LinAlgError if singular."""
    M = [list(r) for r in M]
    b = [list(r) for r in b]
    n = len(M)
    for c in _range(n):
        piv = None
        for r in _range(c, n):
            if not core.decide(core.eq(M[r][c], 0)):
                piv = r
                break
        if piv is None:
            raise rnp.linalg.LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        b[c], b[piv] = b[piv], b[c]
        for r in _range(n):
            if r != c:
                if not core.is_symbolic(M[r][c]) and core.eq(M[r][c], 0) is True:
                    continue
                f = core.div(M[r][c], M[c][c])
                for j in _range(c, n):
                    M[r][j] = core.sub(M[r][j], core.mul(f, M[c][j]))
                for j in _range(len(b[r])):
                    b[r][j] = core.sub(b[r][j], core.mul(f, b[c][j]))
    return [[core.div(b[i][j], M[i][i]) for j in _range(len(b[i]))] for i in _range(n)]


def _lsq(a, b):
    """least squares: minimum norm solution (0 for the all-zero system), via normal equations"""
    a, b = as_A(a), as_A(b)
    one = b.ndim == 1
    bb = b[:, None] if one else b
    dt = result_dtype(a, b, 1.0)
    k = dk(dt)
    # one symbolic zero test on the pivots
    ah = conjugate(a).T
    N = matmul(ah, a)
    R = matmul(ah, bb)
    n = N.shape[0]
    Nl = [[conv(N._a[i, j], k) for j in _range(n)] for i in _range(n)]
    Rl = [[conv(R._a[i, j], k) for j in _range(R.shape[1])] for i in _range(n)]
    try:
        x = solve_lin(Nl, Rl)
    except rnp.linalg.LinAlgError:
        if n == 1:
            x = [[_zero(k)] * R.shape[1]]
        else:
            raise Unsupported("rank deficient lstsq")
    o = rnp.empty((n, R.shape[1]), dtype=object)
    for i in _range(n):
        for j in _range(R.shape[1]):
            o[i, j] = x[i][j]
    r = A.make(o, dt)
    return r[:, 0] if one else r


class _Linalg:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def lstsq(a, b, rcond=None):
        a, b = as_A(a), as_A(b)
        if a.ndim != 2:
            raise rnp.linalg.LinAlgError(f"{a.ndim}-dimensional array given. Array must be two-dimensional")
        if a.shape[0] != b.shape[0]:
            raise rnp.linalg.LinAlgError("Incompatible dimensions")
        x = _lsq(a, b)
        return x, array([]), a.shape[1], array([])

    @staticmethod
    def solve(a, b):
        a, b = as_A(a), as_A(b)
        dt = result_dtype(a, b, 1.0)
        k = dk(dt)
        bb = b[:, None] if b.ndim == 1 else b
        x = solve_lin([[conv(v, k) for v in r] for r in a._a], [[conv(v, k) for v in r] for r in bb._a])
        r = A.make(obj2(x), dt)
        return r[:, 0] if b.ndim == 1 else r

    @staticmethod
    def inv(a):
        a = as_A(a)
        return _Linalg.solve(a, identity(a.shape[0]))

    @staticmethod
    def pinv(a, **k):
        a = as_A(a)
        return _Linalg.solve(matmul(conjugate(a).T, a), conjugate(a).T)

    @staticmethod
    def det(a):
        a = as_A(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        acc = 0
        for j in _range(n):
            minor = A(rnp.delete(rnp.delete(a._a, 0, 0), j, 1), a.dtype)
            acc = acc + (-1) ** j * a[0, j] * _Linalg.det(minor)
        return acc

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = as_A(x)
        a = absolute(x)
        s = amsum(real(x) * real(x) + imag(x) * imag(x) if iscomplexobj(x) else x * x, axis=axis, keepdims=keepdims)
        return _unary(lambda v: _sqrt_nonneg(conv(v, "f")), "div")(s)

    def __getattr__(self, n):
        return _fb(getattr(rnp.linalg, n), "linalg." + n)


def obj2(x):
    o = rnp.empty((len(x), len(x[0])), dtype=object)
    for i, r in enumerate(x):
        for j, v in enumerate(r):
            o[i, j] = v
    return o


linalg = _Linalg()


class Poly:
    def __init__(self, coef, domain=None, window=None, symbol="x"):
        self.coef = as_A(coef)
        self.domain = domain
        self.window = window

    def convert(self, **k):
        return self

    def degree(self):
        return self.coef.size - 1

    def __call__(self, x):
        return npoly_polyval(x, self.coef)

    def __len__(self):
        return self.coef.size

    def __iter__(self):
        return iter(self.coef)

    @staticmethod
    def fit(x, y, deg, domain=None, rcond=None, full=False, w=None, window=None, symbol="x"):
        # exact arithmetic: the unscaled fit equals the domain-mapped one after .convert()
        return _FitPoly(x, y, deg, w)


class _FitPoly(Poly):
    def __init__(self, x, y, deg, w):
        x, y = as_A(x), as_A(y)
        self._x, self._y = x, y
        c = polyfit(x, y, deg, w=w)[::-1]
        self._conv = Poly(c)
        lo, hi = amin(x), amax(x)
        self._lo, self._hi = lo, hi
        self.domain = array([lo, hi])
        self.window = array([-1, 1])

    @property
    def coef(self):
        # coefficients in the mapped variable u: x = off + scl*u
        off = (self._lo + self._hi) / 2
        scl = (self._hi - self._lo) / 2
        c = self._conv.coef
        n = c.size
        out = [0] * n
        for i in _range(n):
            for j in _range(i + 1):
                out[j] = out[j] + c[i] * math.comb(i, j) * off ** (i - j) * scl**j
        return array(out)

    def convert(self, **k):
        # like numpy, which leaves out trailing coefficients that are exactly zero
        c = self._conv.coef
        n = c.size
        while n > 1 and bool(c[n - 1] == 0):
            n -= 1
        return self._conv if n == c.size else Poly(c[:n])

    def __call__(self, x):
        return self._conv(x)


def npoly_polyval(x, c, tensor=True):
    c = as_A(c)
    y = x * 0 + c[-1]
    for i in _range(2, c.size + 1):
        y = c[-i] + y * x
    return y


class _Polynomial:
    Polynomial = Poly

    class polynomial:
        Polynomial = Poly
        polyval = staticmethod(npoly_polyval)

        @staticmethod
        def polyfit(x, y, deg, rcond=None, full=False, w=None):
            return polyfit(x, y, deg, w=w)[::-1]


polynomial = _Polynomial()


# ---------------------------------------------------------------------- fft
def _twiddle(n, k, sgn):
    k %= n
    # exact quarter turns
    if (4 * k) % n == 0:
        q = (4 * k) // n
        re, im = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
        return Cx(Fraction(re), Fraction(im * sgn))
    t = 2 * math.pi * k / n
    return Cx(Fraction(math.cos(t)), Fraction(sgn * math.sin(t)))


def _dft(o, axis, sgn):
    o = rnp.moveaxis(o, axis, -1)
    n = o.shape[-1]
    r = rnp.empty(o.shape, dtype=object)
    tw = [_twiddle(n, k, sgn) for k in _range(n)]
    for i in rnp.ndindex(*o.shape[:-1]):
        row = [conv(v, "c") for v in o[i]]
        for k in _range(n):
            acc = Cx(core.ZERO, core.ZERO)
            for j in _range(n):
                acc = core.add(acc, core.mul(row[j], tw[(j * k) % n]))
            r[i + (k,)] = acc
    return rnp.moveaxis(r, -1, axis)


def _fftn(inverse):
    def f(a, s=None, axes=None, norm=None, **k):
        a = as_A(a)
        if s is not None:
            raise Unsupported("fft s")
        axs = list(_range(a.ndim)) if axes is None else list(axes)
        o = a._a
        n = 1
        for ax in axs:
            o = _dft(o, ax, 1 if inverse else -1)
            n *= a.shape[ax]
        r = A.make(o, C128)
        norm = norm or "backward"
        if (norm == "backward" and inverse) or (norm == "forward" and not inverse):
            r = r / n
        elif norm == "ortho":
            r = r / sqrt(S(Fraction(n), F64))
        return r

    return f


class _FFT:
    fftn = staticmethod(_fftn(False))
    ifftn = staticmethod(_fftn(True))

    @staticmethod
    def fft2(a, s=None, axes=(-2, -1), norm=None):
        return _FFT.fftn(a, s, axes, norm)

    @staticmethod
    def ifft2(a, s=None, axes=(-2, -1), norm=None):
        return _FFT.ifftn(a, s, axes, norm)

    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        return _FFT.fftn(a, None, (axis,), norm)

    @staticmethod
    def ifft(a, n=None, axis=-1, norm=None):
        return _FFT.ifftn(a, None, (axis,), norm)

    @staticmethod
    def fftshift(a, axes=None):
        a = as_A(a)
        return A(rnp.fft.fftshift(a._a, axes), a.dtype)

    @staticmethod
    def ifftshift(a, axes=None):
        a = as_A(a)
        return A(rnp.fft.ifftshift(a._a, axes), a.dtype)

    @staticmethod
    def fftfreq(n, d=1.0):
        dd = conv(payload(d), "f")
        n = int(n)
        v = [i for i in _range((n - 1) // 2 + 1)] + [i for i in _range(-(n // 2), 0)]
        return array([mk(core.r_div(Fraction(i), core.r_mul(dd, Fraction(n)))) for i in v])

    def __getattr__(self, n):
        return _fb(getattr(rnp.fft, n), "fft." + n)


fft = _FFT()


# ------------------------------------------------------------------- fallback
def lift(r):
    """real numpy results -> A/S"""
    if isinstance(r, rnp.ndarray):
        return array(r) if r.dtype.kind in "biufc" else r
    if isinstance(r, rnp.generic) and r.dtype.kind in "biufc":
        return mk(payload(r), r.dtype)
    if isinstance(r, tuple):
        return tuple(lift(x) for x in r)
    if isinstance(r, list):
        return [lift(x) for x in r]
    return r


def lower(x, why):
    if isinstance(x, A):
        if not is_conc(x):
            core.cur().ex.stats.unsupported[why] = core.cur().ex.stats.unsupported.get(why, 0) + 1
        return to_concrete(x, why)
    if isinstance(x, S):
        from .arr import pin_payload

        if not is_conc(x):
            core.cur().ex.stats.unsupported[why] = core.cur().ex.stats.unsupported.get(why, 0) + 1
        return x.dtype.type(fconc(pin_payload(x.v, why)))
    if isinstance(x, Flat):
        return lower(x.copy(), why)
    if isinstance(x, tuple):
        return tuple(lower(e, why) for e in x)
    if isinstance(x, list):
        return [lower(e, why) for e in x]
    if isinstance(x, dict):
        return {k: lower(v, why) for k, v in x.items()}
    if isinstance(x, type) and hasattr(x, "_real"):
        return x._real
    return x


def fallback(f, name, args, kw):
    out = kw.get("out")
    r = f(*[lower(a, name) for a in args], **{k: lower(v, name) for k, v in kw.items()})
    r = lift(r)
    if isinstance(out, A):
        out[...] = r
    return r


def _fb(f, name):
    if isinstance(f, type) and issubclass(f, BaseException):
        return f

    def g(*a, **k):
        return fallback(f, name, a, k)

    g.__name__ = name
    return g


# exported under numpy names ---------------------------------------------------
EXPORT = {"sum": amsum, "max": amax, "min": amin, "abs": absolute, "all": alltrue, "any": sometrue, "round": around, "ndarray": ndarray}
EXPORT.update(TYPES)
_EXCL = {"core", "A", "S", "builtins", "functools", "math", "Fraction", "rnp", "z3", "Cx", "conv", "kind_of", "payload", "mk", "lift", "lower", "fallback", "box", "wrap", "dk", "uf1", "uf2", "Flat", "Poly", "obj2", "EXPORT", "TYPES", "UNINIT"}


class NPShim:
    """stands in for the numpy module in symbolically loaded code"""

    pi = math.pi
    e = math.e
    nan = NaN = float("nan")
    inf = float("inf")
    newaxis = None
    recarray = rnp.recarray
    str_ = rnp.str_
    bytes_ = rnp.bytes_
    object_ = rnp.object_
    void = rnp.void
    errstate = rnp.errstate
    __version__ = rnp.__version__

    exceptions = rnp.exceptions
    testing = rnp.testing
    typing = rnp.typing
    finfo = rnp.finfo
    iinfo = rnp.iinfo
    s_ = rnp.s_
    r_ = rnp.r_
    c_ = rnp.c_

    def seterr(self, **k):
        return {}

    def ndindex(self, *a):
        return rnp.ndindex(*[_uns(x) for x in a])

    def ndenumerate(self, a):
        a = as_A(a)
        for i in rnp.ndindex(*a.shape):
            yield i, a[i]

    def __getattr__(self, name):
        if name in EXPORT:
            return EXPORT[name]
        g = globals()
        if name in g and not name.startswith("_") and name not in _EXCL and hasattr(rnp, name):
            if name in g:
                return g[name]
        real = getattr(rnp, name)  # AttributeError just like numpy
        if callable(real) and not isinstance(real, type):
            return _fb(real, name)
        return real


np = NPShim()


def loadtxt(*a, **kw):
    """files are read as they are"""
    return array(rnp.loadtxt(*a, **kw))
