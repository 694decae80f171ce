"""Scalar (S) and array (A) classes carrying payloads, with NumPy's interface."""
from __future__ import annotations

import numbers
from fractions import Fraction

import numpy as rnp
import z3

from . import core
from .core import Cx, Unsupported, conv, kind_of

F64, I64, C128, BOOL, OBJ = (rnp.dtype(x) for x in ("float64", "int64", "complex128", "bool", "object"))
KDT = {"b": BOOL, "i": I64, "f": F64, "c": C128, "O": OBJ}


def dk(dt):
    """dtype -> payload kind"""
    k = dt.kind
    return "i" if k == "u" else (k if k in "bifc" else "O")


def payload(x):
    """python / numpy scalar or S -> payload"""
    if isinstance(x, S):
        return x.v
    if isinstance(x, (bool, rnp.bool_)):
        return bool(x)
    if isinstance(x, (int, rnp.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, rnp.floating)):
        return core.from_float(x)
    if isinstance(x, (complex, rnp.complexfloating)):
        return Cx(core.from_float(x.real), core.from_float(x.imag))
    if isinstance(x, (z3.ArithRef, z3.BoolRef, Cx)):
        return x
    if isinstance(x, A) and x._a.ndim == 0:
        return x._a[()]
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return payload(x.item())
    return x


def box(v):
    o = rnp.empty((), dtype=object)
    o[()] = v
    return o


def scalar_dtype(x):
    if isinstance(x, (S, A)):
        return x.dtype
    if isinstance(x, (rnp.ndarray, rnp.generic)):
        return x.dtype
    return None


def result_dtype(*xs):
    """numpy-2 style promotion with weak python scalars, reduced to kinds"""
    dts, weak = [], "b"
    order = "bifcO"
    for x in xs:
        d = scalar_dtype(x)
        if d is not None and dk(d) != "O":
            if isinstance(x, S) and x.weak:
                k = dk(d)
                if order.index(k) > order.index(weak):
                    weak = k
            else:
                dts.append(d)
        else:
            k = kind_of(payload(x))
            if order.index(k) > order.index(weak):
                weak = k
    if not dts:
        return KDT[weak]
    d = dts[0]
    for e in dts[1:]:
        d = rnp.promote_types(d, e)
    if order.index(weak) > order.index(dk(d)):
        return KDT[weak] if weak != "c" or d.itemsize > 4 else C128
    return d


def fconc(v):
    """concrete payload -> python number"""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, Cx):
        return complex(fconc(v.re), fconc(v.im))
    return v


def pin_payload(v, why):
    if isinstance(v, Cx):
        return Cx(pin_payload(v.re, why), pin_payload(v.im, why))
    if core.is_z(v):
        return core.cur().pin(v, why)
    return v


def pick_payload(v):
    if isinstance(v, Cx):
        return Cx(pick_payload(v.re), pick_payload(v.im))
    if isinstance(v, z3.BoolRef):
        return core.decide(v)
    if core.is_z(v):
        return core.cur().pick(v)
    return v


class _Ops:
    """operators shared by S and A"""

    __array_ufunc__ = None
    __array_priority__ = 1000

    def _bin(self, other, f, out_kind=None, rev=False):
        raise NotImplementedError

    def __add__(self, o):
        return self._bin(o, core.add)

    def __radd__(self, o):
        return self._bin(o, core.add, rev=True)

    def __sub__(self, o):
        return self._bin(o, core.sub)

    def __rsub__(self, o):
        return self._bin(o, core.sub, rev=True)

    def __mul__(self, o):
        return self._bin(o, core.mul)

    def __rmul__(self, o):
        return self._bin(o, core.mul, rev=True)

    def __truediv__(self, o):
        return self._bin(o, core.div, "div")

    def __rtruediv__(self, o):
        return self._bin(o, core.div, "div", rev=True)

    def __floordiv__(self, o):
        return self._bin(o, core.floordiv, "nob")

    def __rfloordiv__(self, o):
        return self._bin(o, core.floordiv, "nob", rev=True)

    def __mod__(self, o):
        return self._bin(o, core.mod, "nob")

    def __rmod__(self, o):
        return self._bin(o, core.mod, "nob", rev=True)

    def __pow__(self, o):
        return self._bin(o, core.power, "nob")

    def __rpow__(self, o):
        return self._bin(o, core.power, "nob", rev=True)

    def __matmul__(self, o):
        from . import nps

        return nps.matmul(self, o)

    def __rmatmul__(self, o):
        from . import nps

        return nps.matmul(o, self)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: core.compare("lt", a, b), "b")

    def __le__(self, o):
        return self._bin(o, lambda a, b: core.compare("le", a, b), "b")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: core.compare("gt", a, b), "b")

    def __ge__(self, o):
        return self._bin(o, lambda a, b: core.compare("ge", a, b), "b")

    def __eq__(self, o):
        return self._bin(o, core.eq, "b")

    def __ne__(self, o):
        return self._bin(o, core.ne, "b")

    def __and__(self, o):
        return self._bin(o, _and, "bit")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, _or, "bit")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, _xor, "bit")

    __rxor__ = __xor__

    def __neg__(self):
        return self._un(core.neg)

    def __pos__(self):
        return self._un(lambda v: v)

    def __abs__(self):
        return self._un(core.absval, "abs")

    def __invert__(self):
        return self._un(_inv)

    def __lshift__(self, o):
        return self._bin(o, lambda a, b: core.mul(a, core.power(2, b)), "bit")

    def __rshift__(self, o):
        return self._bin(o, lambda a, b: core.floordiv(a, core.power(2, b)), "bit")

    def __divmod__(self, o):
        return self // o, self % o


def _int_bit(op, a, b):
    a, b = conv(a, "i"), conv(b, "i")
    if not core.is_z(a) and not core.is_z(b):
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    # bounded symbolic integers: enumerate (nonzero & nonzero is data dependent)
    za, zb = core.zint(a), core.zint(b)
    w = 20
    bits_a = z3.Int2BV(za, w)
    bits_b = z3.Int2BV(zb, w)
    core.cur().add(z3.And(za >= -(2 ** (w - 1)), za < 2 ** (w - 1), zb >= -(2 ** (w - 1)), zb < 2 ** (w - 1)))
    r = {"and": bits_a & bits_b, "or": bits_a | bits_b, "xor": bits_a ^ bits_b}[op]
    return z3.BV2Int(r, is_signed=True)


def _and(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb == "b":
        return core.b_and(a, b)
    if "f" in (ka, kb) or "c" in (ka, kb):
        raise TypeError("ufunc 'bitwise_and' not supported for the input types")
    return _int_bit("and", a, b)


def _or(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb == "b":
        return core.b_or(a, b)
    if "f" in (ka, kb) or "c" in (ka, kb):
        raise TypeError("ufunc 'bitwise_or' not supported for the input types")
    return _int_bit("or", a, b)


def _xor(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb == "b":
        return core.ne(a, b)
    if "f" in (ka, kb) or "c" in (ka, kb):
        raise TypeError("ufunc 'bitwise_xor' not supported for the input types")
    return _int_bit("xor", a, b)


def _inv(a):
    k = kind_of(a)
    if k == "b":
        return core.b_not(a)
    if k == "i":
        return core.sub(core.neg(a), 1)
    raise TypeError("ufunc 'invert' not supported for the input types")


def out_dtype(dt, mode):
    if mode is None or mode == "bit":
        return dt
    if mode == "b":
        return BOOL
    k = dk(dt)
    if mode == "div":
        return F64 if k in "bi" else dt
    if mode == "nob":
        return I64 if k == "b" else dt
    if mode == "abs":
        return F64 if k == "c" else dt
    return dt


class S(_Ops):
    """numpy-like scalar. weak: behaves as a python scalar for promotion."""

    __slots__ = ("v", "_dt", "weak")

    def __init__(self, v, dt=None, weak=False):
        self.v = v
        self._dt = dt if dt is not None else KDT[kind_of(v)]
        self.weak = weak

    @property
    def dtype(self):
        return self._dt

    def _bin(self, o, f, mode=None, rev=False):
        if isinstance(o, (A, rnp.ndarray)):
            return as_A(self)._bin(o, f, mode, rev)
        if hasattr(o, "__symarray__"):
            o = o.__symarray__()
            if isinstance(o, A) and not o.ndim:
                o = o[()]
            return self._bin(o, f, mode, rev)
        if isinstance(o, (list, tuple)):
            return as_A(self)._bin(as_A(o), f, mode, rev)
        p = payload(o)
        if kind_of(p) == "O":
            if mode == "b":
                if p is None or isinstance(p, (str, bytes, dict)):
                    return f is core.ne
            return NotImplemented
        dt = out_dtype(result_dtype(self, o), mode)
        k = dk(dt)
        r = f(p, self.v) if rev else f(self.v, p)
        if mode != "b" and kind_of(r) != k and k != "O":
            r = conv(r, k)
        return mk(r, dt if kind_of(r) == k else None)

    def _un(self, f, mode=None):
        return mk(f(self.v), out_dtype(self._dt, mode))

    # numpy scalar attributes
    shape = ()
    ndim = 0
    size = 1

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def real(self):
        return mk(self.v.re, F64) if isinstance(self.v, Cx) else self

    @property
    def imag(self):
        return mk(self.v.im, F64) if isinstance(self.v, Cx) else mk(0 if kind_of(self.v) in "bi" else core.ZERO)

    @property
    def T(self):
        return self

    def conj(self):
        return mk(core.conj(self.v), self._dt)

    conjugate = conj

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        return as_A(self).reshape(1)

    ravel = flatten

    def squeeze(self, *a, **k):
        return self

    def astype(self, dt, **k):
        from .nps import to_dt

        dt = to_dt(dt)
        return mk(conv(self.v, dk(dt)), dt)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr(A, name, None)
        if m is None:
            raise AttributeError(name)
        return getattr(as_A(self), name)

    def __getitem__(self, idx):
        if idx == () or idx is Ellipsis:
            return self
        if idx is None:
            return as_A(self)[None]
        raise IndexError("invalid index to scalar variable.")

    def __setitem__(self, i, v):
        raise TypeError("'numpy.float64' object does not support item assignment")

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    def __iter__(self):
        raise TypeError("'numpy.float64' object is not iterable")

    # python protocol
    def __bool__(self):
        return core.decide(core.truth(self.v))

    def __index__(self):
        k = kind_of(self.v)
        if k == "b" and isinstance(self.v, bool):
            return int(self.v)
        if k == "b":
            return int(core.decide(self.v))
        if k != "i":
            raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
        return pick_payload(self.v)

    def __int__(self):
        if isinstance(self.v, Cx):
            raise TypeError("can't convert complex to int")
        if core.isnan(self.v):
            raise ValueError("cannot convert float NaN to integer")
        if core.isinf(self.v):
            raise OverflowError("cannot convert float infinity to integer")
        return int(pick_payload(core.trunc(self.v)))

    def __float__(self):
        if isinstance(self.v, Cx):
            raise TypeError("can't convert complex to float")
        return float(fconc(pin_payload(self.v, "float()")))

    def __complex__(self):
        return complex(fconc(pin_payload(self.v, "complex()")))

    def __round__(self, n=None):
        r = core.rint(self.v, n or 0)
        return mk(conv(r, "i")) if n is None else mk(r)

    def __floor__(self):
        return mk(core.floor_i(self.v))

    def __ceil__(self):
        return mk(core.ceil_i(self.v))

    def __trunc__(self):
        return mk(core.trunc(self.v))

    def is_integer(self):
        return mk(core.eq(self.v, core.floor(self.v)))

    def __hash__(self):
        v = pick_payload(self.v)
        return hash(fconc(v))

    def __repr__(self):
        return f"S({self.v})"

    def __str__(self):
        return self.__format__("")

    def __format__(self, spec):
        if core.is_symbolic(self.v):
            return "<sym>"
        x = fconc(self.v)
        try:
            return format(x, spec)
        except (ValueError, TypeError):
            return str(x)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array__(self, dtype=None, copy=None):
        return rnp.array(fconc(pin_payload(self.v, "__array__")), dtype=dtype or self._dt)


numbers.Number.register(S)


def mk(v, dt=None):
    """payload -> scalar result"""
    if kind_of(v) == "O":
        return v
    return S(v, dt if dt is not None and dk(dt) == kind_of(v) else None)


_UF = {}


def uf2(f):
    r = _UF.get(f)
    if r is None:
        r = rnp.frompyfunc(f, 2, 1)
        if getattr(f, "__name__", "") != "<lambda>":
            _UF[f] = r
    return r


def uf1(f):
    r = _UF.get((f,))
    if r is None:
        r = rnp.frompyfunc(f, 1, 1)
        if getattr(f, "__name__", "") != "<lambda>":
            _UF[(f,)] = r
    return r


_to_payload = rnp.frompyfunc(payload, 1, 1)


def obj_from_nested(x):
    """nested lists/tuples of scalars/arrays -> (object ndarray of payloads, dtype)"""
    if isinstance(x, A):
        return x._a, x.dtype
    if hasattr(x, "__symarray__"):
        return obj_from_nested(x.__symarray__())
    if isinstance(x, S):
        return box(x.v), x.dtype
    if isinstance(x, rnp.ndarray):
        if x.dtype.kind in "biufc":
            o = rnp.empty(x.shape, dtype=object)
            fl = x.ravel().tolist()
            o.ravel()[...] = 0
            of = o.reshape(-1)
            for i, v in enumerate(fl):
                of[i] = payload(v)
            return o, x.dtype
        o = rnp.empty(x.shape, dtype=object)
        of = o.reshape(-1)
        kinds = "b"
        order = "bifcO"
        for i, v in enumerate(x.ravel()):
            p = payload(v)
            of[i] = p
        if x.dtype.kind == "O":
            return o, OBJ
        return o, x.dtype
    if isinstance(x, (range, set, frozenset, map, zip, filter)) or hasattr(x, "__next__"):
        x = list(x)
    if isinstance(x, (list, tuple)):
        parts = [obj_from_nested(e) for e in x]
        if not parts:
            return rnp.empty((0,), dtype=object), F64
        sh = parts[0][0].shape
        if any(p[0].shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        dt = result_dtype(*[A(p[0], p[1]) if p[1].kind in "biufc" else _Weak(p) for p in parts])
        o = rnp.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p[0] if sh else p[0][()]
        return o, dt
    p = payload(x)
    return box(p), KDT[kind_of(p)]


class _Weak:
    def __init__(self, p):
        pass


_payload_orig = payload


def as_A(x, dt=None):
    if isinstance(x, A) and (dt is None or dt == x._dt):
        return x
    o, d = obj_from_nested(x)
    if dt is None:
        dt = d
    return A.make(o, dt)


def conv_arr(o, k):
    """convert object ndarray of payloads to kind k"""
    if k == "O":
        return o
    r = rnp.empty(o.shape, dtype=object)
    rf, of = r.reshape(-1), o.reshape(-1)
    for i in range(of.shape[0]):
        rf[i] = conv(of[i], k)
    return r


class FlagsStub:
    c_contiguous = True
    writeable = True


class A(_Ops):
    __slots__ = ("_a", "_dt")

    def __init__(self, o, dt):
        self._a = o
        self._dt = dt

    @staticmethod
    def make(o, dt):
        k = dk(dt)
        if k != "O":
            for v in o.flat:
                if kind_of(v) != k:
                    o = conv_arr(o, k)
                    break
        return A(o, dt)

    # -- attributes
    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self._a.shape

    @shape.setter
    def shape(self, s):
        self._a.shape = s

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def size(self):
        return int(self._a.size)

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self.size * self._dt.itemsize

    flags = FlagsStub()

    @property
    def T(self):
        return A(self._a.T, self._dt)

    @property
    def flat(self):
        return Flat(self)

    @flat.setter
    def flat(self, val):
        Flat(self)[:] = val

    @property
    def base(self):
        return None

    @property
    def real(self):
        if dk(self._dt) == "c":
            return PartView(self, "re")
        return self

    @real.setter
    def real(self, val):
        self._setpart("re", val)

    @property
    def imag(self):
        if dk(self._dt) == "c":
            return PartView(self, "im")
        return A(uf1(lambda v: 0 if kind_of(v) in "bi" else core.ZERO)(self._a) if self._a.size else self._a.copy(), self._dt) if self._a.ndim else mk(core.ZERO)

    @imag.setter
    def imag(self, val):
        self._setpart("im", val)

    def _setpart(self, part, val, idx=Ellipsis):
        src = as_A(val)
        sub = self._a[idx]
        if not isinstance(sub, rnp.ndarray):
            sub = box(sub)
        v = rnp.broadcast_to(conv_arr(src._a, "f"), sub.shape)
        new = rnp.empty(sub.shape, dtype=object)
        nf, sf, vf = new.reshape(-1), sub.reshape(-1), v.reshape(-1)
        for i in range(nf.shape[0]):
            c = conv(sf[i], "c")
            nf[i] = Cx(vf[i], c.im) if part == "re" else Cx(c.re, vf[i])
        self._a[idx] = new if new.ndim else new[()]

    # -- operators
    def _bin(self, o, f, mode=None, rev=False):
        if hasattr(o, "__symarray__"):
            o = as_A(o)
        if isinstance(o, (str, bytes, dict)) or o is None:
            if mode == "b":
                if self._dt.kind in "OUS":
                    oo = rnp.frompyfunc(lambda a: f(a, o), 1, 1)(self._a)
                    return wrap(oo, BOOL)
                if f is core.ne:
                    return full_like_b(self, True)
                return full_like_b(self, False)
            return NotImplemented
        if not isinstance(o, (A, S, rnp.ndarray, list, tuple, numbers.Number, rnp.generic)):
            return NotImplemented
        if isinstance(o, (rnp.ndarray, list, tuple)):
            o = as_A(o)
        dt = out_dtype(result_dtype(self, o), mode)
        ob = o._a if isinstance(o, A) else box(payload(o))
        g = uf2(f)
        try:
            r = g(ob, self._a) if rev else g(self._a, ob)
        except ValueError:
            if mode == "b" and f in (core.eq, core.ne) and False:
                return S(f is core.ne)
            raise
        return wrap(r, dt, mode)

    def _un(self, f, mode=None):
        return wrap(uf1(f)(self._a), out_dtype(self._dt, mode))

    def _inplace(self, o, f, mode=None):
        r = self._bin(o, f, mode)
        if r is NotImplemented:
            return r
        if rnp.shape(r._a if isinstance(r, A) else 0) != self.shape and isinstance(r, A):
            raise ValueError(f"non-broadcastable output operand with shape {self.shape} doesn't match the broadcast shape {r.shape}")
        k, rk = dk(self._dt), dk(r.dtype)
        if "bifcO".index(rk) > "bifcO".index(k):
            raise rnp_casting_error(self._dt, r.dtype)
        self._assign(Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, core.add)

    def __isub__(self, o):
        return self._inplace(o, core.sub)

    def __imul__(self, o):
        return self._inplace(o, core.mul)

    def __itruediv__(self, o):
        return self._inplace(o, core.div, "div")

    def __ifloordiv__(self, o):
        return self._inplace(o, core.floordiv, "nob")

    def __imod__(self, o):
        return self._inplace(o, core.mod, "nob")

    def __ipow__(self, o):
        return self._inplace(o, core.power, "nob")

    def __iand__(self, o):
        return self._inplace(o, _and, "bit")

    def __ior__(self, o):
        return self._inplace(o, _or, "bit")

    def __ixor__(self, o):
        return self._inplace(o, _xor, "bit")

    # -- indexing
    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        r = self._a[conv_index(idx, self.shape)]
        if isinstance(r, rnp.ndarray):
            if r.ndim == 0 and r.dtype == object and not _keeps0d(idx):
                return mk(r[()], self._dt)
            return A(r, self._dt)
        return mk(r, self._dt)

    def __setitem__(self, idx, val):
        # masked store of a scalar through a symbolic boolean mask: no fork needed
        m = sym_mask(idx, self)
        if m is not None:
            sv = val
            if isinstance(sv, A) and sv.size == 1:
                sv = sv.reshape(-1)[0]
            if isinstance(sv, (S, numbers.Number, rnp.generic)) and not isinstance(sv, (list, tuple)):
                p = payload(sv)
                k = dk(self._dt)
                p = conv(p, k)
                if not _has_special(p):
                    mm = rnp.broadcast_to(m._a.reshape(m.shape + (1,) * (self.ndim - m.ndim)), self.shape)
                    fl, mf = self._a.reshape(-1), mm.reshape(-1)
                    if rnp.shares_memory(fl, self._a) and not any(_has_special(v) for v in fl):
                        for i in range(fl.shape[0]):
                            fl[i] = core.ite(mf[i], p, fl[i])
                        return
        self._assign(conv_index(idx, self.shape), val)

    def _assign(self, idx, val):
        k = dk(self._dt)
        if isinstance(val, (A, rnp.ndarray, list, tuple)):
            v = as_A(val)
            o = conv_arr(v._a, k) if dk(v.dtype) != k else v._a
            if o.ndim == 0:
                o = o[()]
                self._store_scalar(idx, o)
                return
            if rnp.shares_memory(o, self._a):
                o = o.copy()
            self._a[idx] = o
            return
        p = payload(val)
        if isinstance(p, Cx) and k in "if" and not isinstance(val, S):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if k != "O" and kind_of(p) == "O":
            if p is None:
                p = core.NAN if k == "f" else p
                if k != "f":
                    raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
            elif isinstance(p, str):
                p = payload(float(p))
            else:
                raise TypeError(f"cannot store {type(p)}")
        if k == "i" and kind_of(p) == "f" and core.is_special(p):
            raise ValueError("cannot convert float NaN to integer")
        self._store_scalar(idx, conv(p, k))

    def _store_scalar(self, idx, p):
        self._a[idx] = box(p) if isinstance(self._a[idx], rnp.ndarray) else p

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self._a.shape[0]

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self._a.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size == 1:
            return core.decide(core.truth(self._a.reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self._a.ndim == 0:
            return mk(self._a[()], self._dt).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return mk(self._a.reshape(-1)[0], self._dt).__int__()

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return mk(self._a.reshape(-1)[0], self._dt).__float__()

    __hash__ = None

    def __repr__(self):
        return f"A({self._a.tolist()}, {self._dt})"

    __str__ = __repr__

    def __format__(self, spec):
        return "<array>"

    def __deepcopy__(self, memo):
        return A(self._a.copy(), self._dt)

    def __copy__(self):
        return A(self._a.copy(), self._dt)

    def __array__(self, dtype=None, copy=None):
        return to_concrete(self, "__array__", dtype)

    # -- structural methods
    def copy(self, *a, **k):
        return A(self._a.copy(), self._dt)

    def flatten(self, order="C"):
        return A(self._a.flatten(order), self._dt)

    def ravel(self, order="C"):
        return A(self._a.ravel(order), self._dt)

    def reshape(self, *shape, **kw):
        from .nps import ishape

        if len(shape) == 1 and isinstance(shape[0], (tuple, list, A)):
            shape = tuple(shape[0])
        return A(self._a.reshape(ishape(shape), **kw), self._dt)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list, A))):
            axes = axes[0]
            axes = None if axes is None else tuple(int(x) for x in axes)
            return A(self._a.transpose(axes), self._dt)
        return A(self._a.transpose(*[int(x) for x in axes]), self._dt)

    def swapaxes(self, a, b):
        return A(self._a.swapaxes(int(a), int(b)), self._dt)

    def squeeze(self, axis=None):
        r = self._a.squeeze(axis)
        return A(r, self._dt)

    def astype(self, dt, copy=True, **k):
        from .nps import to_dt

        dt = to_dt(dt)
        if dt.kind in "US":
            return to_concrete(self, "astype str").astype(dt)
        if not copy and dt == self._dt:
            return self
        kk = dk(dt)
        return A(conv_arr(self._a, kk) if kk != dk(self._dt) else self._a.copy(), dt)

    def view(self, *a, **k):
        return A(self._a.view(), self._dt)

    def tolist(self):
        def rec(o):
            if o.ndim == 0:
                return _listel(o[()])
            return [rec(o[i]) if o.ndim > 1 else _listel(o[i]) for i in range(o.shape[0])]

        return rec(self._a)

    def item(self, *args):
        if args:
            return self.flat[args[0]] if len(args) == 1 else self[args]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return mk(self._a.reshape(-1)[0], self._dt)

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self._un(core.conj)

    conjugate = conj

    def resize(self, *a, **k):
        raise Unsupported("resize")

    def tobytes(self):
        return to_concrete(self, "tobytes").tobytes()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        from . import nps

        if name in _METHODS:
            f = getattr(nps.np, _METHODS[name])

            def method(*a, **k):
                return f(self, *a, **k)

            return method
        if hasattr(rnp.ndarray, name):
            def fallback(*a, **k):
                return nps.fallback(lambda x, *b, **c: getattr(x, name)(*b, **c), "ndarray." + name, (self,) + a, k)

            return fallback
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    def sort(self, axis=-1, **k):
        from . import nps

        self._a[...] = nps.sort(self, axis=axis)._a


_METHODS = {n: n for n in "sum mean std var prod any all argmax argmin argsort cumsum cumprod nonzero round clip repeat take searchsorted dot trace diagonal".split()}
_METHODS["max"] = "amax"
_METHODS["min"] = "amin"


def _listel(v):
    return v if kind_of(v) == "O" else mk(v)


def _has_special(v):
    if isinstance(v, Cx):
        return type(v.re) is float or type(v.im) is float
    return type(v) is float


def rnp_casting_error(to, frm):
    return TypeError(f"Cannot cast ufunc output from dtype('{frm}') to dtype('{to}') with casting rule 'same_kind'")


def full_like_b(a, v):
    o = rnp.empty(a.shape, dtype=object)
    o[...] = v
    return A(o, BOOL)


def wrap(r, dt, mode=None):
    """ufunc result (object ndarray or scalar payload) -> A or S"""
    if isinstance(r, rnp.ndarray):
        k = dk(dt)
        if k != "O":
            for v in r.flat:
                if kind_of(v) != k:
                    r = conv_arr(r, k)
                    break
        return A(r, dt)
    k = dk(dt)
    if k != "O" and kind_of(r) != k:
        r = conv(r, k)
    return mk(r, dt)


class PartView(A):
    """real/imag part of a complex array (writes go through)"""

    __slots__ = ("_src", "_part")

    def __init__(self, src, part):
        a = src._a
        r = rnp.empty(a.shape, dtype=object)
        rf, af = r.reshape(-1), a.reshape(-1)
        for i in range(af.shape[0]):
            rf[i] = af[i].re if part == "re" else af[i].im
        super().__init__(r, F64)
        self._src = src
        self._part = part

    def __setitem__(self, idx, val):
        super().__setitem__(idx, val)
        self._src._setpart(self._part, A(self._a, F64))

    def _assign(self, idx, val):
        super()._assign(idx, val)
        self._src._setpart(self._part, A(self._a, F64))


class Flat:
    def __init__(self, a):
        self.a = a

    def _flatidx(self, idx):
        n = self.a.size
        return rnp.arange(n)[conv_index(idx, (n,))]

    def __getitem__(self, idx):
        i = self._flatidx(idx)
        vals = self.a._a.flat[i]
        if isinstance(i, rnp.ndarray):
            if not isinstance(vals, rnp.ndarray):
                vals = box(vals)
            return A(vals, self.a._dt)
        return mk(vals, self.a._dt)

    def __setitem__(self, idx, val):
        i = self._flatidx(idx)
        k = dk(self.a._dt)
        if isinstance(i, rnp.ndarray):
            v = as_A(val)
            o = conv_arr(v._a, k)
            # flatiter assignment repeats short values
            ofl = o.reshape(-1)
            fi = i.reshape(-1)
            if fi.size and not ofl.size:
                raise ValueError("Error setting flattened array")
            if isinstance(val, (A, rnp.ndarray, list, tuple)) and o.ndim:
                src = [ofl[j % ofl.shape[0]] for j in range(fi.shape[0])]
            else:
                src = [ofl[0]] * fi.shape[0]
            unr = rnp.unravel_index(fi, self.a.shape)
            for j in range(fi.shape[0]):
                self.a._a[tuple(int(u[j]) for u in unr)] = src[j]
        else:
            p = conv(payload(val), k)
            self.a._a[rnp.unravel_index(int(i), self.a.shape)] = p
        if isinstance(self.a, PartView):
            self.a._src._setpart(self.a._part, A(self.a._a, F64))

    def _arr(self):
        return self[:]

    def __iter__(self):
        for v in self.a._a.flat:
            yield mk(v, self.a._dt)

    def __len__(self):
        return self.a.size

    def _A(self):
        return self.a.flatten()

    @property
    def base(self):
        return self.a

    def copy(self):
        return self.a.flatten()


def _keeps0d(idx):
    if idx is Ellipsis:
        return True
    return isinstance(idx, tuple) and any(e is Ellipsis for e in idx)


def sym_mask(idx, arr):
    if isinstance(idx, A) and idx._dt.kind == "b" and idx.ndim <= arr.ndim and idx.shape == arr.shape[: idx.ndim]:
        if any(core.is_z(v) for v in idx._a.flat):
            return idx
    if isinstance(idx, tuple) and len(idx) == 1:
        return sym_mask(idx[0], arr)
    return None


def conv_index(idx, shape=None):
    if isinstance(idx, tuple):
        return tuple(conv_index1(i) for i in idx)
    return conv_index1(idx)


def conv_index1(i):
    if isinstance(i, S):
        k = kind_of(i.v)
        if k == "b":
            return rnp.bool_(core.decide(i.v))
        if k == "i":
            return pick_payload(i.v)
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(i, A):
        k = dk(i._dt)
        if k == "b":
            r = rnp.empty(i.shape, dtype=bool)
            rf, af = r.reshape(-1), i._a.reshape(-1)
            for j in range(af.shape[0]):
                rf[j] = core.decide(af[j])
            return r
        if k == "i":
            r = rnp.empty(i.shape, dtype=rnp.int64)
            rf, af = r.reshape(-1), i._a.reshape(-1)
            for j in range(af.shape[0]):
                rf[j] = pick_payload(af[j])
            return r
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, slice):
        return slice(_sl(i.start), _sl(i.stop), _sl(i.step))
    if isinstance(i, (list,)):
        if not i:
            return []
        return conv_index1(as_A(i))
    if isinstance(i, tuple):
        return conv_index1(as_A(list(i))) if i else ()
    return i


def _sl(x):
    if isinstance(x, (S, A)):
        return x.__index__()
    return x


def to_concrete(x, why, dtype=None):
    """A -> real ndarray, pinning symbolic elements (incomplete)"""
    o = x._a
    k = dk(x._dt)
    vals = rnp.empty(o.shape, dtype=object)
    vf, of = vals.reshape(-1), o.reshape(-1)
    for i in range(of.shape[0]):
        vf[i] = fconc(pin_payload(of[i], why))
    dt = dtype if dtype is not None else x._dt
    if k == "O" and dtype is None:
        return vals
    return vals.astype(dt)


def is_conc(x):
    if isinstance(x, A):
        return not any(core.is_symbolic(v) for v in x._a.flat)
    if isinstance(x, S):
        return not core.is_symbolic(x.v)
    return True


def _flat_op(name):
    def op(self, other):
        return getattr(self._arr(), name)(other._arr() if isinstance(other, Flat) else other)

    return op


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    setattr(Flat, f"__{_n}__", _flat_op(f"__{_n}__"))
    setattr(Flat, f"__r{_n}__", _flat_op(f"__r{_n}__"))
