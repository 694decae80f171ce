"""save, load."""
import shutil
import tempfile
from pathlib import Path

import numpy

from checks.h5store import _H5
from symnp.spec import harness

ASSUMPTIONS = [
    "HDF5 (h5py) is replaced by a store which keeps values in their dtype, refuses what h5py refuses and lists names in order; every concrete replay and validation run uses h5py itself",
    "numbers within the range of 64 bit integers and doubles; text in ASCII",
]
IO = "PyFHD.io.pyfhd_io"


KIND = {"float64": "float64", "float32": "float64", "int64": "int64", "int32": "int64", "uint8": "int64", "int16": "int64", "complex128": "complex128", "complex64": "complex128", "bool": "bool"}


def _array(t, name, shape, dtype, hot):
    """an array of a type, one entry of it any value of that type"""
    np = t.np
    a = np.zeros(shape, dtype=dtype)
    n = 1
    for s in shape:
        n *= s
    flat = []
    for k in range(n):
        if k == hot:
            if "complex" in dtype:
                flat.append(t.complex(name, None, -(2**20), 2**20))
            elif "float" in dtype:
                flat.append(t.real(name, None, -(2**20), 2**20))
            elif dtype == "bool":
                flat.append(t.flag(name))
            else:
                lo, hi = {"int64": (-(2**62), 2**62), "int32": (-(2**31), 2**31 - 1), "uint8": (0, 255), "int16": (-(2**15), 2**15 - 1)}[dtype]
                flat.append(t.int(name, None, lo, hi))
        else:
            flat.append({"c": 1.5 - 0.25j * k, "f": 0.5 + k, "b": k % 2 == 0}.get(dtype[0], k))
    for k in range(n):
        if shape:
            a[tuple(int(i) for i in numpy.unravel_index(k, shape))] = flat[k]
    if shape == ():
        return np.array(flat[0]).astype(dtype)
    return a


def _same(t, label, got, want):
    """spec: what a saved value is when loaded"""
    np = t.np
    if want is None:
        t.check(label + " is none", got is None)
    elif isinstance(want, dict):
        t.check(label + " is a dictionary of the same keys", isinstance(got, dict) and sorted(got) == sorted(want))
        for k in want:
            _same(t, label + "." + k, got[k], want[k])
    elif isinstance(want, Path):
        t.check(label + " as text", str(got) == str(want))
    elif isinstance(want, str):
        t.check(label + " as text", isinstance(got, str) and got == want)
    elif isinstance(want, (list, tuple)) and any(isinstance(x, str) for x in want):
        t.check(label + " as list of texts", [str(x) for x in got] == ["" if x is None else str(x) for x in want])
    elif isinstance(want, (list, tuple)) and any(isinstance(x, (list, tuple)) or getattr(x, "shape", ()) != () for x in want):
        t.check(label + " as lists", [len(x) for x in got] == [len(x) for x in want])
        for g, w in zip(got, want):
            for a, b in zip(g, w):
                t.eq(label, a, b)
    elif isinstance(want, (list, tuple)) or getattr(getattr(want, "dtype", None), "kind", "") == "O":
        t.check(label + " has all entries", len(got) == len(want))
        for g, w in zip(got, want):
            if w is None:
                t.check(label + " is nan", bool(np.isnan(np.real(g))))
            else:
                t.eq(label, g, w)
    elif getattr(getattr(want, "dtype", None), "kind", "") in "US" and hasattr(want, "shape") and want.shape:
        t.check(label + " as texts", [str(x) for x in got] == [str(x) for x in want] and not any(isinstance(x, bytes) for x in got))
    elif hasattr(want, "shape") and hasattr(want, "dtype"):
        t.check(label + " has the shape", tuple(got.shape) == tuple(want.shape))
        t.check(label + " has its double precision", str(got.dtype) == KIND[str(want.dtype)])
        t.eq(label, got, want)
    else:
        t.eq(label, got, want)


def _round(t, data, name="thing", logger=True):
    m = t.mod(IO)
    dirp = tempfile.mkdtemp(prefix="s02")
    old = m.h5py
    if t.sym:
        m.h5py = _H5(t)
    try:
        path = Path(dirp, "a.h5")
        m.save(path, data, name, logger=t.logger if logger else None)
        return m.load(path, logger=t.logger if logger else None)
    finally:
        m.h5py = old
        shutil.rmtree(dirp)


SHAPES = [(3,), (2, 2), (1,), (2, 1, 3), (0,), (0, 2), ()]


@harness(
    quick=[dict(dtype=d) for d in ("float64", "complex128", "int64", "bool")] + [dict(dtype="float32", small=True), dict(dtype="int32", small=True), dict(dtype="complex64", small=True), dict(dtype="uint8", small=True)],
    thorough=[dict(dtype=d) for d in ("float32", "int32", "complex64", "int16")],
    budget=40,
)
def arrays(t, dtype, small=False):
    """an array of any values, alone, in a dictionary or in one of its dictionaries"""
    shape = t.choice("shape", SHAPES[:2] + SHAPES[-1:] if small else SHAPES)
    where = t.choice("where", ["alone", "dict", "only", "nested", "only nested"])
    logger = t.choice("logger", [True, False])
    t.split_cases()
    a = _array(t, "x", shape, dtype, 0 if len(shape) < 2 else 1)
    keep = a.copy()
    data = {"alone": a, "dict": {"a": a, "other": 3}, "only": {"a": a}, "nested": {"n": {"a": a, "deep": {"b": a}}, "z": None}, "only nested": {"n": {"a": a}}}[where]
    got = _round(t, data, logger=logger)
    if where in ("alone", "only"):
        # a file of one array is that array
        got = got["a"] if isinstance(got, dict) else got
        _same(t, "array", got, keep)
    else:
        _same(t, "entry", got, {"dict": {"a": keep, "other": 3}, "nested": {"n": {"a": keep, "deep": {"b": keep}}, "z": None}, "only nested": {"n": {"a": keep}}}[where])
    t.eq("saved array untouched", a, keep)


def _values(t, k):
    np = t.np
    arr = np.array
    vals = [
        lambda: t.real("x", None, -(2**20), 2**20),
        lambda: t.int("i", None, -(2**62), 2**62),
        lambda: t.complex("c", None, -8, 8),
        lambda: t.flag("b"),
        lambda: "mwa",
        lambda: "",
        lambda: None,
        lambda: Path("/data/106.uvfits"),
        lambda: [t.real("x", None, -8, 8), 2.0, -1.0],
        lambda: [t.int("i", None, -(2**40), 2**40), 2],
        lambda: ["XX", "YY", "XY"],
        lambda: ["XX", None],
        lambda: [0.1, None, 3.0],
        lambda: [],
        lambda: [True, False],
        lambda: [[2, 1], [3, -4.5, 0], [0]],
        lambda: [[t.real("x", None, -8, 8), 2.0], [3.0, 4.0]],
        lambda: numpy.array(["Tile1", "Tile22"]),
        lambda: numpy.array([1.1, None, 2.0], dtype=object),
        lambda: numpy.array([1.1 + 0.1j, None], dtype=object),
        lambda: numpy.array(["a", None], dtype=object),
        lambda: numpy.str_("text"),
        lambda: {},
        lambda: {"x": None, "y": "s", "z": {"q": [1, 2], "r": {}}},
        lambda: arr([t.real("x", None, -8, 8), float("nan"), float("inf")]),
        lambda: [[1, 2], [t.real("x", None, -8, 8), 2.0, 1.0]],
        lambda: [[1.5], [t.int("i", None, -(2**40), 2**40), 3]],
        lambda: [arr([2.0 + 1j]), arr([t.real("x", None, -8, 8), 2.0]), arr([1, 2, 3])],
        lambda: [[], [t.int("i", None, -(2**40), 2**40)]],
    ]
    return vals[k]()


N_VALUES = 29


@harness(quick=[dict(group=g) for g in range(3)], thorough=[dict(group=None)], budget=60)
def values(t, group):
    """an entry of any kind next to others, on its own, or in a dictionary of a dictionary"""
    k = t.choice("kind", [i for i in range(N_VALUES) if group is None or i % 3 == group])
    where = t.choice("where", ["dict", "only", "nested"])
    t.split_cases()
    v = _values(t, k)
    want = v.copy() if isinstance(v, numpy.ndarray) else v
    if getattr(want, "dtype", None) is not None and getattr(want.dtype, "kind", "") == "O" and any(isinstance(x, str) for x in want):
        want = list(want)
    elif isinstance(v, list) and v and not any(x is None or isinstance(x, (str, list)) for x in v) and not hasattr(v[0], "shape"):
        want = t.np.array(v)
    if isinstance(v, list) and v and isinstance(v[0], list) and len({len(x) for x in v}) == 1:
        want = t.np.array(v)
    if isinstance(v, list) and not v:
        want = t.np.zeros(0)
    data = {"dict": {"k": v, "other": "text"}, "only": {"k": v}, "nested": {"n": {"m": {"k": v}, "o": 1}, "p": "q"}}[where]
    got = _round(t, data)
    if where == "dict":
        t.check("entries", sorted(got) == ["k", "other"] and got["other"] == "text")
        _same(t, "entry", got["k"], want)
    elif where == "nested":
        t.check("entries", sorted(got) == ["n", "p"] and got["p"] == "q" and sorted(got["n"]) == ["m", "o"] and sorted(got["n"]["m"]) == ["k"])
        t.eq("number next to it", got["n"]["o"], 1)
        _same(t, "entry", got["n"]["m"]["k"], want)
    else:
        if isinstance(v, dict):
            got = got["k"]
        elif isinstance(got, dict):
            got = got["k"]
        _same(t, "entry", got, want)


@harness(quick=[dict()], budget=30)
def replaced(t):
    """what a file held before is gone, however much it is"""
    np, m = t.np, t.mod(IO)
    n_old, n_new = t.choice("entries", [(9, 9), (9, 2), (2, 9), (0, 9), (9, 0), (0, 0), (30, 31)])
    x = t.real("x", (3,), -8, 8)

    def data(n, k):
        if n == 0:
            return np.zeros((2, 2)) if k else x
        d = {"k%d" % i: float(i + k) for i in range(n)}
        d["x"] = np.ones(4) if k else x
        d["n"] = {"old": 1, "v": 2.0} if k else {"v": 3.0}
        return d

    dirp = tempfile.mkdtemp(prefix="s02")
    old = m.h5py
    if t.sym:
        m.h5py = _H5(t)
    try:
        path = Path(dirp, "a.h5")
        m.save(path, data(n_old, 1), "thing")
        m.save(path, data(n_new, 0), "thing")
        got = m.load(path)
    finally:
        m.h5py = old
        shutil.rmtree(dirp)
    _same(t, "what was saved last", got, data(n_new, 0))


@harness(quick=[dict(dtype="float64"), dict(dtype="complex64")], thorough=[dict(dtype="int32")], budget=30)
def chunked(t, dtype):
    """a chunked entry, read whole or as it is needed"""
    np, m = t.np, t.mod(IO)
    where = t.choice("where", ["dict", "nested"])
    chunk = t.choice("chunk", [True, (1, 2)])
    a = _array(t, "x", (2, 2), dtype, 1)
    if dtype == "float64":
        a[1, 1] = t.choice("last", [1.0, float("nan"), float("-inf")])
    data = {"k": a, "other": 1} if where == "dict" else {"n": {"k": a}, "other": 1}
    dirp = tempfile.mkdtemp(prefix="s02")
    old = m.h5py
    if t.sym:
        m.h5py = _H5(t)
    try:
        path = Path(dirp, "a.h5")
        m.save(path, {"older": np.zeros(3), "k": "text"}, "old")
        m.save(path, data, "name", to_chunk={"k": {"shape": (2, 2), "chunk": chunk}})
        whole = m.load(path)
        lazy = m.load(path, lazy_load=True)
        entry = lazy["k"] if where == "dict" else lazy["n"]["k"]
        t.check("read as needed", not isinstance(lazy, dict) and sorted(lazy.keys()) == sorted(data))
        t.eq("row read as needed", entry[1], a[1])
        t.eq("all read as needed", entry[:], a)
        lazy.close()
    finally:
        m.h5py = old
        shutil.rmtree(dirp)
    _same(t, "entry", whole, data)
