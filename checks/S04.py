"""recarray_to_dict."""
import numpy

from symnp.spec import harness

ASSUMPTIONS = ["structures are built as SciPy's readsav builds them: fields of numbers with their type, everything else in object arrays"]
IO = "PyFHD.io.pyfhd_io"


def _objects(shape, values):
    """object array of the values, which are left as they are"""
    a = numpy.empty(shape, dtype=object)
    for k, v in enumerate(values):
        a[tuple(int(i) for i in numpy.unravel_index(k, shape))] = v
    return a


def _record(fields):
    """structure of one row"""
    r = numpy.empty(1, dtype=[(name, v.dtype if isinstance(v, numpy.generic) else object) for name, v in fields.items()])
    for name, v in fields.items():
        r[name] = v if isinstance(v, numpy.generic) else _objects((1,), [v])
    return r.view(numpy.recarray)


def _leaf(t, shape, hot, base, dtype="float64"):
    np = t.np
    a = np.zeros(shape, dtype=dtype)
    n = 1
    for s in shape:
        n *= s
    for k in range(n):
        v = base + k + (0.5j * k if dtype == "complex128" else 0)
        if k == hot:
            v = t.complex("x", None, -8, 8) if dtype == "complex128" else t.int("x", None, -99, 99) if dtype == "int64" else t.real("x", None, -8, 8)
        a[tuple(int(i) for i in numpy.unravel_index(k, shape))] = v
    return a


def _same(t, label, got, want):
    t.check(label + ": shape", tuple(got.shape) == tuple(want.shape))
    t.check(label + ": type", got.dtype == want.dtype)
    t.eq(label, got, want)


DTYPES = ["float64", "int64", "complex128"]


@harness(quick=[dict(shape=s) for s in ((4,), (1,), (2, 3), (1, 3), (2, 1, 2))], thorough=[dict(shape=(3, 2, 2, 2))], budget=30)
def fields(t, shape):
    """fields of a structure: arrays as they are, numbers alone, texts decoded, structures as dictionaries"""
    m = t.mod(IO)
    n = 1
    for s in shape:
        n *= s
    a = _leaf(t, shape, n - 1, 2.0, t.choice("type", DTYPES))
    b = _leaf(t, (3,), None, 7.0)
    depth = t.choice("depth", [0, 1, 2])
    y = t.real("y", None, -8, 8)
    inner = {"ARR": a, "Num": 2.5, "Any": y, "NAME": b" tile", "other": b, "COUNT": numpy.array([-7], dtype=">i2")[0], "Size": numpy.array([0.5], dtype=">f4")[0]}
    rec = _record(inner)
    for _ in range(depth):
        rec = _record({"SUB": rec, "SIDE": b})
    keep = a.copy()
    how = t.choice("how", ["record", "dictionary", "named"])
    if how == "record":
        out = m.recarray_to_dict(rec)
    else:
        # as readsav gives it: variables by name
        out = m.recarray_to_dict({"one": rec, "two": b.copy()} if how == "named" else {"one": rec})
        t.check("variables", sorted(out) == (["one", "two"] if how == "named" else ["one"]))
        if how == "named":
            _same(t, "variable", out["two"], b)
        out = out["one"]
    for _ in range(depth):
        t.check("a dictionary", isinstance(out, dict) and sorted(out) == ["side", "sub"])
        _same(t, "next to a structure", out["side"], b)
        out = out["sub"]
    t.check("names in lower case", isinstance(out, dict) and sorted(out) == ["any", "arr", "count", "name", "num", "other", "size"])
    _same(t, "array", out["arr"], keep)
    _same(t, "other array", out["other"], b)
    t.check("numbers", out["num"] == 2.5 and out["count"] == -7 and out["size"] == 0.5)
    t.eq("number", out["any"], y)
    t.check("text", out["name"].strip() == "tile")


@harness(
    quick=[dict(outer=(2,), inner=(3,)), dict(outer=(3,), inner=(2, 2)), dict(outer=(2, 2), inner=(2,)), dict(outer=(2, 3), inner=(1, 2)), dict(outer=(2,), inner=(1,)), dict(outer=(2,), inner=(2,), more=(2,)), dict(outer=(2, 2), inner=(2,), more=(3,))],
    thorough=[dict(outer=(2, 2), inner=(2, 2), more=(2,)), dict(outer=(3, 2, 2), inner=(2,))],
    budget=40,
)
def pointers(t, outer, inner, more=None):
    """arrays of equal arrays become one array"""
    np, m = t.np, t.mod(IO)
    dtype = t.choice("type", DTYPES)
    count = int(numpy.prod(outer))
    mid = int(numpy.prod(more)) if more else 1
    leaves = [[_leaf(t, inner, 0 if (i, j) == (count - 1, mid - 1) else None, 10.0 * i + 3.0 * j, dtype) for j in range(mid)] for i in range(count)]
    want = np.zeros(tuple(outer) + tuple(more or ()) + tuple(inner), dtype=dtype)
    for i in range(count):
        for j in range(mid):
            at = tuple(int(x) for x in numpy.unravel_index(i, outer))
            if more:
                at = at + tuple(int(x) for x in numpy.unravel_index(j, more))
            want[at] = leaves[i][j]
    items = [_objects(more, leaves[i]) if more else leaves[i][0] for i in range(count)]
    arr = _objects(outer, items)
    if t.choice("how", ["record", "dictionary"]) == "record":
        out = m.recarray_to_dict(_record({"PTR": arr, "N": 3}))
        t.check("number next to it", out["n"] == 3)
    else:
        out = m.recarray_to_dict({"ptr": arr})
    _same(t, "one array of all", out["ptr"], want)


@harness(quick=[dict(n=3, length=2), dict(n=2, length=1)], thorough=[dict(n=5, length=3)], budget=30)
def missing(t, n, length):
    """missing arrays become NaN, as do values of which all are missing; different lengths are kept as a list; texts are decoded"""
    np, m = t.np, t.mod(IO)
    case = t.choice("case", ["some", "all", "lengths", "texts"])
    if case == "some":
        gone = t.choice("gone", list(range(1, n)))
        leaves = [None if k == gone else _leaf(t, (length,), length - 1 if k == 0 else None, 4.0 * k) for k in range(n)]
        got = m.recarray_to_dict({"a": _objects((n,), leaves)})["a"]
        t.check("shape", tuple(got.shape) == (n, length))
        for k in range(n):
            if k == gone:
                t.check("missing", bool(np.all(np.isnan(got[k]))))
            else:
                t.eq("present", got[k], leaves[k])
    elif case == "all":
        got = m.recarray_to_dict({"a": _objects((n,), [None] * n)})["a"]
        t.check("all missing", got.dtype == "float64" and tuple(got.shape) == (n,) and bool(np.all(np.isnan(got))))
    elif case == "lengths":
        leaves = [_objects((k + 1,), [_leaf(t, (length,), 0 if k == 1 and j == 0 else None, 4.0 * k + j) for j in range(k + 1)]) for k in range(n)]
        got = m.recarray_to_dict({"a": _objects((n,), leaves)})["a"]
        t.check("as many", len(got) == n)
        for k in range(n):
            for j in range(k + 1):
                t.eq("kept", got[k][j], leaves[k][j])
    else:
        names = [b"Tile%d  " % k for k in range(n)]
        got = m.recarray_to_dict(_record({"NAMES": _objects((n,), names)}))["names"]
        t.check("texts", [str(x) for x in got] == [f"Tile{k}" for k in range(n)])
