"""idl_median."""
from symnp.spec import harness

ASSUMPTIONS = ["idl_median: real data, odd filter widths smaller than the data"]


def _rank(t, x, n, m):
    """number of elements <= m and >= m"""
    le = sum((t.If(x[i] <= m, 1, 0) for i in range(n)), 0)
    ge = sum((t.If(x[i] >= m, 1, 0) for i in range(n)), 0)
    return le, ge


@harness(quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7)], budget=40)
def plain(t, n):
    """without EVEN the result is the element of rank n//2 (upper middle)"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", n)
    keep = x.copy()
    m = u.idl_median(x)
    t.eq("data untouched", x, keep)
    le, ge = _rank(t, x, n, m)
    t.check("is an element", t.Or(*[m == x[i] for i in range(n)]))
    t.check("rank", t.And(le >= n // 2 + 1, ge >= n - n // 2))


@harness(quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], budget=40)
def even(t, n):
    """with EVEN the two middle elements are averaged"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", n)
    m = u.idl_median(x, even=True)
    s = [x[i] for i in range(n)]
    for i in range(n):  # bubble network
        for j in range(n - 1 - i):
            lo, hi = t.If(s[j] <= s[j + 1], s[j], s[j + 1]), t.If(s[j] <= s[j + 1], s[j + 1], s[j])
            s[j], s[j + 1] = lo, hi
    t.eq("average of the middle", m, (s[(n - 1) // 2] + s[n // 2]) / 2)


@harness(quick=[dict(n=4, w=3), dict(n=5, w=3), dict(n=3, w=1), dict(n=5, w=5)], thorough=[dict(n=7, w=3), dict(n=7, w=5)], budget=60)
def filtering(t, n, w):
    """a width leaves the edges alone and takes window medians inside"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", n)
    keep = x.copy()
    out = u.idl_median(x, width=w)
    t.eq("data untouched", x, keep)
    h = w // 2
    t.check("length", out.size == n)
    for i in range(n):
        if i < h or i >= n - h:
            t.eq("edge left alone", out[i], keep[i])
        else:
            win = [keep[j] for j in range(i - h, i + h + 1)]
            le = sum((t.If(v <= out[i], 1, 0) for v in win), 0)
            ge = sum((t.If(v >= out[i], 1, 0) for v in win), 0)
            t.check("window median", t.And(t.Or(*[out[i] == v for v in win]), le >= h + 1, ge >= h + 1))
