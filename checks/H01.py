"""Histogram / reverse indices."""
from symnp.spec import harness

ASSUMPTIONS = ["histogram: finite data, min <= max, bin size positive, num_bins harness keeps data strictly below the maximum"]


def _verify(t, data, n, hist, bins, ri, lo, hi, width, strict_len=True):
    """hist/ri describe exactly the in-range data, grouped by [bin, bin+width)"""
    nb = len(hist)
    t.check("one edge per bin", len(bins) == nb)
    t.check("first vector starts after itself", ri[0] == nb + 1)
    inr = [t.And(data[i] >= lo, data[i] <= hi) for i in range(n)]
    tot = sum((t.If(c, 1, 0) for c in inr), 0)
    t.check("every in-range datum counted once", hist.sum() == tot)
    t.check("length", len(ri) == nb + 1 + tot)
    seen = []
    for k in range(nb):
        t.check("edge", t.near(bins[k], lo + k * width))
        t.check("group size = count", ri[k + 1] - ri[k] == hist[k])
        grp = [int(x) for x in ri[int(ri[k]) : int(ri[k + 1])]]
        t.check("input order kept", grp == sorted(grp))
        for i in grp:
            t.check("member is in range", inr[i])
            # the last bin also takes the maximum itself
            t.check("member is in its bin", t.And(data[i] >= bins[k], data[i] < bins[k] + width))
        seen += grp
    t.check("no datum in two groups", len(seen) == len(set(seen)))


@harness(quick=[dict(n=3, r=3), dict(n=1, r=3)], thorough=[dict(n=4, r=4), dict(n=5, r=2)], budget=40)
def integers_default_range(t, n, r):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.int("d", n, -r, r)
    hist, bins, ri = u.histogram(d)
    lo, hi = d[0], d[0]
    for i in range(1, n):
        lo, hi = t.If(d[i] < lo, d[i], lo), t.If(d[i] > hi, d[i], hi)
    t.check("covers the data range", t.And(bins[0] == lo, bins[-1] == hi))
    _verify(t, d, n, hist, bins, ri, lo, hi, 1)


@harness(quick=[dict(n=3, r=3)], thorough=[dict(n=4, r=4)], budget=40)
def integers_explicit_range(t, n, r):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.int("d", n, -r, r)
    lo = t.choice("lo", [-1, 0, 2])
    hi = t.choice("hi", [2, 4])
    hist, bins, ri = u.histogram(d, min=lo, max=hi)
    _verify(t, d, n, hist, bins, ri, lo, hi, 1)


@harness(quick=[dict(n=2, widths=(1, 2), his=(3,)), dict(n=2, widths=(5,), his=(3, 6, 10))], thorough=[dict(n=3, widths=(1, 2, 5), his=(3, 6, 10))], budget=40)
def reals_wide_bins(t, n, widths, his):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.real("d", n, -4, 12)
    width = t.choice("width", widths)
    lo = t.choice("lo", [0, -1])
    hi = t.choice("hi", his)
    hist, bins, ri = u.histogram(d, bin_size=width, min=lo, max=hi)
    _verify(t, d, n, hist, bins, ri, lo, hi, width)


@harness(quick=[dict(n=3)], thorough=[dict(n=4)], budget=40)
def reals_data_range(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.real("d", n, 0, 4)
    width = t.choice("width", [1, 2])
    hist, bins, ri = u.histogram(d, bin_size=width)
    lo, hi = d[0], d[0]
    for i in range(1, n):
        lo, hi = t.If(d[i] < lo, d[i], lo), t.If(d[i] > hi, d[i], hi)
    _verify(t, d, n, hist, bins, ri, lo, hi, width)


@harness(quick=[dict(n=3)], thorough=[dict(n=4)], budget=40)
def matrix_is_flattened(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.int("d", (2, 2), 0, 2)
    if t.choice("transposed", [False, True]):
        d = d.T
    flat = d[0, 0] + t.np.zeros(4, dtype="int64")
    flat[1], flat[2], flat[3] = d[0, 1], d[1, 0], d[1, 1]
    h1, b1, r1 = u.histogram(d, min=0, max=2)
    h2, b2, r2 = u.histogram(flat, min=0, max=2)
    t.eq("hist", h1, h2)
    t.eq("bins", b1, b2)
    t.eq("ri", r1, r2)


@harness(quick=[dict(n=300, hi=3), dict(n=40, hi=400)], thorough=[dict(n=70000, hi=3), dict(n=300, hi=70000)], budget=40, validate=2)
def many(t, n, hi):
    """more entries, or bins, than the smallest integers can count"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d = t.np.array([(5 * i + i // 7) % (hi + 1) for i in range(n)])
    at = t.choice("at", [0, n - 2])
    d[at] = t.choice("base", [0, hi - 1]) + t.int("value", None, 0, 1)
    hist, bins, ri = u.histogram(d, min=0, max=hi)
    vals = [int(x) for x in d]
    groups = [[] for _ in range(hi + 1)]
    for i, x in enumerate(vals):
        groups[x].append(i)
    t.check("one bin per value", [int(x) for x in bins] == list(range(hi + 1)))
    t.check("counts", [int(x) for x in hist] == [len(g) for g in groups])
    t.check("length", len(ri) == hi + 2 + n)
    ri = [int(x) for x in ri]
    for k in range(hi + 1):
        t.check("members in input order", ri[ri[k] : ri[k + 1]] == groups[k])
