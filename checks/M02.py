"""resistant_mean."""
from symnp.spec import harness

ASSUMPTIONS = ["resistant_mean: reference rejection thresholds use the same published constants (0.6745 and the sigma polynomial)"]

COEF = [0.020142000000000000, -0.23583999999999999, 0.90722999999999998, -0.15404999999999999]


def _scale(t, dev):
    """deviations over the published truncation polynomial"""
    x = max(float(dev), 1.0)
    return dev / t.np.polyval(t.arr(COEF), x) if dev <= 4.5 else dev


def _away(t, lhs, rhs):
    """lhs and rhs are equal to zero or differ by more than rounding"""
    t.assume(t.Or(t.And(lhs == 0, rhs == 0), lhs >= rhs * (1 + 1e-9) + 1e-12, lhs <= rhs * (1 - 1e-9) - 1e-12))


def _sorted(t, vals):
    s = list(vals)
    n = len(s)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = s[j], s[j + 1]
            s[j], s[j + 1] = t.If(a <= b, a, b), t.If(a <= b, b, a)
    return s


def _median(t, vals):
    s = _sorted(t, vals)
    n = len(s)
    return (s[(n - 1) // 2] + s[n // 2]) / 2


@harness(quick=[dict(n=1, dev=3), dict(n=2, dev=2), dict(n=3, dev=2), dict(n=3, dev=5)], thorough=[dict(n=4, dev=2), dict(n=4, dev=1), dict(n=4, dev=5)], budget=80)
def real_definition(t, n, dev):
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", n, -16, 16)
    keep = x.copy()
    got = u.resistant_mean(x, dev)
    t.eq("data untouched", x, keep)
    m = _median(t, [x[i] for i in range(n)])
    ad = [t.If(x[i] >= m, x[i] - m, m - x[i]) for i in range(n)]
    mad = _median(t, ad) / 0.67449999999999999
    for i in range(n):
        _away(t, ad[i], dev * mad)
    idx = [i for i in range(n) if bool(t.And(ad[i] <= dev * mad))]
    k = len(idx)
    mean1 = sum((x[i] for i in idx), 0) / k
    var1 = sum(((x[i] - mean1) * (x[i] - mean1) for i in idx), 0) / k
    scale = _scale(t, dev)
    for i in range(n):
        _away(t, ad[i] * ad[i], var1 * scale * scale)
    idx2 = [i for i in range(n) if bool(t.And(ad[i] * ad[i] <= var1 * scale * scale))]
    if not idx2:
        return  # everything rejected: undefined mean
    want = sum((x[i] for i in idx2), 0) / len(idx2)
    t.check("mean of the points that survive both cuts", t.near(got, want))


@harness(quick=[dict(n=3)], thorough=[dict(n=4)], budget=60)
def bounded_and_shift(t, n):
    """the result lies between the extremes; shifting the data shifts the result"""
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", n, -16, 16)
    d = t.real("d", None, -16, 16)
    a = u.resistant_mean(x, 2)
    s = _sorted(t, [x[i] for i in range(n)])
    if bool(t.np.isnan(a)):
        return
    t.check("between minimum and maximum", t.And(a >= s[0] - 1e-9, a <= s[-1] + 1e-9))
    c = u.resistant_mean(x * 0 + d, 3)
    t.eq("constant data", c, d)


@harness(quick=[dict(n=2, dev=2, flat=0), dict(n=2, dev=5, flat=0), dict(n=3, dev=2, flat=3)], thorough=[dict(n=3, dev=5, flat=2), dict(n=3, dev=2, flat=2)] + [dict(n=3, dev=2, flat=0), dict(n=3, dev=5, flat=1), dict(n=3, dev=1, flat=1), dict(n=4, dev=2, flat=1), dict(n=4, dev=2, flat=2)], budget=60)
def complex_definition(t, n, dev, flat):
    """complex data: the real median centres, moduli are cut, both parts' spreads add in quadrature"""
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    # flat 0: free, 1: common real part, 2: common imaginary part
    re = t.real("re", n if flat != 1 else 1, -8, 8)
    im = t.real("im", n if flat != 2 else 1, -8, 8)
    if flat == 3:
        im = im * 0
    z = t.np.zeros(n, dtype=t.np.complex128)
    for i in range(n):
        z[i] = re[i if flat != 1 else 0] + 1j * im[i if flat != 2 else 0]
    got = u.resistant_mean(z, dev)
    m = _median(t, [z[i].real for i in range(n)])
    ad = [t.np.abs(z[i] - m) for i in range(n)]
    mad = _median(t, ad) / 0.67449999999999999
    for i in range(n):
        _away(t, ad[i], dev * mad)
    idx = [i for i in range(n) if bool(t.And(ad[i] <= dev * mad))]
    k = len(idx)
    var = 0
    for part in (lambda v: v.real, lambda v: v.imag):
        mu = sum((part(z[i]) for i in idx), 0) / k
        var = var + sum(((part(z[i]) - mu) * (part(z[i]) - mu) for i in idx), 0) / k
    scale = _scale(t, dev)
    for i in range(n):
        _away(t, ad[i] * ad[i], var * scale * scale)
    idx2 = [i for i in range(n) if bool(t.And(ad[i] * ad[i] <= var * scale * scale))]
    if not idx2:
        return
    t.check("real part of the mean of the survivors", t.near(got.real, sum((z[i].real for i in idx2), 0) / len(idx2)))
    t.check("imaginary part of the mean of the survivors", t.near(got.imag, sum((z[i].imag for i in idx2), 0) / len(idx2)))


@harness(quick=[dict(dev=d) for d in (0.5, 1, 2, 3, 4, 4.5, 5)] + [dict(dev=2, n=8)], thorough=[dict(dev=d, two=True) for d in (1, 2, 4)] + [dict(dev=d, n=8) for d in (1, 4)], budget=40)
def one_of_many(t, dev, two=False, n=9):
    """longer samples, of which one value (or two) is any, real or complex"""
    np, u = t.np, t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    base = [1.0, 1.5, 0.75, 1.25, 2.0, 0.5, 1.125, 6.0, -3.5]
    imag = t.choice("imag", [None, 0.25]) if n == 9 else None
    x = np.zeros(n, dtype="float64" if imag is None else "complex128")
    for i, v in enumerate(base[:n]):
        x[i] = v if imag is None else v + 1j * imag * ((3 * i) % 5 - 2)
    hot = t.choice("hot", [3, 7])
    # on one side the median stays in its place
    h = t.real("h", None, 1.5, 12)
    x[hot] = h if imag is None else h + 0.125j
    if two:
        x[1] = t.real("g", None, 1.25, 8)
    keep = x.copy()
    t.split_cases()
    re = [x[i].real for i in range(n)]
    m = _median(t, re)
    m2 = [(x[i].real - m) * (x[i].real - m) + x[i].imag * x[i].imag for i in range(n)]
    if n % 2:
        a2 = _sorted(t, m2)[n // 2] * dev * dev / 0.67449999999999999 ** 2
    else:
        a2 = (_median(t, [t.If(x[i] >= m, x[i] - m, m - x[i]) for i in range(n)]) * dev / 0.67449999999999999) ** 2
    for i in range(n):
        _away(t, m2[i], a2)
    idx = [i for i in range(n) if bool(t.And(m2[i] <= a2))]
    var = 0
    for part in (lambda v: v.real, lambda v: v.imag):
        mu = sum((part(x[i]) for i in idx), 0) / len(idx)
        var = var + sum(((part(x[i]) - mu) * (part(x[i]) - mu) for i in idx), 0) / len(idx)
    scale = _scale(t, dev)
    for i in range(n):
        _away(t, m2[i], var * scale * scale)
    idx2 = [i for i in range(n) if bool(t.And(m2[i] <= var * scale * scale))]
    got = u.resistant_mean(x, dev)
    t.eq("data untouched", x, keep)
    if not idx2:
        return
    t.check("real part of the mean of the survivors", t.near(got.real, sum((x[i].real for i in idx2), 0) / len(idx2)))
    t.check("imaginary part of the mean of the survivors", t.near(got.imag, sum((x[i].imag for i in idx2), 0) / len(idx2)))
