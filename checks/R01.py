"""rebin: expansion interpolates, compression averages, sampling repeats."""
from symnp.spec import harness

ASSUMPTIONS = ["rebin: shapes that expand one axis of a many-row array while compressing the other are outside the claim"]


def _lin(t, v, k):
    """reference: expand a list of values k times with linear interpolation, last value repeated"""
    out = []
    for i in range(len(v)):
        nxt = v[i + 1] if i + 1 < len(v) else v[i]
        for j in range(k):
            out.append((v[i], nxt, j))
    return out


@harness(quick=[dict(r=2, c=3, kr=2, kc=2), dict(r=3, c=2, kr=3, kc=1), dict(r=2, c=2, kr=1, kc=3)], thorough=[dict(r=3, c=4, kr=3, kc=4), dict(r=4, c=3, kr=1, kc=5)], budget=30)
def expand_matrix(t, r, c, kr, kc):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", (r, c))
    got = u.rebin(a, (r * kr, c * kc))
    t.check("shape", tuple(got.shape) == (r * kr, c * kc))
    for i in range(r * kr):
        for j in range(c * kc):
            r0, fr = i // kr, i % kr
            c0, fc = j // kc, j % kc
            r1, c1 = min(r0 + 1, r - 1), min(c0 + 1, c - 1)
            left = a[r0, c0] + (a[r1, c0] - a[r0, c0]) * fr / kr
            right = a[r0, c1] + (a[r1, c1] - a[r0, c1]) * fr / kr
            t.eq("bilinear value", got[i, j], left + (right - left) * fc / kc)


@harness(quick=[dict(c=3, kc=2, rows=1), dict(c=3, kc=4, rows=2)], thorough=[dict(c=5, kc=4, rows=1), dict(c=4, kc=3, rows=3)], budget=30)
def expand_vector(t, c, kc, rows):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", c)
    got = u.rebin(a, (rows, c * kc))
    if rows == 1:
        got = got.reshape((1, c * kc))
    for i in range(rows):
        for j in range(c * kc):
            c0, fc = j // kc, j % kc
            c1 = min(c0 + 1, c - 1)
            t.eq("linear value", got[i, j], a[c0] + (a[c1] - a[c0]) * fc / kc)


@harness(quick=[dict(r=2, c=2, kr=2, kc=2), dict(r=1, c=3, kr=1, kc=3)], thorough=[dict(r=2, c=3, kr=3, kc=2)], budget=40)
def expand_integers(t, r, c, kr, kc):
    """integers: each interpolation step is rounded down"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.int("a", (r, c), -6, 6)
    got = u.rebin(a[0] if r == 1 else a, (r * kr, c * kc))
    if r == 1:
        got = got.reshape((1, c * kc))
    for i in range(r * kr):
        for j in range(c * kc):
            r0, fr, c0, fc = i // kr, i % kr, j // kc, j % kc
            r1, c1 = min(r0 + 1, r - 1), min(c0 + 1, c - 1)
            left = a[r0, c0] + ((a[r1, c0] - a[r0, c0]) * fr) // kr
            right = a[r0, c1] + ((a[r1, c1] - a[r0, c1]) * fr) // kr
            t.check("floored interpolation", got[i, j] == left + ((right - left) * fc) // kc)


@harness(quick=[dict(r=2, c=2, kr=2, kc=3), dict(r=1, c=2, kr=3, kc=2), dict(r=3, c=2, kr=1, kc=2)], thorough=[dict(r=3, c=3, kr=3, kc=3)], budget=30)
def compress_matrix(t, r, c, kr, kc):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", (r * kr, c * kc)) if t.choice("complex", [0, 1]) == 0 else t.complex("z", (r * kr, c * kc))
    got = u.rebin(a, (r, c))
    if r == 1:
        t.check("one row comes back as a vector", tuple(got.shape) == (c,))
        got = got.reshape((1, c))
    for i in range(r):
        for j in range(c):
            s = 0
            for p in range(kr):
                for q in range(kc):
                    s = s + a[i * kr + p, j * kc + q]
            t.eq("block average", got[i, j], s / (kr * kc))


@harness(quick=[dict(r=2, c=1, kr=2, kc=2)], thorough=[dict(r=2, c=2, kr=2, kc=3)], budget=40)
def compress_integers(t, r, c, kr, kc):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.int("a", (r * kr, c * kc), -6, 6)
    got = u.rebin(a, (r, c))

    def fix(num, den):
        return t.If(num >= 0, num // den, -((-num) // den))

    for i in range(r):
        for j in range(c):
            s = 0
            for p in range(kr):
                row = 0
                for q in range(kc):
                    row = row + a[i * kr + p, j * kc + q]
                s = s + fix(row, kc)
            t.check("truncated twice", got[i, j] == fix(s, kr))


@harness(quick=[dict(n=6, m=m) for m in (2, 3, 6)], thorough=[dict(n=12, m=m) for m in (2, 3, 4, 6, 12)], budget=20)
def compress_vector(t, n, m):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", n)
    got = u.rebin(a, (1, n // m))
    rows = u.rebin(a, (3, n // m)) if m > 1 else None
    for j in range(n // m):
        s = 0
        for q in range(m):
            s = s + a[j * m + q]
        t.eq("average", got.reshape(-1)[j], s / m)
        if rows is not None:
            for i in range(3):
                t.eq("average on every new row", rows[i, j], s / m)


@harness(quick=[dict(r=2, c=2, kr=2, kc=3), dict(r=2, c=2, kr=-2, kc=2), dict(r=1, c=2, kr=2, kc=-2), dict(r=2, c=2, kr=-2, kc=-3), dict(r=1, c=3, kr=1, kc=2), dict(r=3, c=2, kr=1, kc=-2), dict(r=2, c=3, kr=-2, kc=1), dict(r=1, c=2, kr=1, kc=3), dict(r=1, c=2, kr=3, kc=3, flat=False), dict(r=1, c=2, kr=1, kc=-2, flat=False), dict(r=1, c=3, kr=2, kc=1), dict(r=1, c=2, kr=1, kc=2, flat=False)], budget=20)
def sampling(t, r, c, kr, kc, flat=True):
    """negative factor = compress by it"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    ir, ic = (r * -kr if kr < 0 else r), (c * -kc if kc < 0 else c)
    nr, nc = (r if kr < 0 else r * kr), (c if kc < 0 else c * kc)
    a = t.real("a", (ir, ic))
    if ir == 1:
        got = u.rebin(a[0] if flat else a, (nr, nc), sample=True)
        if nr == 1:
            got = got.reshape((1, nc))
    else:
        got = u.rebin(a, (nr, nc), sample=True)
    t.check("shape", tuple(got.shape) == (nr, nc))
    for i in range(nr):
        for j in range(nc):
            t.eq("nearest earlier sample", got[i, j], a[i * ir // nr, j * ic // nc])


@harness(quick=[dict()], budget=20)
def rejects_non_factors(t):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", (2, 4))
    shape = t.choice("shape", [(3, 4), (2, 6), (2, 3), (4, 3), (5, 8), (5, 4), (2, 9)])
    try:
        u.rebin(a, shape)
        ok = False
    except ValueError:
        ok = True
    t.check("ValueError for a shape that is not a factor or a multiple", ok)
    t.eq("same shape is the identity", u.rebin(a, (2, 4)), a)
