"""conjugate_mirror, crosspol_reformat, crosspol_split_real_imaginary, interpolate_kernel."""
from symnp.spec import harness


@harness(quick=[dict(r=4, c=4), dict(r=2, c=3)], thorough=[dict(r=6, c=6), dict(r=5, c=4)], budget=30)
def mirror(t, r, c):
    g = t.mod("PyFHD.gridding.gridding_utils")
    a = t.complex("a", (r, c), -8, 8)
    x = t.real("x", (r, c), -8, 8)
    ka = a.copy()
    m, mx = g.conjugate_mirror(a), g.conjugate_mirror(x)
    t.eq("image untouched", a, ka)
    for i in range(r):
        for j in range(c):
            t.eq("conjugate of the opposite pixel", m[i, j], t.np.conj(a[-i % r, -j % c]))
            t.eq("real images are only mirrored", mx[i, j], x[-i % r, -j % c])
    t.eq("twice is the identity", g.conjugate_mirror(m), a)
    h = (a + m) / 2
    t.eq("the mean with the mirror is hermitian", g.conjugate_mirror(h), h)


@harness(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=4)], budget=30)
def crosspol(t, n):
    """cross polarisations become half the difference of XY and the mirrored YX, and its mirror"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    a = t.complex("a", (4, n, n), -8, 8)
    k = a.copy()
    out = g.crosspol_reformat(a)
    for i in range(n):
        for j in range(n):
            t.eq("XX and YY stay", out[0, i, j], k[0, i, j])
            t.eq("XX and YY stay", out[1, i, j], k[1, i, j])
            c = (k[2, i, j] - t.np.conj(k[3, -i % n, -j % n])) / 2
            t.eq("third", out[2, i, j], c)
            t.eq("fourth is the mirror of the third", t.np.conj(out[3, -i % n, -j % n]), c)


@harness(quick=[dict(n=2)], thorough=[dict(n=3)], budget=30)
def split(t, n):
    """the complex third plane is split in its real and imaginary parts"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.complex("a", (4, n, n), -8, 8)
    k = a.copy()
    names = t.choice("names", [None, ["XX", "YY", "XY", "YX"]])
    out, nm = u.crosspol_split_real_imaginary(a, list(names) if names else None)
    t.eq("first two stay", out[:2], k[:2])
    t.eq("real part", out[2], k[2].real)
    t.eq("imaginary part", out[3], k[2].imag)
    t.check("names", nm == (["XX", "YY", "XY_real", "XY_imag"] if names else None))


@harness(quick=[dict(res=2, n=4)], thorough=[dict(res=3, n=4)], budget=30)
def kernel(t, res, n):
    """bilinear interpolation between four neighbouring kernels; exact at the nodes; reproduces affine kernels"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    k = t.complex("k", (res + 1, res + 1, n), -8, 8)
    keep = k.copy()
    x, y = t.choice("x", range(res)), t.choice("y", range(res))
    dx, dy = t.real("dx", None, 0, 1), t.real("dy", None, 0, 1)
    got = g.interpolate_kernel(k, x, y, (1 - dx) * (1 - dy), dx * (1 - dy), (1 - dx) * dy, dx * dy)
    t.eq("kernel untouched", k, keep)
    for i in range(n):
        low = keep[y, x, i] + (keep[y, x + 1, i] - keep[y, x, i]) * dx
        up = keep[y + 1, x, i] + (keep[y + 1, x + 1, i] - keep[y + 1, x, i]) * dx
        t.eq("bilinear value", got[i], low + (up - low) * dy)
