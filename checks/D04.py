"""dirty_image_generate and filter_uv_uniform."""
from math import pi

from checks.common import PLACES, locate, make_obs
from symnp.spec import harness

ASSUMPTIONS = ["images: sides of 2, 4 and 6 pixels (exact or tightly bounded Fourier factors); smoothing widths 1 and 3"]
TOL = 1e-9

CFG = {"image_filter": "filter_uv_uniform"}
_C = {0: 1, 1: -1j, 2: -1, 3: 1j}


def _tw(k, n):
    """exp(-2 pi i k / n), exact for n dividing 4"""
    k %= n
    if 4 % n == 0:
        return _C[k * (4 // n)]
    import cmath

    return cmath.exp(-2j * cmath.pi * k / n)


def _image(uv, el, dim):
    """spec: both planes are centred on pixel n / 2, forward normalisation"""
    out = {}
    for y in range(el):
        for x in range(dim):
            s = 0
            for v in range(el):
                for u in range(dim):
                    s = s + uv[v][u] * (_tw((v - el // 2) * (y - el // 2), el) * _tw((u - dim // 2) * (x - dim // 2), dim))
            out[y, x] = s / (el * dim)
    return out


def _rows(a, el, dim):
    return [[a[i, j] for j in range(dim)] for i in range(el)]


@harness(
    quick=[dict(el=4, dim=4), dict(el=2, dim=4), dict(el=4, dim=2)],
    thorough=[dict(el=6, dim=4), dict(el=4, dim=6), dict(el=6, dim=6)],
    budget=60,
)
def transform(t, el, dim):
    """centred Fourier transform, mask, filter, pixel area and normalisation; the uv plane stays as it is"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    a = t.complex("a", (el, dim), -8, 8)
    keep = a.copy()
    cplx = t.flag("complex")
    kw = {}
    uv = _rows(keep, el, dim)
    extra = t.choice("extra", ["none", "mask", "filter", "degpix", "normalization", "all"])
    m, f = t.real("m", (el, dim), -2, 2), t.real("f", (el, dim), -2, 2)
    km, kf = m.copy(), f.copy()
    scale = 1
    if extra in ("mask", "all"):
        kw["mask"] = m
        uv = [[uv[i][j] * km[i, j] for j in range(dim)] for i in range(el)]
    if extra in ("filter", "all"):
        kw["filter"] = f
        uv = [[uv[i][j] * kf[i, j] for j in range(dim)] for i in range(el)]
    if extra in ("degpix", "all"):
        kw["degpix"] = 0.5
        scale = 1 / (0.5 * pi / 180) ** 2
    if extra in ("normalization", "all"):
        kw["normalization"] = 0.25
        scale = scale * 0.25
    img, filt, norm = g.dirty_image_generate(a, CFG, t.logger, not_real=cplx, **kw)
    t.eq("uv plane untouched", a, keep)
    t.eq("mask untouched", m, km)
    t.eq("filter untouched", f, kf)
    t.check("filter and normalisation are handed back", (filt is kw.get("filter")) and norm == kw.get("normalization"))
    want = _image(uv, el, dim)
    for (y, x), w in want.items():
        w = w * scale
        t.eq("image", img[y, x], w if cplx else w.real, TOL * (1 if scale == 1 else 1e5))


@harness(
    quick=[dict(el=6, dim=6, smooth=1), dict(el=4, dim=6, smooth=3), dict(el=6, dim=4, smooth=3), dict(el=6, dim=4, smooth=2)],
    thorough=[dict(el=6, dim=8, smooth=3), dict(el=8, dim=6, smooth=5)],
    budget=60,
)
def baseline_cut(t, el, dim, smooth):
    """pixels on the wrong side of the threshold are masked, the mask is box averaged away from the edges"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    a = t.complex("a", (el, dim), -8, 8)
    keep = a.copy()
    th = t.choice("threshold", [0, 1.5, 2, -1.5, -2])
    img, _, _ = g.dirty_image_generate(a, CFG, t.logger, baseline_threshold=th, width_smooth=smooth, not_real=True)
    r2 = [[(x - dim / 2) ** 2 + (y - el / 2) ** 2 for x in range(dim)] for y in range(el)]
    m = [[0.0 if (r2[y][x] < th * th if th >= 0 else r2[y][x] > th * th) else 1.0 for x in range(dim)] for y in range(el)]
    k = smooth if smooth % 2 else smooth + 1
    h = k // 2
    s = [row[:] for row in m]
    for y in range(h, el - h):
        for x in range(h, dim - h):
            s[y][x] = sum(m[y + i][x + j] for i in range(-h, h + 1) for j in range(-h, h + 1)) / k**2
    uv = [[keep[y, x] * s[y][x] for x in range(dim)] for y in range(el)]
    for (y, x), w in _image(uv, el, dim).items():
        t.eq("image of the masked plane", img[y, x], w, 1e-8)


@harness(quick=[dict(n=4, pad=2), dict(n=2, pad=3)], thorough=[dict(n=4, pad=3)], budget=60)
def padding(t, n, pad):
    """padding surrounds the plane by zeros and scales it by the new area"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    a = t.complex("a", (n, n), -8, 8)
    img, _, _ = g.dirty_image_generate(a, CFG, t.logger, pad_uv_image=pad, not_real=True)
    p = n // 2 * (pad - 1)
    big = n + 2 * p
    t.check("size", tuple(img.shape) == (big, big))
    uv = [[a[y - p, x - p] * pad**2 if p <= y < p + n and p <= x < p + n else 0 * a[0, 0] for x in range(big)] for y in range(big)]
    for (y, x), w in _image(uv, big, big).items():
        t.eq("image of the padded plane", img[y, x], w, 1e-8)


@harness(quick=[dict(n=2, k=2)], thorough=[dict(n=2, k=3), dict(n=4, k=2)], budget=60)
def resizing(t, n, k):
    """resizing interpolates both parts of the plane before the transform"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.complex("a", (n, n), -8, 8)
    img, _, _ = g.dirty_image_generate(a, CFG, t.logger, resize=k, not_real=True)
    re, im = u.rebin(a.real.copy(), (n * k, n * k)), u.rebin(a.imag.copy(), (n * k, n * k))
    uv = [[re[y, x] + 1j * im[y, x] for x in range(n * k)] for y in range(n * k)]
    for (y, x), w in _image(uv, n * k, n * k).items():
        t.eq("image of the resized plane", img[y, x], w, 1e-8)


@harness(quick=[dict(el=2, dim=2, src=0), dict(el=1, dim=3, src=1), dict(el=2, dim=2, src=2)], thorough=[dict(el=2, dim=3, src=0), dict(el=3, dim=2, src=2)], budget=60)
def uniform(t, el, dim, src):
    """uniform weighting: the reciprocal of the visibility count (counts below one give zero), mean one over the weighted pixels"""
    f_ = t.mod("PyFHD.gridding.filters")
    a = t.complex("a", (el, dim), -8, 8)
    c = t.real("c", (el, dim), 0, 8)
    keep, kc = a.copy(), c.copy()
    cells = [(y, x) for y in range(el) for x in range(dim)]
    w = t.real("w", (el, dim), 0, 4)
    kw = w.copy()
    if src == 0:
        img, filt = f_.filter_uv_uniform(a, vis_count=c)
    elif src == 1:
        img, filt = f_.filter_uv_uniform(a, vis_count=c, weights=w)
    else:
        img, filt = f_.filter_uv_uniform(a, vis_count=None, weights=w)
        if any(bool(kw[p] > 0) for p in cells):
            least = None
            for p in cells:
                if bool(kw[p] > 0):
                    least = kw[p] if least is None or bool(kw[p] < least) else least
            kc = {p: kw[p] / least for p in cells}
        else:
            kc = {p: kw[p] for p in cells}
    t.eq("uv plane untouched", a, keep)
    t.eq("counts untouched", c, c if src == 2 else kc)
    inv = {p: 1 / kc[p] if bool(kc[p] >= 1) else 0 for p in cells}
    used = [p for p in cells if (bool(kw[p] > 0) if src else not isinstance(inv[p], int))]
    total = [p for p in cells if not isinstance(inv[p], int)]
    if not total or not any(p in total for p in used):
        return  # nothing to normalise with
    mean = sum((inv[p] for p in used), 0) / len(used)
    for p in cells:
        t.eq("filter", filt[p] * mean, inv[p] * 1.0, 1e-8)
        t.eq("filtered plane", img[p], keep[p] * filt[p], 1e-8)


@harness(quick=[dict(nb=2)], thorough=[dict(nb=3)], budget=60)
def counted(t, nb):
    """without a count the visibilities are counted from their positions"""
    f_ = t.mod("PyFHD.gridding.filters")
    n, psf = 8, 2
    obs = make_obs(t, [1.0], nb + 1, n, n)
    at = PLACES[:nb]
    w = t.np.ones((1, nb))
    x = t.real("w", None, -1, 1)
    w[0, 0] = x
    live = [bool(x > 0)] + [True] * (nb - 1)
    a = t.complex("a", (n, n), -2, 2)
    img, filt = f_.filter_uv_uniform(a, None, obs=obs, params={"uu": t.np.array([p for p, _ in at]), "vv": t.np.array([q for _, q in at])}, logger=t.logger, weights=w, psf={"dim": psf, "resolution": 2})
    cnt = {}
    for b in range(nb):
        s = -1 if at[b][1] > 0 else 1
        x0, y0, _, _ = locate(t, s * at[b][0], s * at[b][1], 1.0, n, n, psf)
        if live[b]:
            for i in range(psf):
                for j in range(psf):
                    for p in ((int(y0) + i, int(x0) + j), (-(int(y0) + i) % n, -(int(x0) + j) % n)):
                        cnt[p] = cnt.get(p, 0) + 0.5
    inv = {p: 1 / c for p, c in cnt.items() if c >= 1}
    for i in range(n):
        for j in range(n):
            if inv:
                t.eq("filter", filt[i, j] * (sum(inv.values()) / len(inv)), inv.get((i, j), 0), 1e-9)
                t.eq("filtered plane", img[i, j], a[i, j] * filt[i, j], 1e-9)
