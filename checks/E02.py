"""beam_image_cube, phase_shift_uv_image."""
from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the beam of a polarisation and frequency is B01's; the check decides which beams the cube holds and the mask made of them",
    "frequencies are given by their index, the beam is above the threshold at the centre of the observation and the position of the original phase centre in the image (astropy) is any",
]
HU = "PyFHD.healpix.healpix_utils"


def _region(img, n, y0, x0, low):
    """pixels connected to the centre above the threshold, off the border of the image"""
    ok = {(y, x): bool(img[y, x] >= low) for y in range(n) for x in range(n)}
    seen, todo = set(), [(y0, x0)]
    while todo:
        y, x = todo.pop()
        if (y, x) in seen or not ok.get((y, x), False):
            continue
        seen.add((y, x))
        todo += [(y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)]
    return {(y, x) for y, x in seen if 0 < y < n - 1 and 0 < x < n - 1}


SHAPE = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.5, 0.25, 0.0, 0.5, 0.0],
    [0.0, 0.25, 0.5, 0.0, 0.5, 0.25],
    [0.5, 0.5, 0.25, 1.0, 0.125, 0.0],
    [0.0, 0.5, 0.0, 0.5, 0.5, 0.0],
    [0.0, 0.0, 0.5, 0.0, 0.0, 0.0],
]


@harness(
    quick=[dict(square=True, thr=0.25), dict(square=False, thr=0.1875), dict(square=True, thr=None, n_pol=1)],
    thorough=[dict(square=False, thr=None), dict(square=True, thr=0.4)],
    budget=60,
)
def cube(t, square, thr, n_pol=2, n=6):
    """the beam of every polarisation and output frequency, and the mask where all of them are connected to the centre: any value of one beam pixel"""
    np, m = t.np, t.mod(HU)
    fbin = [0, 0, 0, 1, 1, 2]
    case = t.choice("freqs", ["bins", "few", "index", "one", "some"])
    nb = {"bins": 6, "few": 3, "one": 1, "some": 4}.get(case)
    fs = [int(k * (6 / nb)) for k in range(nb)] if nb else [1, 2, 5]
    hp, hb = t.choice("hot", [(0, 0), (n_pol - 1, fbin[fs[-1]])])
    hy, hx = t.choice("pixel", [(2, 3), (3, 4), (4, 2), (1, 4)])
    t.split_cases()
    v = t.real("v", None, 0, 1.5)
    low = (0.05 if thr is None else thr) ** (2 if square else 1)
    t.assume(t.Or(v >= low + 1 / 512, v <= low - 1 / 512))
    img = {}
    for p in range(n_pol):
        for b in range(3):
            a = np.zeros((n, n))
            for y in range(n):
                for x in range(n):
                    a[y, x] = SHAPE[y][x] * (1.0 + 0.5 * p + 0.25 * b) if (y + 2 * x + p + b) % 5 or SHAPE[y][x] > 0.6 else 0.0
            img[p, b] = a
    img[hp, hb][hy, hx] = v
    regions = [_region(img[p, b], n, 3, 3, low) for p in range(n_pol) for b in sorted({fbin[f] for f in fs})]
    want = set.intersection(*regions)
    psf = {"a": "psf"}

    def beam(psf_, obs_, pol_i, freq_i=None, abs=False, square=False):
        t.check("the beam as given", psf_ is psf and obs_["n_freq"] == 6 and bool(square) == sq)
        return img[int(pol_i), fbin[int(freq_i)]].copy()

    sq = square
    obs = {"n_pol": n_pol, "n_freq": 6, "dimension": n, "elements": n, "obsx": n / 2, "obsy": n / 2, "baseline_info": {"fbin_i": np.array(fbin), "freq": np.array([1e8 + 1e5 * k for k in range(6)])}}
    kw = {"n_freq_bin": nb} if nb else {"freq_i_arr": np.array(fs)}
    if thr is not None:
        kw["beam_threshold"] = thr
    places = [(k, k.beam_image) for k in (m, t.mod("PyFHD.beam_setup.beam_utils")) if hasattr(k, "beam_image")]
    for k, _ in places:
        k.beam_image = like(k, "beam_image", beam)
    try:
        arr, mask = m.beam_image_cube(obs, psf, t.logger, square=square, **kw)
    finally:
        for k, f in places:
            k.beam_image = f
    t.check("shape", tuple(arr.shape) == (n_pol, len(fs), n, n))
    for p in range(n_pol):
        for k, f in enumerate(fs):
            t.eq("beam of the polarisation and frequency", arr[p, k], img[p, fbin[f]])
    for y in range(n):
        for x in range(n):
            t.eq("mask", mask[y, x], 1 if (y, x) in want else 0)


@harness(quick=[dict(n=4), dict(n=2)], thorough=[dict(n=6)], budget=40)
def phase(t, n):
    """the phase ramp to the original phase centre, at any position of it in the image; ones where it has not moved"""
    np, m = t.np, t.mod(HU)
    x, y = t.real("x", None, -8, 8), t.real("y", None, -8, 8)
    ra, dec = t.choice("centre", [(60.0, -30.0), (61.0, -30.0), (60.0, -29.0), (61.5, -29.5)])
    obs = {"orig_phasera": 60.0, "orig_phasedec": -30.0, "phasera": ra, "phasedec": dec, "dimension": n, "elements": n, "astr": {"a": "astr"}}

    def pixel(r, d, astr, *a, **kw):
        t.check("position of the original phase centre", r == 60.0 and d == -30.0 and astr["a"] == "astr")
        return x, y

    keep, m.radec_to_pixel = m.radec_to_pixel, like(m, "radec_to_pixel", pixel)
    try:
        got = m.phase_shift_uv_image(obs)
    finally:
        m.radec_to_pixel = keep
    t.check("shape", tuple(got.shape) == (n, n))
    moved = (ra, dec) != (60.0, -30.0)
    dx, dy = (x - n / 2) * (2 * np.pi / n), (y - n / 2) * (2 * np.pi / n)
    for j in range(n):
        for i in range(n):
            a = (i - n / 2) * dx + (j - n / 2) * dy if moved else 0.0
            t.eq("phase", got[j, i], np.cos(a) + 1j * np.sin(a), 1e-9)
