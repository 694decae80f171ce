"""grid_beam_per_baseline and visibility_grid with a kernel made for each baseline."""
from checks.common import like, locate, make_obs
from symnp.spec import harness

ASSUMPTIONS = ["the Fourier transform of the beam's image is the image itself here (D04 decides the transform); square images; directions and positions from lists"]
GU, VG = "PyFHD.gridding.gridding_utils", "PyFHD.gridding.visibility_grid"


def _transform(t, seen=None):
    def image(plane, cfg, logger, *a, **kw):
        t.check("a complex transform without any weighting", kw.get("not_real") is True and not a and all(v is None or not v for k, v in kw.items() if k != "not_real"))
        return t.np.array(plane), None, None

    return image


def _beam(t, n, n_pol):
    b = t.np.zeros((n_pol, n, n), dtype="complex128")
    for p in range(n_pol):
        for j in range(n):
            for i in range(n):
                b[p, j, i] = 1 + 0.25 * ((3 * i + 5 * j + p) % 7) + 0.125j * ((i + 2 * j + 3 * p) % 5)
    return b


@harness(
    quick=[dict(res=2, what="u"), dict(res=2, what="v"), dict(res=2, what="w"), dict(res=1, what="u"), dict(res=2, what="beam"), dict(res=3, what="beam")],
    thorough=[dict(res=4, what="u"), dict(res=1, what="w"), dict(res=4, what="beam")],
    budget=40,
)
def kernel(t, res, what):
    """each visibility's kernel: its beam image, turned by its own offset, transformed, cut out and summed to the pixels of the grid"""
    g, np = t.mod(GU), t.np
    dim = 2
    side, bot = dim * res, 1
    n = side + 3
    beam = _beam(t, n, 2)
    l, m, w_ = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
    for j in range(n):
        for i in range(n):
            if (i + j) % 3 == 0 or what == "beam":
                l[j, i], m[j, i], w_[j, i] = 0.0625 * (i - 2), 0.03125 * (j - 3), -0.015625 * ((i + j) % 4)
    uu, vv, ww = np.array([1.5, -0.75, 2.25]), np.array([-0.5, -2.0, -1.25]), np.array([0.5, -0.25, 1.0])
    freq = [1.0, 1.25]
    bt, fi = [2, 0], [1, 0]
    pol = t.choice("pol", [0, 1])
    if what == "beam":
        beam[pol, bot + 1, bot + 2 * res - 1] = t.complex("b", None, -4, 4)
    else:
        dict(u=uu, v=vv, w=ww)[what][2] = t.real("x", None, -4, 4)
    x = (np.arange(8) - 4) * 0.5
    y = (np.arange(8) - 4) * 0.25
    xm, ym = t.choice("corner", [(1, 3), (4, 2)])
    psf = {"dim": dim, "resolution": res, "image_info": {"image_power_beam_arr": beam}}
    kept = [beam.copy(), l.copy(), m.copy(), w_.copy(), uu.copy(), vv.copy(), ww.copy()]
    keep, g.dirty_image_generate = g.dirty_image_generate, like(g, "dirty_image_generate", _transform(t))
    try:
        got = g.grid_beam_per_baseline(psf, {"beam_clip_floor": False, "image_filter": "filter_uv_uniform"}, t.logger, uu, vv, ww, l, m, w_, np.array(freq), x, y, xm, ym, np.array(fi), np.array(bt), pol, bot, bot + side - 1, dim * dim, np.zeros((2, dim * dim), dtype="complex128"), 2)
    finally:
        g.dirty_image_generate = keep
    for k, a in zip(kept, [beam, l, m, w_, uu, vv, ww]):
        t.eq("inputs untouched", a, k)
    t.check("shape", tuple(got.shape) == (2, dim * dim))
    for r in range(2):
        f = freq[fi[r]]
        du, dv, dw = uu[bt[r]] * f - x[xm + 1], vv[bt[r]] * f - y[ym + 1], ww[bt[r]] * f
        for cy in range(dim):
            for cx in range(dim):
                s = 0
                for a in range(res):
                    for b in range(res):
                        j, i = bot + cy * res + a, bot + cx * res + b
                        s = s + beam[pol, j, i] * np.exp(2j * np.pi * (l[j, i] * du + m[j, i] * dv - w_[j, i] * dw))
                t.eq("kernel", got[r, cy * dim + cx], s, 1e-8)


@harness(quick=[dict(ph=0), dict(ph=1)], thorough=[dict(ph=2)], budget=40)
def clipped(t, ph):
    """clipping takes the same small amount off every pixel's modulus, none below zero, and keeps each kernel's sum"""
    g, np = t.mod(GU), t.np
    t.split_cases()
    dim, n = 2, 4
    turn = (1, 1j, -1)[ph]
    beam = np.ones((1, n, n), dtype="complex128")
    vals = [[2.0, 0.25], [1.5, 0.75]]
    for j in range(2):
        for i in range(2):
            beam[0, 1 + j, 1 + i] = vals[j][i] * (1, 1j)[(i + j) % 2 if ph == 1 else 0]
    a = t.real("a", None, 0.0, 4)
    beam[0, 2, 1] = a * turn
    zero = np.zeros((n, n))
    thr = t.choice("threshold", [4.0, 16.0])
    psf = {"dim": dim, "resolution": 1, "beam_mask_threshold": thr, "image_info": {"image_power_beam_arr": beam}}
    flat = [[beam[0, 1 + j, 1 + i], abs(vals[j][i])] for j in range(2) for i in range(2)]
    flat[2][1] = a
    cut = t.np.maximum(a, 2.0) / thr
    for _, b in flat:
        t.assume(t.Or(b < cut - 1e-3, b > cut + 1e-3))
    new = [(turn if b is a else k / b) * (b - cut) if bool(b > cut) else 0 for k, b in flat]
    keep, g.dirty_image_generate = g.dirty_image_generate, like(g, "dirty_image_generate", _transform(t))
    try:
        got = g.grid_beam_per_baseline(psf, {"beam_clip_floor": True, "image_filter": "filter_uv_uniform"}, t.logger, np.zeros(2), np.zeros(2), np.zeros(2), zero, zero, zero, np.array([1.0]), np.zeros(8), np.zeros(8), 2, 2, np.array([0, 0]), np.array([0, 1]), 0, 1, 2, dim * dim, np.zeros((2, dim * dim), dtype="complex128"), 2)
    finally:
        g.dirty_image_generate = keep
    old, s = sum((k for k, _ in flat), 0), sum(new, 0)
    t.assume((s * np.conj(s)).real > 1e-3)
    for r in range(2):
        for q in range(4):
            t.eq("clipped kernel", got[r, q] * s, new[q] * old, 1e-8)


@harness(quick=[dict()], budget=40)
def clipped_together(t):
    """the amount taken off is that of the largest modulus of all kernels"""
    g, np = t.mod(GU), t.np
    t.split_cases()
    dim, res, n = 2, 2, 6
    beam, l = np.ones((1, n, n), dtype="complex128"), np.zeros((n, n))
    # the second baseline turns one part of the second pixel by half a turn
    l[1, 3] = 0.25
    a = t.real("a", None, 0.5, 4)
    beam[0, 1, 1], beam[0, 1, 3], beam[0, 1, 4], beam[0, 3, 3] = 1 + a, 1.0, 5.0, 0.5
    uu = np.array([0.0, 2.0])
    rows = [[4 + a, 7.0 + k, 4.0, 3.5] for k in (1, -1)]
    cut = 8.0 / 4
    psf = {"dim": dim, "resolution": res, "beam_mask_threshold": 4.0, "image_info": {"image_power_beam_arr": beam}}
    keep, g.dirty_image_generate = g.dirty_image_generate, like(g, "dirty_image_generate", _transform(t))
    zero = np.zeros((n, n))
    try:
        got = g.grid_beam_per_baseline(psf, {"beam_clip_floor": True, "image_filter": "filter_uv_uniform"}, t.logger, uu, np.zeros(2), np.zeros(2), l, zero, zero, np.array([1.0]), np.zeros(8), np.zeros(8), 2, 2, np.array([0, 0]), np.array([0, 1]), 0, 1, 4, dim * dim, np.zeros((2, dim * dim), dtype="complex128"), 2)
    finally:
        g.dirty_image_generate = keep
    for r in range(2):
        new = [x - cut for x in rows[r]]
        for q in range(4):
            t.eq("clipped kernel", got[r, q] * sum(new, 0), new[q] * sum(rows[r], 0), 1e-8)


SETS = [[(0.5, -0.25), (0.75, -0.5), (0.5, -0.25)], [(-0.5, 0.25), (1.5, -0.25), (2.25, 1.5)], [(0.5, -0.25), (-0.75, 0.25), (3.75, -0.25)]]


@harness(quick=[dict(res=1, nf=1), dict(res=2, nf=1), dict(res=1, nf=2), dict(res=1, nf=3, use=(0, 1, 1))], thorough=[dict(res=2, nf=2), dict(res=3, nf=1), dict(res=2, nf=3, use=(1, 0, 1))], budget=60)
def gridded(t, res, nf, use=None):
    """the planes are the sums of every visibility times the kernel of its own place, baseline and frequency"""
    g, v, np = t.mod(GU), t.mod(VG), t.np
    n, dim, kpix = 8, 2, 0.5
    inter = min(-(-(res**0.5) // 2) * 2, res)
    # pixels cut out of the beam's image, whose centre is that of the footprint
    size = 8
    bot = int(-(dim / 2) * inter + size / 2)
    at = t.choice("set", SETS)
    nb = len(at)
    freq = [1.0, 1.25, 0.75][:nf]
    use = use or [1] * nf
    obs = make_obs(t, freq, nb + 1, n, n, ta=[1] * nb, tb=[2 + b for b in range(nb)])
    obs.update(n_baselines=nb, n_time=1, nf_vis=np.zeros(nf), kpix=kpix, obsra=10.0, obsdec=-20.0)
    obs["baseline_info"]["fbin_i"] = np.array([0] * nf)
    obs["baseline_info"]["freq_use"] = np.array(use)
    sel = t.choice("baselines", [None, [0, 2], [2, 1]])
    uu, vv = np.array([x * kpix for x, _ in at]), np.array([y * kpix for _, y in at])
    ww = np.array([0.5 + b for b in range(nb)])
    vis, mod = t.complex("v", (nf, nb), -4, 4), t.complex("m", (nf, nb), -4, 4)
    beam = _beam(t, size, 2)
    ra, dec = np.zeros((size, size)), np.zeros((size, size))
    for j in range(size):
        for i in range(size):
            ra[j, i], dec[j, i] = 10.0 + 2.0 * (i - 4), -20.0 + 1.5 * (j - 4)
    psf = {"dim": dim, "resolution": res, "id": np.zeros((2, nf, nb), dtype=int), "beam_ptr": None, "image_info": {"image_power_beam_arr": beam, "psf_image_dim": size, "ra_arr": ra, "dec_arr": dec}}
    pol = t.choice("pol", [0, 1])
    cfg = dict(interpolate_kernel=False, mask_mirror_indices=False, beam_per_baseline=True, beam_clip_floor=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True, image_filter="filter_uv_uniform")
    params = {"uu": uu, "vv": vv, "ww": ww}
    kept = [uu.copy(), vv.copy(), ww.copy(), vis.copy(), mod.copy()]
    kw = {} if sel is None else {"bi_use": np.array(sel)}
    keep, g.dirty_image_generate = g.dirty_image_generate, like(g, "dirty_image_generate", _transform(t))
    try:
        out = v.visibility_grid(vis, np.ones((nf, nb)), obs, psf, params, pol, cfg, t.logger, no_conjugate=True, model=mod, **kw)
    finally:
        g.dirty_image_generate = keep
    for k, a in zip(kept, [uu, vv, ww, vis, mod]):
        t.eq("inputs untouched", a, k)
    rad = np.radians
    c0, s0 = np.cos(rad(-20.0)), np.sin(rad(-20.0))
    sums, n_vis = {}, 0
    for f in range(nf):
        if not use[f]:
            continue
        for b in range(nb) if sel is None else sel:
            s = -1 if at[b][1] > 0 else 1
            x0, y0, _, _ = locate(t, s * at[b][0], s * at[b][1], freq[f], n, n, dim)
            x0, y0 = int(x0), int(y0)
            if not (x0 > 0 and y0 > 0 and x0 + 1 < n - 1 and y0 + 1 < n - 1):
                continue
            n_vis += 1
            # from the middle of the footprint
            du, dv = (s * at[b][0] * freq[f] - (x0 + 1 - n / 2)) * kpix, (s * at[b][1] * freq[f] - (y0 + 1 - n / 2)) * kpix
            d, e = (np.conj(z[f, b]) if s < 0 else z[f, b] for z in (kept[3], kept[4]))
            for cy in range(dim):
                for cx in range(dim):
                    k = 0
                    for a in range(res):
                        for c in range(res):
                            j, i = bot + cy * res + a, bot + cx * res + c
                            l = np.sin(rad(ra[j, i] - 10.0)) * np.cos(rad(dec[j, i]))
                            m = c0 * np.sin(rad(dec[j, i])) - s0 * np.cos(rad(dec[j, i])) * np.cos(rad(ra[j, i] - 10.0))
                            k = k + beam[pol, j, i] * np.exp(2j * np.pi * (l * du + m * dv))
                    k, p = np.conj(k), (y0 + cy, x0 + cx)
                    for key, z in (("image_uv", k * d), ("model_return", k * e), ("weights", k), ("variance", (k * np.conj(k)).real)):
                        sums[key, p] = sums.get((key, p), 0) + z
    t.check("number of gridded visibilities", out["n_vis"] == n_vis)
    for key in ("image_uv", "model_return", "weights", "variance"):
        for i in range(n):
            for j in range(n):
                t.eq(key, out[key][i, j] * n_vis, sums.get((key, (i, j)), 0), 1e-8)
