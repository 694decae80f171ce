"""vis_extract_autocorr, cal_auto_ratio_divide, cal_auto_ratio_remultiply, vis_cal_auto_init."""
from symnp.spec import harness

ASSUMPTIONS = [
    "every tile with autocorrelations has one at every time (a baseline set repeats every time)",
    "autocorrelations used as a ratio are positive; those of a model may be zero",
]
CU = "PyFHD.calibration.calibration_utils"


@harness(
    quick=[
        dict(pairs=((1, 1), (1, 2), (2, 2), (4, 4)), use=(1, 1), avg=True, n_pol=2),
        dict(pairs=((3, 3), (1, 3), (1, 1), (2, 3)), use=(1, 0), avg=True, n_pol=1),
        dict(pairs=((2, 2), (1, 1)), use=(0, 1, 1), avg=True, n_pol=1),
        dict(pairs=((3, 3), (1, 3), (1, 1)), use=(1, 0), avg=False, n_pol=2),
        dict(pairs=((1, 2), (1, 3)), use=(1, 1), avg=True, n_pol=1),
        dict(pairs=((300, 300), (140, 300), (44, 44), (140, 140)), use=(1, 0), avg=True, n_pol=1),
    ],
    thorough=[
        dict(pairs=((5, 5), (1, 2), (2, 2), (4, 4), (1, 1)), use=(1, 0, 1, 1), avg=True, n_pol=4),
        dict(pairs=((1, 2), (1, 3)), use=(1, 1), avg=False, n_pol=2),
    ],
    budget=40,
)
def extract(t, pairs, use, avg, n_pol):
    """the real parts of the autocorrelations, averaged over the used times if asked, with the tile of each"""
    c = t.mod(CU)
    n_time, n_freq, nb = len(use), 2, len(pairs)
    ta, tb = [a for a, _ in pairs] * n_time, [b for _, b in pairs] * n_time
    v = t.complex("v", (n_pol, n_freq, nb * n_time), -8, 8)
    kv = v.copy()
    obs = {"n_pol": n_pol, "n_freq": n_freq, "baseline_info": {"tile_a": t.np.array(ta), "tile_b": t.np.array(tb), "time_use": t.np.array(use)}}
    auto, tile = c.vis_extract_autocorr(obs, v, {"cal_time_average": avg})
    t.eq("visibilities untouched", v, kv)
    rows = [b for b, (x, y) in enumerate(pairs) if x == y]
    if not rows:
        t.check("none", auto.size == 1 and tile.size == 0 and bool(auto[0] == 0))
        return
    if avg:
        want = sorted(rows, key=lambda b: pairs[b][0])
        t.eq("tiles", tile, t.np.array([pairs[b][0] - 1 for b in want]))
        t.check("shape", auto.shape == (n_pol, n_freq, len(want)))
        on = [q for q in range(n_time) if use[q]]
        for p in range(n_pol):
            for f in range(n_freq):
                for k, b in enumerate(want):
                    t.eq("mean autocorrelation", auto[p, f, k], sum((kv[p, f, q * nb + b].real for q in on), 0) / len(on), 1e-9)
    else:
        want = [q * nb + b for q in range(n_time) for b in rows]
        t.eq("tiles", tile, t.np.array([ta[k] - 1 for k in want]))
        t.check("shape", auto.shape == (n_pol, n_freq, len(want)))
        for p in range(n_pol):
            for f in range(n_freq):
                for k, b in enumerate(want):
                    t.eq("autocorrelation", auto[p, f, k], kv[p, f, b].real)


@harness(
    quick=[dict(n_pol=1, autos=(0, 1, 2), ref=1), dict(n_pol=2, autos=(0, 2), ref=2), dict(n_pol=2, autos=(1, 2), ref=1)],
    thorough=[dict(n_pol=2, autos=(0, 1, 3), ref=3)],
    budget=40,
    uninit=True,
)
def ratio(t, n_pol, autos, ref):
    """gains are divided by the root of the autocorrelation relative to the reference tile's, and multiplied back"""
    c = t.mod(CU)
    n_freq, n_tile = 2, 4
    g = t.complex("g", (n_pol, n_freq, n_tile), -4, 4)
    a = t.np.ones((n_pol, n_freq, len(autos)))
    for p in range(n_pol):
        for f in range(n_freq):
            for k in range(len(autos)):
                a[p, f, k] = 1.0 + 0.5 * p + 0.25 * f + (0.75 * k) ** 2
    hot = t.choice("hot", [(p, f, k) for p in range(n_pol) for f in range(n_freq) for k in range(len(autos))])
    x = t.real("a", None, 0.25, 16)
    a[hot] = x
    kg, ka = g.copy(), a.copy()
    cal, r = c.cal_auto_ratio_divide({"n_freq": n_freq, "n_tile": n_tile}, {"n_pol": n_pol, "gain": g, "ref_antenna": ref}, a, t.np.array(autos))
    t.eq("autocorrelations untouched", a, ka)
    col = autos.index(ref)
    for p in range(n_pol):
        for f in range(n_freq):
            for i in range(n_tile):
                if i not in autos:
                    t.eq("tile without autocorrelations keeps its gain", cal["gain"][p, f, i], kg[p, f, i])
                    t.eq("ratio of a tile without autocorrelations", r[p, f, i], 1)
                    continue
                q = t.np.sqrt(ka[p, f, autos.index(i)] / ka[p, f, col])
                t.eq("ratio", r[p, f, i], q, 1e-9)
                t.eq("divided gain", cal["gain"][p, f, i], kg[p, f, i] * (1 / q), 1e-8)
    kr = r.copy()
    cal = c.cal_auto_ratio_remultiply(cal, r, t.np.array(autos))
    t.eq("ratio untouched", r, kr)
    t.eq("multiplied back", cal["gain"], kg, 1e-8)


@harness(quick=[dict(n_pol=1, zero=False), dict(n_pol=2, zero=True)], thorough=[dict(n_pol=2, zero=False)], budget=60)
def init(t, n_pol, zero):
    """first gains: root of data over model autocorrelations, scaled to the ratio of the mean amplitudes"""
    c = t.mod(CU)
    n_freq, n_tile, autos = 3, 3, (0, 2)
    use = [1, 0, 1]
    n = 4
    v = t.np.ones((n_pol, n_freq, n), dtype="complex128")
    m = t.np.ones((n_pol, n_freq, n), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(n):
                v[p, f, b] = (4 + 0.25 * b + 0.125 * f + p) * (1, 1j, -1, -1j)[b]
                m[p, f, b] = (2 + 0.125 * b + 0.25 * f) * (1j, 1, -1, 1j)[b]
    v[:, 1] = t.complex("flagged", (n_pol, n), -8, 8)
    s = [t.real(f"s{p}", None, 0.5, 2) for p in range(n_pol)]
    for p in range(n_pol):
        for f in (0, 2):
            v[p, f] = v[p, f] * s[p]
    da, ma = t.np.ones((n_pol, n_freq, 2)), t.np.ones((n_pol, n_freq, 2))
    for p in range(n_pol):
        for f in range(n_freq):
            for k in range(2):
                da[p, f, k] = 2.0 + f + 0.5 * k
                ma[p, f, k] = 1.0 + 0.5 * f + p
    hot = t.choice("hot", [(p, f, k) for p in range(n_pol) for f in (0, 1) for k in range(2)])
    da[hot] = t.real("auto", None, 0.25, 16)
    if zero:
        ma[0, 2, 1] = 0.0
    kv, km, kd, kma = v.copy(), m.copy(), da.copy(), ma.copy()
    obs = {"n_freq": n_freq, "n_tile": n_tile, "baseline_info": {"freq_use": t.np.array(use)}}
    g = c.vis_cal_auto_init(obs, {"n_pol": n_pol}, v, m, da, ma, t.np.array(autos))
    for lab, x, y in (("visibilities", v, kv), ("model", m, km), ("autocorrelations", da, kd), ("model autocorrelations", ma, kma)):
        t.eq(lab + " untouched", x, y)
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    for p in range(n_pol):
        # the resistant mean is M02's
        scale = t.np.sqrt(u.resistant_mean(t.np.abs(kv[p, [0, 2]]), 2) / u.resistant_mean(t.np.abs(km[p, [0, 2]]), 2))
        w = t.np.ones((n_freq, n_tile))
        for f in range(n_freq):
            for k, i in enumerate(autos):
                w[f, i] = t.np.sqrt(kd[p, f, k] / kma[p, f, k]) if not (zero and (p, f, k) == (0, 2, 1)) else 0.0
        mean = sum((w[f, i] for f in range(n_freq) for i in range(n_tile)), 0) / (n_freq * n_tile)
        for f in range(n_freq):
            for i in range(n_tile):
                dead = zero and (p, f, i) == (0, 2, 2)
                t.eq("one where the ratio is zero" if dead else "first gain", g[p, f, i], 1 if dead else w[f, i] * scale / mean, 1e-8)
