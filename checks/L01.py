"""l_m_n, simple_deproject_w_term."""
from symnp.spec import harness

ASSUMPTIONS = ["sine and cosine are any functions on the unit circle, right at zero; angles in real arithmetic"]
UT = "PyFHD.pyfhd_tools.pyfhd_utils"


@harness(quick=[dict(given=g) for g in range(8)], thorough=[], budget=40)
def cosines(t, given):
    """direction cosines of a position are its components east, north and towards the phase centre"""
    np, u = t.np, t.mod(UT)
    over = [(), ("obsra", "obsdec"), ("ra", "dec"), ("obsra", "obsdec", "ra", "dec"), ("obsra",), ("obsdec", "ra"), ("dec",), ("ra",)][given]
    hole = t.choice("hole", [None, "ra", "dec", "both"])
    ra0, dec0 = t.real("ra0", None, 0, 360), t.real("dec0", None, -90, 90)
    d = t.real("delta", None, -180, 180)
    dec = t.real("dec", None, -90, 90)
    ra_arr, dec_arr = np.zeros((2, 2)), np.zeros((2, 2))
    ra_arr[0, 0], dec_arr[0, 0] = ra0 + d, dec
    ra_arr[0, 1], dec_arr[0, 1] = ra0, dec0
    ra_arr[1, 0], dec_arr[1, 0] = ra0 + 60.0, 30.0
    ra_arr[1, 1], dec_arr[1, 1] = ra0 - 45.0, -26.0
    if hole in ("ra", "both"):
        ra_arr[1, 0] = float("nan")
    if hole in ("dec", "both"):
        dec_arr[1, 1 if hole == "dec" else 0] = float("nan")
    obs, psf, kw = {"obsra": ra0, "obsdec": dec0}, {"image_info": {"ra_arr": ra_arr, "dec_arr": dec_arr}}, {}
    # what is given replaces what the observation or the beam has
    for key, v in (("obsra", ra0), ("obsdec", dec0)):
        if key in over:
            obs[key] = 11.0
            kw[key] = v
    for key, long, v in (("ra", "right_ascension_arr", ra_arr), ("dec", "declination_arr", dec_arr)):
        if key in over:
            psf["image_info"][key + "_arr"] = np.ones((2, 2))
            kw[long] = v
    ka, kd = ra_arr.copy(), dec_arr.copy()
    l, m, n = u.l_m_n(obs, psf, **kw)
    r = np.radians
    c0, s0 = np.cos(r(dec0)), np.sin(r(dec0))
    for k, (dr, de) in {(0, 0): (d, dec), (0, 1): (0.0, dec0), (1, 0): (60.0, 30.0), (1, 1): (-45.0, -26.0)}.items():
        if (k == (1, 0) and hole in ("ra", "both")) or (k == (1, 1) and hole == "dec"):
            for label, a in (("l", l), ("m", m), ("n", n)):
                t.eq(label + " below the horizon is zero", a[k], 0.0)
            continue
        c, s, cr, sr = np.cos(r(de)), np.sin(r(de)), np.cos(r(dr)), np.sin(r(dr))
        t.eq("l", l[k], c * sr, 1e-9)
        t.eq("m", m[k], s * c0 - c * s0 * cr, 1e-9)
        t.eq("n from the phase centre", n[k], s * s0 + c * c0 * cr - 1, 1e-9)
        if k == (0, 1):
            t.eq("phase centre", l[k], 0.0, 1e-9)
            t.eq("phase centre", m[k], 0.0, 1e-9)
            t.eq("phase centre", n[k], 0.0, 1e-9)
    for j in range(2):
        for i in range(2):
            if not (j == 1 and hole):
                t.eq("positions untouched", ra_arr[j, i], ka[j, i])
                t.eq("positions untouched", dec_arr[j, i], kd[j, i])


@harness(quick=[dict(n_pol=1, n_freq=2, n_bl=3), dict(n_pol=2, n_freq=2, n_bl=2), dict(n_pol=2, n_freq=3, n_bl=1), dict(n_pol=4, n_freq=1, n_bl=2)], thorough=[dict(n_pol=4, n_freq=3, n_bl=4)], budget=40)
def w_term(t, n_pol, n_freq, n_bl):
    """each visibility is turned by the phase of its w at its frequency"""
    np, u = t.np, t.mod(UT)
    direction = t.choice("direction", [1, -1, 0.5])
    hot = t.choice("hot", ["vis", "ww"])
    freq = np.array([0.5 + 0.25 * f for f in range(n_freq)])
    ww = np.array([1.0 - 0.75 * b for b in range(n_bl)])
    if hot == "ww":
        ww[n_bl - 1] = t.real("ww", None, -4, 4)
    vis = np.zeros((n_pol, n_freq, n_bl), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(n_bl):
                vis[p, f, b] = 1.0 + b + 0.5j * f - 0.25j * p
    if hot == "vis":
        vis[n_pol - 1, n_freq - 1, n_bl - 1] = t.complex("v", None, -8, 8)
    keep, kw = vis.copy(), ww.copy()
    obs = {"n_pol": n_pol, "baseline_info": {"freq": freq}}
    got = u.simple_deproject_w_term(obs, {"ww": ww}, vis, direction, t.logger)
    t.check("shape", tuple(got.shape) == (n_pol, n_freq, n_bl))
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(n_bl):
                a = ww[b] * freq[f] * direction
                t.eq("turned visibility", got[p, f, b], keep[p, f, b] * (np.cos(a) + 1j * np.sin(a)), 1e-9)
    back = u.simple_deproject_w_term(obs, {"ww": ww}, got.copy(), -direction, t.logger)
    t.eq("turned back", back, keep, 1e-9)
    t.eq("w untouched", ww, kw)
