"""vis_cal_bandpass."""
from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the resistant mean is M02's: the check decides which gains it is taken of, how they are normalised and where the result goes",
    "one gain amplitude is free at a time, the others are distinct; not every gain of a group is zero",
    "the cable lengths are those of the MWA template (128 tiles)",
]
CU = "PyFHD.calibration.calibration_utils"
UNIT = (1, 1j, -1, -1j, 0.6 + 0.8j)


def _cables():
    import os

    import numpy

    f = os.path.join(os.environ.get("PYFHD_REPO", "/repo"), "PyFHD/templates/mwa_cable_reflection_coefficients.txt")
    return [float(x) for x in numpy.loadtxt(f, skiprows=1)[:, 2]]


def _mean(t, u, vals):
    a = t.np.zeros(len(vals))
    for i, x in enumerate(vals):
        a[i] = x
    return u.resistant_mean(a, 2)


def _cfg(cable=False, auto=False):
    return {"cal_bp_transfer": None, "cable_bandpass_fit": cable, "instrument": "mwa", "auto_ratio_calibration": auto}


class _Stand:
    """a stand-in for the resistant mean which shows what it was given"""

    def __init__(self, t):
        self.t = t

    def resistant_mean(self, a, dev, **kw):
        n = len(a)
        return sum((a[i] for i in range(n)), 0.0) / n * 1.25 * (dev - 1)


def _run(t, n_pol, use, tile_use, groups, cfg, hots, zero, everywhere, stand=False):
    c, u = t.mod(CU), t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    if not stand:
        t.split_cases()
        return _go(t, c, u, n_pol, use, tile_use, groups, cfg, hots, zero, everywhere)
    u = _Stand(t)
    keep = c.resistant_mean
    c.resistant_mean = like(c, "resistant_mean", u.resistant_mean)
    try:
        return _go(t, c, u, n_pol, use, tile_use, groups, cfg, hots, zero, everywhere)
    finally:
        c.resistant_mean = keep


def _go(t, c, u, n_pol, use, tile_use, groups, cfg, hots, zero, everywhere):
    n_freq, n_tile = len(use), len(tile_use)
    amp = {}
    g = t.np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for i in range(n_tile):
                amp[p, f, i] = 1.0 + 0.125 * ((3 * f + 5 * i + 7 * p) % 11) + 0.5 * (i % 3)
    p, f, i = t.choice("hot", hots)
    if zero:
        for q in range(n_freq):
            amp[p, q, i] = 0.0
    else:
        amp[p, f, i] = t.real("a", None, 0.25, 8)
    for k in amp:
        g[k] = amp[k] * UNIT[(k[1] + 2 * k[2] + k[0]) % 5]
    for i in range(n_tile):
        if not tile_use[i] and i % 2:
            g[:, :, i] = float("nan")
    kg = g.copy()
    on, tiles = [f for f in range(n_freq) if use[f]], [i for i in range(n_tile) if tile_use[i]]
    want = {}
    for grp in groups:
        for p in range(n_pol):
            norm = {}
            for i in grp:
                m = _mean(t, u, [t.np.abs(kg[p, f, i]) for f in on])
                norm[i] = None if bool(m == 0) else m
            for f in on:
                x = _mean(t, u, [t.np.abs(kg[p, f, i]) / norm[i] if norm[i] is not None else 0.0 for i in grp])
                for i in range(n_tile) if everywhere else grp:
                    want[p, f, i] = x
    obs = {"n_freq": n_freq, "n_tile": n_tile, "n_pol": n_pol, "baseline_info": {"freq": t.np.array([1e8 + 1e5 * f for f in range(n_freq)]), "freq_use": t.np.array(use), "tile_use": t.np.array(tile_use)}}
    cal = {"n_pol": n_pol, "gain": g, "other": [1]}
    b, r = c.vis_cal_bandpass(obs, cal, cfg, t.logger)
    t.check("gains untouched", cal["gain"] is g)
    show = tiles[:3] + tiles[-2:] if n_tile > 8 else range(n_tile)
    for p in range(n_pol):
        for i in show:
            for f in range(n_freq):
                bad = not tile_use[i] and i % 2
                if not bad:
                    t.eq("gain untouched", cal["gain"][p, f, i], kg[p, f, i])
                if not use[f]:
                    t.eq("no bandpass at an unused frequency", b["gain"][p, f, i], 0)
                    if not bad:
                        t.eq("an unused frequency keeps its gain", r["gain"][p, f, i], kg[p, f, i])
                elif (p, f, i) in want:
                    t.eq("bandpass", b["gain"][p, f, i], want[p, f, i], 1e-8)
                    if not bad:
                        t.eq("remainder times bandpass is the gain", r["gain"][p, f, i] * want[p, f, i], kg[p, f, i], 1e-8)
    t.check("other entries are copied", b["other"] == [1] and r["other"] == [1] and b["other"] is not cal["other"])


@harness(
    quick=[
        dict(n_pol=1, use=(1, 1, 0, 1), tile_use=(1, 1, 1), zero=False),
        dict(n_pol=2, use=(1, 1), tile_use=(1, 0, 1, 1), zero=False),
        dict(n_pol=1, use=(0, 1, 1, 1), tile_use=(1, 0, 1, 1, 0, 1), zero=True),
    ],
    thorough=[dict(n_pol=1, use=(1, 1, 1, 1, 1), tile_use=(1, 1, 1, 1, 1), zero=False), dict(n_pol=2, use=(1, 1, 1, 0), tile_use=(1, 0, 1, 1, 1), zero=False)],
    budget=60,
)
def everywhere(t, n_pol, use, tile_use, zero):
    """one bandpass for all tiles: the resistant mean over the used tiles of the normalised amplitudes"""
    on, tiles = [f for f in range(len(use)) if use[f]], [i for i in range(len(tile_use)) if tile_use[i]]
    hots = [(0, on[0], tiles[0]), (n_pol - 1, on[-1], tiles[1]), (0, on[1], tiles[-1])]
    _run(t, n_pol, list(use), list(tile_use), [tiles], _cfg(), hots, zero, True)


@harness(
    quick=[dict(case="groups"), dict(case="flagged"), dict(case="autos")],
    thorough=[dict(case="groups", n_pol=2), dict(case="flagged", n_pol=2)],
    budget=90,
)
def cable(t, case, n_pol=1):
    """one bandpass per cable length, or one for all if a length has no tiles or the autocorrelations are used"""
    ln = _cables()
    lengths = sorted(set(ln))
    tile_use = [0] * len(ln)
    groups = []
    for q, x in enumerate(lengths):
        if case == "flagged" and q == 3:
            continue
        grp = [i for i in range(len(ln)) if ln[i] == x][1 : 4 if q % 2 else 3]
        groups.append(grp)
        for i in grp:
            tile_use[i] = 1
    hots = [(0, 0, groups[1][0]), (n_pol - 1, 2, groups[-1][1])]
    if case != "groups":
        groups = [sorted(i for grp in groups for i in grp)]
    _run(t, n_pol, [1, 0, 1, 1], tile_use, groups, _cfg(True, case == "autos"), hots, False, False, stand=case != "groups" or n_pol > 1)
