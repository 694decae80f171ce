"""vis_weights_update: which weights are zeroed, which stay, and the number of gridded visibilities."""
from symnp.spec import harness

ASSUMPTIONS = [
    "vis_weights_update: baselines ordered by time with the same number per time; frequencies are exact binary fractions so that uv coordinates in pixels have no rounding of their own; footprints and lengths at least 1e-6 away from the limits"
]


def _obs(t, n_pol, ta, tb, freq, n_time, per, time_use, tile_use, freq_use, dim=16, lo=0.0, hi=1e6, elements=None):
    return {
        "n_pol": n_pol,
        "kpix": 1.0,
        "min_baseline": lo,
        "max_baseline": hi,
        "dimension": dim,
        "elements": elements or dim,
        "n_vis": -5,
        "baseline_info": {
            "freq": t.np.array(freq),
            "tile_a": t.np.array(ta),
            "tile_b": t.np.array(tb),
            "tile_use": t.np.array(tile_use),
            "freq_use": t.np.array(freq_use),
            "time_use": t.np.array(time_use),
            "bin_offset": t.np.arange(n_time) * per,
        },
    }


@harness(
    quick=[dict(n_tile=3, n_time=2, n_freq=2, n_pol=2), dict(n_tile=4, n_time=1, n_freq=1, n_pol=1, absent=4)],
    thorough=[dict(n_tile=3, n_time=3, n_freq=2, n_pol=1), dict(n_tile=4, n_time=2, n_freq=1, n_pol=1), dict(n_tile=4, n_time=1, n_freq=1, n_pol=2, absent=1)],
    budget=60,
)
def flags(t, n_tile, n_time, n_freq, n_pol, absent=None):
    """cut tiles, times and frequencies lose every weight; everything else keeps its own"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    pairs = [(a, b) for a in range(1, n_tile + 1) for b in range(a + 1, n_tile + 1) if absent not in (a, b)]
    per = len(pairs)
    ta = [a for a, _ in pairs] * n_time
    tb = [b for _, b in pairs] * n_time
    nb = per * n_time

    def bits(nm, n):
        x = t.bool(nm, n)
        return [int(bool(x[k])) for k in range(n)]

    tile_use, time_use, freq_use = bits("tile", n_tile), bits("time", n_time), bits("freq", n_freq)
    w = t.real("w", (n_pol, n_freq, nb), -2, 2)
    neg = [[bool(w[0, f, b] <= 0) if (f, b) in ((0, 0), (n_freq - 1, nb - 1)) else None for b in range(nb)] for f in range(n_freq)]
    for f in range(n_freq):
        for b in range(nb):
            if neg[f][b] is None:
                t.assume(w[0, f, b] > 0)
    old = w.copy()
    obs = _obs(t, n_pol, ta, tb, [1.0 + f for f in range(n_freq)], n_time, per, time_use, tile_use, freq_use)
    params = {"uu": t.np.array([0.5 + 0.25 * k for k in range(nb)]), "vv": t.np.array([0.25 * (-1) ** k for k in range(nb)])}
    kuu, kvv = params["uu"].copy(), params["vv"].copy()
    out, obs = u.vis_weights_update(w, obs, {"dim": 2}, params)
    count = 0
    for f in range(n_freq):
        for b in range(nb):
            keep = freq_use[f] and time_use[b // per] and tile_use[ta[b] - 1] and tile_use[tb[b] - 1]
            for p in range(n_pol):
                if keep:
                    t.eq("other weights stay", out[p, f, b], old[p, f, b])
                else:
                    t.check("cut weights are zero", out[p, f, b] == 0)
            if keep and not neg[f][b]:
                count += 1
    t.check("number of gridded visibilities", obs["n_vis"] == count)
    t.eq("uv coordinates untouched", params["uu"], kuu)
    t.eq("uv coordinates untouched", params["vv"], kvv)
    for key, want in (("n_time_flag", n_time - sum(time_use)), ("n_tile_flag", n_tile - sum(tile_use)), ("n_freq_flag", n_freq - sum(freq_use))):
        t.check("flagged times, tiles and frequencies counted", key in obs and obs[key] == want)


@harness(
    quick=[dict(nb=1, n_freq=2, dim=8, el=8, psf=2), dict(nb=1, n_freq=1, dim=8, el=12, psf=4), dict(nb=1, n_freq=1, dim=12, el=8, psf=2, n_pol=4)],
    thorough=[dict(nb=2, n_freq=1, dim=8, el=12, psf=4), dict(nb=2, n_freq=2, dim=8, el=8, psf=2), dict(nb=1, n_freq=3, dim=12, el=8, psf=4)],
    budget=60,
)
def geometry(t, nb, n_freq, dim, el, psf, n_pol=1):
    """off the grid or outside the baseline range loses its weight, anything else keeps it"""
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    freq = [1.0 + f for f in range(n_freq)]
    lo, hi = 0.75, 3.25
    obs = _obs(t, n_pol, [1] * nb, list(range(2, nb + 2)), freq, 1, nb, [1], [1] * (nb + 1), [1] * n_freq, dim=dim, elements=el, lo=lo, hi=hi)
    uu = t.real("u", nb, -4, 4)
    vv = t.real("v", nb, -4, 4)
    w = t.real("w", (n_pol, n_freq, nb), 0.5, 1)
    old = w.copy()
    want = []
    for f in range(n_freq):
        for b in range(nb):
            x, y = uu[b], vv[b]
            r2 = (x * x + y * y) * freq[f] ** 2
            for lim in (lo, hi):
                d = r2 - lim * lim
                t.assume(t.Or(d > 1e-6, d < -1e-6))
            s = 1
            if bool(y > 0):
                s = -1
            fx = s * x * freq[f]
            fy = s * y * freq[f]
            x0 = t.np.floor(fx) + dim / 2 - (psf / 2 - 1)
            y0 = t.np.floor(fy) + el / 2 - (psf / 2 - 1)
            inside = t.And(x0 > 0, y0 > 0, x0 + psf - 1 < dim - 1, y0 + psf - 1 < el - 1)
            want.append((f, b, bool(t.And(inside, r2 > lo * lo, r2 < hi * hi))))
    out, obs = u.vis_weights_update(w, obs, {"dim": psf}, {"uu": uu, "vv": vv})
    for f, b, keep in want:
        for p in range(n_pol):
            if keep:
                t.eq("weight stays", out[p, f, b], old[p, f, b])
            else:
                t.check("weight is zero", out[p, f, b] == 0)
    t.check("number of gridded visibilities", obs["n_vis"] == sum(k for *_, k in want))


@harness(quick=[dict(n_tile=24, n_time=1, dim=80), dict(n_tile=300, n_time=1, dim=80, first=True)], thorough=[dict(n_tile=130, n_time=2, dim=400)], budget=60, validate=2)
def many(t, n_tile, n_time, dim, first=False):
    """more baselines, tiles and gridded visibilities than small integers can count"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    pairs = [(a, b) for a in range(1, n_tile + 1) for b in range(a + 1, n_tile + 1)]
    if first:
        pairs = [p for p in pairs if p[0] == 1]
    per = len(pairs)
    nb, n_freq = per * n_time, 2
    ta, tb = [a for a, _ in pairs] * n_time, [b for _, b in pairs] * n_time
    tile_use = [1] * n_tile
    off = t.choice("cut", [n_tile - 1] if first else [None, n_tile - 1, 20])
    if off is not None:
        tile_use[off] = 0
    w = t.np.ones((1, n_freq, nb))
    k = t.choice("one", [0, nb // 2])
    x = t.real("w", None, -1, 1)
    w[0, 1, k] = x
    good = bool(x > 0)
    obs = _obs(t, 1, ta, tb, [1.0, 1.5], n_time, per, [1] * n_time, tile_use, [1] * n_freq, dim=dim)
    params = {"uu": t.np.array([0.5 + 0.25 * (i % 5) for i in range(nb)]), "vv": t.np.array([0.25 * (-1) ** i for i in range(nb)])}
    out, obs = u.vis_weights_update(w, obs, {"dim": 2}, params)
    keep = [bool(tile_use[a - 1] and tile_use[b - 1]) for a, b in zip(ta, tb)]
    for f in range(n_freq):
        rest = [i for i in range(nb) if (f, i) != (1, k)]
        t.check("cut weights are zero, others stay", [float(out[0, f, i]) for i in rest] == [float(keep[i]) for i in rest])
    t.check("the one weight", t.near(out[0, 1, k], x if keep[k] else 0))
    t.check("number of gridded visibilities", obs["n_vis"] == n_freq * sum(keep) - (1 if keep[k] and not good else 0))
