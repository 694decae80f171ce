"""create_obs, update_obs."""
import math

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the metadata of the metafits file is given (reading it is O02's)",
    "visibilities are sorted by time, baselines keep 1e-6 from the edge of the uv grid",
]
OB = "PyFHD.data_setup.obs"


def _cfg(**kw):
    d = {
        "n_pol": 2,
        "instrument": "mwa",
        "obs_id": "obs",
        "beam_nfreq_avg": None,
        "FoV": None,
        "kbinsize": 0.5,
        "dimension": 64,
        "elements": 64,
        "min_baseline": None,
        "time_cut": None,
        "dft_threshold": False,
        "healpix_inds": None,
    }
    d.update(kw)
    return d


def _make(t, cfg, freq, uu, vv, times, a, b, numbers, meta=None, n_pol=4):
    m = t.mod(OB)
    n_tile = len(numbers)
    head = {"n_pol": n_pol, "n_tile": n_tile, "n_freq": len(freq), "freq_res": 1.0, "frequency_array": t.np.array(freq)}
    params = {"uu": _arr(t, uu), "vv": _arr(t, vv), "time": _arr(t, times), "antenna1": _arr(t, a), "antenna2": _arr(t, b)}
    md = {"jdate": "jd", "tile_names": "names", "tile_height": "height", "tile_flag": t.np.zeros(n_tile, dtype="int64"), "time_res": 2.0, "delays": None, "obsra": 1.5}
    md.update(meta or {})
    seen = []

    def read(*args):
        seen.append(args)
        return md

    keep = m.read_metafits
    m.read_metafits = like(m, "read_metafits", read)
    try:
        obs = m.create_obs(head, params, {"antenna_numbers": _arr(t, numbers)}, cfg, t.logger)
    finally:
        m.read_metafits = keep
    t.check("the metadata is read once", len(seen) == 1)
    return obs, params, md


def _arr(t, v):
    out = t.np.zeros(len(v))
    for i, x in enumerate(v):
        out[i] = x
    return out


@harness(
    quick=[dict(blocks=(3, 3)), dict(blocks=(4,)), dict(blocks=(2, 2, 2)), dict(blocks=(2, 1, 3, 1))],
    thorough=[dict(blocks=(3, 3, 3)), dict(blocks=(1, 1, 1, 1, 1))],
    budget=60,
)
def structure(t, blocks):
    """times and baselines of the data, tiles as positions in the antenna table"""
    t.split_cases()
    n_time = len(blocks)
    n_tile = 3
    n = sum(blocks)
    jd = t.real("jd", n_time, 2.4e6, 2.5e6)
    for i in range(1, n_time):
        t.assume(jd[i] > jd[i - 1])
    times = [jd[i] for i in range(n_time) for _ in range(blocks[i])]
    num = t.int("number", n_tile, 0, 40)
    for i in range(n_tile):
        for j in range(i):
            t.assume(num[i] != num[j])
    pairs = [(0, 1), (2, 0), (1, 2), (1, 1)]
    q = t.choice("order", [0, 1])
    tiles = [pairs[(i + q) % 4] for i in range(n)]
    t.assume(t.np.max(_arr(t, [num[x] for x, _ in tiles])) > 0)
    t.assume(t.np.max(_arr(t, [num[y] for _, y in tiles])) > 0)
    flag = t.np.zeros(n_tile, dtype="int64")
    for i in t.choice("flagged", [(), (1,), (0, 2)]):
        flag[i] = 1
    pol = t.choice("n_pol", [0, 2])
    obs, params, md = _make(t, _cfg(n_pol=pol), [1.0, 2.0], [1.0 + i for i in range(n)], [2.0] * n, times, [num[x] for x, _ in tiles], [num[y] for _, y in tiles], [num[i] for i in range(n_tile)], {"tile_flag": flag})
    b = obs["baseline_info"]
    t.check("number of polarisations", obs["n_pol"] == (pol or 4))
    t.check("number of times", obs["n_time"] == n_time)
    t.check("number of baselines", obs["n_baselines"] == blocks[0])
    t.check("number of visibilities", obs["n_vis"] == n * 2 and obs["n_vis_raw"] == n * 2 and obs["n_vis_in"] == n * 2)
    t.check("number of offsets", b["bin_offset"].shape == (n_time,))
    for i in range(n_time):
        t.eq("first visibility of a time", b["bin_offset"][i], sum(blocks[:i]))
    for i, (x, y) in enumerate(tiles):
        t.eq("first tile", b["tile_a"][i], x + 1)
        t.eq("second tile", b["tile_b"][i], y + 1)
        t.eq("first antenna of the parameters", params["antenna1"][i], x + 1)
        t.eq("second antenna of the parameters", params["antenna2"][i], y + 1)
    for i in range(n_tile):
        t.eq("tiles not flagged are used", b["tile_use"][i], 1 - flag[i])
    t.check("number of flagged tiles", obs["n_tile_flag"] == int(t.np.sum(flag)))
    t.check("all frequencies and times are used", bool(t.np.all(b["freq_use"] == 1)) and bool(t.np.all(b["time_use"] == 1)) and obs["n_time_flag"] == 0)
    t.check("metadata is kept", obs["obsra"] == 1.5 and b["tile_names"] == "names" and b["jdate"] == "jd" and obs["time_res"] == 2.0)


@harness(quick=[dict(n=1), dict(n=2), dict(n=5)], thorough=[dict(n=8)], budget=60)
def cuts(t, n):
    """times are cut, in seconds rounded up to whole integrations, from the start or (if negative) from the end"""
    t.split_cases()
    res = t.choice("integration", [2.0, 0.5])
    two = t.flag("two")
    c = t.real("cut", 2, -14, 14)
    if res < 1:
        t.assume(t.And(c[0] > -4, c[0] < 4, c[1] > -4, c[1] < 4))
    cut = [c[0], c[1]] if two else [c[0]]
    if not two:
        t.assume(c[1] == 0)
    used = [1] * n
    for x in cut:
        s = x if bool(x >= 0) else -x
        k = 0
        while bool(s > k * res):
            k += 1
        for i in range(min(k, n)):
            used[i if bool(x >= 0) else n - 1 - i] = 0
    obs, _, _ = _make(t, _cfg(time_cut=_arr(t, cut) if t.flag("array") else cut, dft_threshold=n > 1), [1.0, 1.5, 4.0], [1.0 + i for i in range(n)], [2.0] * n, [2.45e6 + i for i in range(n)], [1] * n, [2] * n, [1, 2], {"time_res": res})
    for i in range(n):
        t.eq("time used", obs["baseline_info"]["time_use"][i], used[i])
    t.eq("number of flagged times", obs["n_time_flag"], n - sum(used))
    t.eq("the centre frequency is the median", obs["freq_center"], 1.5)
    t.eq("threshold of the transform", obs["dft_threshold"], 64 / (2 * math.pi) ** 2 if n > 1 else 0, 1e-9)


@harness(
    quick=[dict(what="u"), dict(what="v"), dict(what="fov"), dict(what="sizes")],
    budget=60,
)
def grid(t, what):
    """size of the uv grid and of its pixels, and the shortest and longest baseline inside of it"""
    t.split_cases()
    freq = [1.0, 1.25]
    uu, vv = [3.0, -4.25, 0.5, 0.0], [1.0, 2.25, -0.5, 0.0]
    cfg = _cfg(dimension=16, elements=24)
    k, dim, el = 0.5, 16, 24
    lo = None
    if what == "v":
        uu[1] = -2.5
    if what in ("u", "v"):
        x = t.real("x", None, -9, 9)
        (uu if what == "u" else vv)[1] = x
        t.assume(t.Or(x > 1e-3, x < -1e-3))
        lo = t.choice("min", [None, 0.25, 2.0])
        cfg["min_baseline"] = lo
    elif what == "fov":
        cfg["kbinsize"] = t.choice("kbinsize", [None, 0.25])
        cfg["FoV"] = t.choice("fov", [None, 0, t.real("field", None, 30, 90)])
        k = 0.5 if cfg["kbinsize"] is None else 0.25
        if cfg["FoV"] is not None and not bool(cfg["FoV"] == 0):
            k = (180 / math.pi) / cfg["FoV"]
    else:
        d, e = t.choice("sizes", [(16, None), (None, 24), (None, None), (32, 8)])
        cfg["dimension"], cfg["elements"] = d, e
        cfg["kbinsize"] = t.choice("kbinsize", [0.5, 0.2])
        k = cfg["kbinsize"]
        dim, el = d or e, e or d
        if not dim:
            # the longest axis is 5.3125 wavelengths: 21 and 53 pixels
            dim = el = 16 if k == 0.5 else 32
    r, inside = [], []
    for f in freq:
        for q in range(4):
            x, y = uu[q] * f, vv[q] * f
            ax, ay = (x if bool(x >= 0) else -x), (y if bool(y >= 0) else -y)
            for d, s in ((ax, dim), (ay, el)):
                t.assume(t.Or(d / k < s / 2 - 1e-6, d / k > s / 2 + 1e-6))
            s = x * x + y * y
            r.append(s)
            if bool(t.And(ax / k < dim / 2, ay / k < el / 2)):
                inside.append(s)
    obs, _, _ = _make(t, cfg, freq, uu, vv, [1.0] * 4, [1, 1, 2, 1], [2, 3, 3, 1], [1, 2, 3])
    t.eq("pixel size", obs["kpix"], k, 1e-9)
    t.check("grid", (obs["dimension"], obs["elements"]) == (dim, el))
    t.eq("pixel size in degrees", obs["degpix"] * k * dim, 180 / math.pi, 1e-9)
    big, small = obs["max_baseline"], obs["min_baseline"]
    t.check("lengths are positive", t.And(big > 0, small > 0))
    t.check("the longest baseline inside the grid", t.And(*[s <= big * big + 1e-9 for s in inside]))
    t.check("a baseline inside the grid is that long", t.Or(*[t.And(s - big * big < 1e-9, s - big * big > -1e-9) for s in inside]))
    low = [s for s in r if not bool(s == 0)]
    if lo is not None and bool(small == lo):
        t.check("a minimum above the shortest baseline", t.Or(*[s <= lo * lo + 1e-9 for s in low]))
    else:
        t.check("the shortest baseline", t.And(*[s >= small * small - 1e-9 for s in low]))
        t.check("a baseline is that short", t.Or(*[t.And(s - small * small < 1e-9, s - small * small > -1e-9) for s in low]))
        if lo is not None:
            t.check("at least the minimum", bool(small >= lo))


@harness(quick=[dict(n=1), dict(n=5), dict(n=6)], thorough=[dict(n=9)], budget=60)
def bins(t, n):
    """frequencies are binned for the beam; updating the observation changes the grid, the bins and the limits"""
    t.split_cases()
    m = t.mod(OB)
    avg = t.choice("average", [None, 1, 2, 3])
    freq = [100.0 + f for f in range(n)]
    obs, _, _ = _make(t, _cfg(beam_nfreq_avg=avg), freq, [0.01, 0.02], [0.01, 0.02], [1.0] * 2, [1, 1], [2, 3], [1, 2, 3])
    avg = avg or 1
    b = obs["baseline_info"]
    t.check("number of frequencies averaged", obs["beam_nfreq_avg"] == avg)
    for f in range(n):
        t.eq("bin of a frequency", b["fbin_i"][f], f // avg)
        t.eq("frequency", b["freq"][f], freq[f])
    t.eq("centre frequency", obs["freq_center"], sum(freq) / n)
    # update
    obs["astr"] = {"naxis": 0, "cdelt": 0, "crpix": 0, "other": 5}
    big = t.real("longest", None, 1, 60)
    obs["max_baseline"] = big
    k = t.real("kbinsize", None, 0.25, 2)
    dim = t.choice("dimension", [32, 40])
    fov = t.choice("fov", [None, 50.0])
    new = t.choice("new", [None, 2])
    olds = [obs[x] for x in ("kpix", "dimension", "elements", "degpix")]
    out = m.update_obs(obs, dim, k, beam_nfreq_avg=new, fov=fov)
    t.check("the observation before is kept", [obs[x] for x in ("dimension", "elements")] == olds[1:3] and obs["astr"] == {"naxis": 0, "cdelt": 0, "crpix": 0, "other": 5})
    t.eq("pixel size before", obs["kpix"], olds[0])
    t.eq("pixel size in degrees before", obs["degpix"], olds[3])
    t.eq("longest baseline before", obs["max_baseline"], big)
    for f in range(n):
        t.eq("bin of a frequency before", b["fbin_i"][f], f // avg)
    kp = k if fov is None else (180 / math.pi) / fov
    lim = dim * kp / math.sqrt(2)
    t.eq("new pixel size", out["kpix"], kp, 1e-9)
    t.check("new grid", (out["dimension"], out["elements"]) == (dim, dim))
    t.check("new centre", (out["obsx"], out["obsy"]) == (dim / 2, dim / 2))
    t.eq("new pixel size in degrees", out["degpix"] * kp * dim, 180 / math.pi, 1e-9)
    t.eq("new longest baseline", out["max_baseline"], big if bool(big < lim) else lim, 1e-9)
    t.check("astrometry", list(out["astr"]["naxis"]) == [dim, dim] and out["astr"]["other"] == 5)
    for i in range(2):
        t.eq("astrometry: pixel size", out["astr"]["cdelt"][i] * kp * dim, 180 / math.pi, 1e-9)
        t.eq("astrometry: reference pixel", out["astr"]["crpix"][i], dim / 2 + 1)
    # without a given number, that of the bins before
    used = new or int(_even(n / (-(-n // avg))))
    for f in range(n):
        t.eq("new bin of a frequency", out["baseline_info"]["fbin_i"][f], f // used)


def _even(x):
    return round(x)
