"""vis_flag_basic."""
from symnp.spec import harness

ASSUMPTIONS = [
    "vis_flag_basic: baselines ordered by time, the same number per time; channel-edge flagging for 96, 192 and 384 frequencies",
    "vis_flag_basic: flagged tiles, times and frequencies from the metadata stay flagged",
]


def _obs(t, n_pol, n_freq, n_time, pairs, n_tile, time_use, tile_use=None, freq_use=None, freq=None):
    per = len(pairs)
    return {
        "n_pol": n_pol,
        "n_freq": n_freq,
        "n_time": n_time,
        "n_tile": n_tile,
        "baseline_info": {
            "freq": t.np.array(freq or [1e6 * (k + 1) for k in range(n_freq)]),
            "tile_a": t.np.array([a for a, _ in pairs] * n_time),
            "tile_b": t.np.array([b for _, b in pairs] * n_time),
            "tile_use": t.np.array(tile_use or [1] * n_tile),
            "freq_use": t.np.array(freq_use or [1] * n_freq),
            "time_use": t.np.array(time_use),
            "bin_offset": t.np.arange(n_time) * per,
            "tile_names": t.np.array(["T%d" % (k + 1) for k in range(n_tile)]),
        },
    }


CFG = {"flag_freq_start": None, "flag_freq_end": None, "flag_tiles": [], "flag_frequencies": True}


def _consistency(t, obs, w0, n_pol, n_freq, pairs, n_time, n_tile, tile_use, freq_use, all_freq=False):
    """tile_use/freq_use follow the weights w0 (a [p][f][b] table of used / not used before times are cut)"""
    nb = len(pairs) * n_time
    for f in range(n_freq):
        used = all_freq or all(any(w0[p][f][b] for b in range(nb)) for p in range(n_pol))
        t.check("frequency used exactly when every polarisation has a positive weight in it", bool(obs["baseline_info"]["freq_use"][f] == 1) == bool(used and freq_use[f]))
        t.check("frequency flag is 0 or 1", obs["baseline_info"]["freq_use"][f] in (0, 1))
    for k in range(n_tile):
        mine = [b for b in range(nb) if k + 1 in pairs[b % len(pairs)]]
        used = all(any(w0[p][f][b] for f in range(n_freq) for b in mine) for p in range(n_pol))
        t.check("tile used exactly when every polarisation has a positive weight on it", bool(obs["baseline_info"]["tile_use"][k] == 1) == bool(used and tile_use[k]))
    b = obs["baseline_info"]
    t.check("flag counts", t.And(obs["n_time_flag"] == sum(int(x) == 0 for x in b["time_use"]), obs["n_tile_flag"] == sum(int(x) == 0 for x in b["tile_use"]), obs["n_freq_flag"] == sum(int(x) == 0 for x in b["freq_use"])))


@harness(
    quick=[dict(n_pol=2, n_time=1, n_freq=1), dict(n_pol=1, n_time=2, n_freq=1), dict(n_pol=1, n_time=1, n_freq=2)],
    thorough=[dict(n_pol=1, n_time=2, n_freq=2), dict(n_pol=2, n_time=2, n_freq=1), dict(n_pol=1, n_time=3, n_freq=2), dict(n_pol=2, n_time=1, n_freq=2)],
    budget=60,
)
def times_tiles_frequencies(t, n_pol, n_time, n_freq):
    """times cut, use flags derived from the weights and kept from the metadata (no channel edges: 768/n_freq wide channels flag everything)"""
    t.split_cases()
    f_ = t.mod("PyFHD.flagging.flagging")
    pairs = [(1, 2), (3, 2)] if n_pol == 2 else [(1, 2)]
    n_tile = 3 if n_pol == 2 else 2
    per = len(pairs)
    nb = per * n_time
    time_use = [int(t.flag("time%d" % k)) for k in range(n_time)]
    tile_use = [int(t.flag("tile%d" % k)) for k in range(1)] + [1] * (n_tile - 1)
    freq_use = [int(t.flag("freq%d" % k)) for k in range(1)] + [1] * (n_freq - 1)
    w = t.real("w", (n_pol, n_freq, nb), -1, 2)
    old = w.copy()
    w0 = [[[bool(old[p, f, b] > 0) for b in range(nb)] for f in range(n_freq)] for p in range(n_pol)]
    obs = _obs(t, n_pol, n_freq, n_time, pairs, n_tile, time_use, tile_use, freq_use)
    vis = t.np.zeros((n_pol, n_freq, nb), dtype=t.np.complex128)
    start = None
    cfg = dict(CFG, flag_frequencies=False)
    all_zero = t.choice("data", ["none"])
    out, obs = f_.vis_flag_basic(w, vis, obs, cfg, t.logger)
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(nb):
                if time_use[b // per]:
                    t.eq("weight stays", out[p, f, b], old[p, f, b])
                else:
                    t.check("cut time has no weight", out[p, f, b] == 0)
    _consistency(t, obs, w0, n_pol, n_freq, pairs, n_time, n_tile, tile_use, freq_use, all_freq=True)


@harness(quick=[dict(n_freq=2, nb=1, n_pol=1), dict(n_freq=1, nb=2, n_pol=2), dict(n_freq=2, nb=2, n_pol=1, dead=1)], thorough=[dict(n_freq=2, nb=2, n_pol=2, dead=0), dict(n_freq=2, nb=2, n_pol=1), dict(n_freq=2, nb=2, n_pol=2), dict(n_freq=3, nb=2, n_pol=1)], budget=60)
def unflagging(t, n_freq, nb, n_pol, dead=None):
    """without frequency flagging a frequency flagged for every baseline comes back where its data is not zero, on baselines with a positive weight"""
    t.split_cases()
    f_ = t.mod("PyFHD.flagging.flagging")
    pairs = [(1, 2), (2, 3), (1, 3)][:nb]
    obs = _obs(t, n_pol, n_freq, 1, pairs, 3, [1])
    w = t.real("w", (n_pol, n_freq, nb), -1, 2)
    if dead is not None:
        for b in range(nb):
            for p in range(n_pol):
                t.assume(w[p, dead, b] <= 0)
        for p in range(1, n_pol):
            t.assume(w[p, 1 - dead, nb - 1] > 0)
    old = w.copy()
    vis = t.complex("v", (n_pol, n_freq, nb), -2, 2)
    pos = [[[bool(old[p, f, b] > 0) for b in range(nb)] for f in range(n_freq)] for p in range(n_pol)]
    out, obs = f_.vis_flag_basic(w, vis, obs, dict(CFG, flag_frequencies=False), t.logger)
    for p in range(n_pol):
        for f in range(n_freq):
            whole = not any(pos[p][f])
            for b in range(nb):
                live = any(pos[p][g][b] for g in range(n_freq))
                if whole and live:
                    z = t.And(vis[p, f, b].real == 0, vis[p, f, b].imag == 0)
                    t.check("weight one where there is data", t.If(z, out[p, f, b] == old[p, f, b], out[p, f, b] == 1))
                else:
                    t.eq("other weights stay", out[p, f, b], old[p, f, b])
    t.check("no frequency is reported flagged", all(int(x) == 1 for x in obs["baseline_info"]["freq_use"]))


@harness(quick=[dict(n_freq=96, sym=(0, 1, 2, 3, 94)), dict(n_freq=96, sym=(1, 90), n_pol=2), dict(n_freq=192, sym=(0, 1, 7, 8)), dict(n_freq=384, sym=(0, 1, 15, 16, 382))], thorough=[dict(n_freq=96, sym=tuple(range(12))), dict(n_freq=384, sym=tuple(range(10, 20)))], budget=60)
def channel_edges(t, n_freq, sym, n_pol=1):
    """edges of the 24 coarse channels (80 kHz on each side) are cut, nothing else"""
    f_ = t.mod("PyFHD.flagging.flagging")
    obs = _obs(t, n_pol, n_freq, 1, [(1, 2)], 2, [1])
    w = t.np.ones((n_pol, n_freq, 1))
    x = t.real("w", (n_pol, len(sym)), -1, 2)
    for k, f in enumerate(sym):
        for p in range(n_pol):
            w[p, f, 0] = x[p, k]
    old = w.copy()
    vis = t.np.zeros((n_pol, n_freq, 1), dtype=t.np.complex128)
    coarse = n_freq // 24
    edge = -(-2 // (768 // n_freq))
    pos = {}
    out, obs = f_.vis_flag_basic(w, vis, obs, dict(CFG), t.logger)
    for f in range(n_freq):
        k = f % coarse
        cut = k < edge or k >= coarse - edge
        if cut:
            t.check("channel edge has no weight", t.And(*[out[p, f, 0] == 0 for p in range(n_pol)]))
            t.check("channel edge reported", obs["baseline_info"]["freq_use"][f] == 0)
        else:
            t.eq("inside keeps its weight", out[:, f, 0], old[:, f, 0])
            t.check("used exactly when every polarisation has a positive weight", bool(obs["baseline_info"]["freq_use"][f] == 1) == bool(t.And(*[old[p, f, 0] > 0 for p in range(n_pol)])))


@harness(quick=[dict(n_freq=96, nb=1)], thorough=[dict(n_freq=96, nb=2), dict(n_freq=192, nb=1)], budget=60)
def band_limits_and_names(t, n_freq, nb):
    """frequencies outside the limits and baselines of named tiles lose their weight"""
    f_ = t.mod("PyFHD.flagging.flagging")
    pairs = [(1, 2), (2, 3)]
    a = t.choice("a", [None, 10, 10.5])
    b = t.choice("b", [None, 90, 89.5])
    names = t.choice("names", [[], ["T1"], ["T3", "T1"]])
    obs = _obs(t, 2, n_freq, 1, pairs, 3, [1])
    w = t.np.ones((2, n_freq, 2))
    x = t.real("w", (2, 3), -1, 2)
    sym = [9, 45, 89]
    for p in range(2):
        for k, f in enumerate(sym):
            w[p, f, 0] = x[p, k]
    old = w.copy()
    vis = t.np.zeros((2, n_freq, 2), dtype=t.np.complex128)
    out, obs = f_.vis_flag_basic(w, vis, obs, dict(CFG, flag_freq_start=a, flag_freq_end=b, flag_tiles=names), t.logger)
    coarse = n_freq // 24
    edge = -(-2 // (768 // n_freq))
    idx = [f for f in range(n_freq) if edge <= f % coarse < coarse - edge]
    for f in range(n_freq):
        mhz = f + 1
        cut = f not in idx or (a is not None and mhz < a) or (b is not None and mhz > b)
        for p in range(2):
            for c in range(2):
                if cut or any(int(nm[1:]) in pairs[c] for nm in names):
                    t.check("cut weight is zero", out[p, f, c] == 0)
                else:
                    t.eq("kept weight", out[p, f, c], old[p, f, c])
    tiles = [int(v) for v in obs["baseline_info"]["tile_use"]]
    if names == ["T1"]:
        t.check("the named tile is reported", tiles == [0, 1, 1])
    if len(names) == 2:
        t.check("tiles without any baseline are reported", tiles == [0, 0, 0])
