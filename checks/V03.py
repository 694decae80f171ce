"""vis_noise_calc."""
from symnp.spec import harness

ASSUMPTIONS = ["vis_noise_calc: baselines ordered by time, same number per time"]


def _spread(t, s, var):
    d = 2 * s * s - var
    e = 1e-6 * (1 + var)
    t.check("spread over sqrt 2", t.And(d <= e, -d <= e))


@harness(quick=[dict(nb=2, n_freq=1), dict(nb=2, n_freq=2, n_pol=1)], thorough=[dict(nb=2, n_freq=2), dict(nb=3, n_freq=1), dict(nb=4, n_freq=1), dict(nb=3, n_freq=2, n_pol=1)], budget=50)
def given_pairs(t, nb, n_freq, n_pol=2):
    """per polarisation and frequency: spread of even-odd imaginary differences over sqrt 2, jointly unflagged samples only"""
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    vis = t.complex("v", (n_pol, n_freq, 2 * nb), -8, 8)
    w = t.real("w", (n_pol, n_freq, 2 * nb), -1, 1)
    obs = {"n_pol": n_pol, "n_freq": n_freq, "n_time": 2, "baseline_info": {}}
    even = t.np.arange(nb) * 2
    odd = even + 1
    kv, kw = vis.copy(), w.copy()
    out = u.vis_noise_calc(obs, vis, w, bi_use=[even, odd])
    t.eq("visibilities untouched", vis, kv)
    t.eq("weights untouched", w, kw)
    t.check("one value per polarisation and frequency", tuple(out.shape) == (n_pol, n_freq))
    for p in range(n_pol):
        for f in range(n_freq):
            use = [k for k in range(nb) if bool(t.And(w[p, f, 2 * k] > 0, w[p, f, 2 * k + 1] > 0))]
            d = [vis[p, f, 2 * k].imag - vis[p, f, 2 * k + 1].imag for k in use]
            s = out[p, f]
            if not use:
                t.check("nothing usable gives zero", s == 0)
                continue
            mu = sum(d, 0) / len(d)
            var = sum(((x - mu) * (x - mu) for x in d), 0) / len(d)
            t.check("not negative", s >= 0)
            _spread(t, s, var)


@harness(quick=[dict(nb=1), dict(nb=2)], thorough=[dict(nb=3)], budget=50)
def own_split(t, nb):
    """without given pairs the two times are split and compared"""
    t.split_cases()
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    vis = t.complex("v", (1, 1, 2 * nb), -8, 8)
    w = t.real("w", (1, 1, 2 * nb), -1, 1)
    old = w.copy()
    obs = {"n_pol": 1, "n_freq": 1, "n_time": 2, "baseline_info": {"bin_offset": t.np.array([0, nb]), "time_use": t.np.array([1, 1])}}
    kv = vis.copy()
    s = u.vis_noise_calc(obs, vis, w)[0, 0]
    t.eq("visibilities untouched", vis, kv)
    t.eq("weights untouched", w, old)
    use = [k for k in range(nb) if bool(t.And(old[0, 0, k] > 0, old[0, 0, nb + k] > 0))]
    if not use:
        t.check("nothing usable gives zero", s == 0)
        return
    d = [vis[0, 0, k].imag - vis[0, 0, nb + k].imag for k in use]
    mu = sum(d, 0) / len(d)
    _spread(t, s, sum(((x - mu) * (x - mu) for x in d), 0) / len(d))
    obs1 = {"n_pol": 1, "n_freq": 1, "n_time": 1, "baseline_info": {}}
    t.eq("a single time has no noise estimate", u.vis_noise_calc(obs1, vis, w), t.np.zeros((1, 1)))


@harness(quick=[dict(n_time=3, nb=2), dict(n_time=4, nb=2), dict(n_time=5, nb=1), dict(n_time=3, nb=2, n_pol=4)], thorough=[dict(n_time=6, nb=2), dict(n_time=4, nb=3)], budget=50)
def own_split_times(t, n_time, nb, n_pol=1):
    """several times, some of them cut: neighbouring times which are both used are compared, baseline by baseline"""
    np, u = t.np, t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    used = [bool(t.flag(f"time{k}")) for k in range(n_time)]
    if not any(used):
        used[-1] = True
    t.split_cases()
    n = n_time * nb
    vis = np.zeros((n_pol, 1, n), dtype="complex128")
    w = np.ones((n_pol, 1, n))
    for k in range(n):
        vis[:, 0, k] = 1.0 + k + 1j * (((5 * k * k + 3 * k) % 11) * 0.5 - 2.0)
    h = t.choice("hot", sorted({0, nb, n - 1}))
    hp = t.choice("pol", list(range(n_pol)))
    vis[hp, 0, h] = t.complex("v", None, -8, 8)
    w[hp, 0, h] = t.real("w", None, -1, 1)
    obs = {"n_pol": n_pol, "n_freq": 1, "n_time": n_time, "baseline_info": {"bin_offset": np.array([k * nb for k in range(n_time)]), "time_use": np.array([int(x) for x in used])}}
    kv, kw = vis.copy(), w.copy()
    usable = bool(w[hp, 0, h] > 0)
    start = used.index(True)
    pairs = [(a, a + 1) for a in range(start, n_time - 1, 2) if used[a] and used[a + 1]]
    out = u.vis_noise_calc(obs, vis, w)
    t.eq("visibilities untouched", vis, kv)
    t.eq("weights untouched", w, kw)
    for p in range(n_pol):
        d = []
        for a, b in pairs:
            for k in range(nb):
                if usable or p != hp or h not in (a * nb + k, b * nb + k):
                    # the earlier time may be the odd one
                    d.append((kv[p, 0, a * nb + k].imag - kv[p, 0, b * nb + k].imag) * (1 if a % 2 == 0 else -1))
        if not d:
            t.check("nothing usable gives zero", out[p, 0] == 0)
            continue
        mu = sum(d, 0) / len(d)
        _spread(t, out[p, 0], sum(((x - mu) * (x - mu) for x in d), 0) / len(d))
