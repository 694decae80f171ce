"""vis_flag: statistical flagging."""
from symnp.spec import harness

ASSUMPTIONS = ["vis_flag: fewer than 20 frequencies (no median filter); figures of merit at least 1e-6 away from the rejection limits"]


def _obs(t, n_freq, ta, tb, n_time, n_pol=1, lo=0.0, hi=1e9):
    nt = max(ta + tb)
    return {
        "n_pol": n_pol,
        "n_freq": n_freq,
        "n_time": n_time,
        "min_baseline": lo,
        "max_baseline": hi,
        "baseline_info": {
            "tile_a": t.np.array(ta),
            "tile_b": t.np.array(tb),
            "freq": t.np.array([1.0 + k for k in range(n_freq)]),
            "tile_use": t.np.array([1] * nt),
            "freq_use": t.np.array([1] * n_freq),
            "time_use": t.np.array([1] * n_time),
            "bin_offset": t.np.arange(n_time) * (len(ta) // n_time),
            "tile_names": t.np.array(["T%d" % k for k in range(nt)]),
        },
    }


def _rest(t, out, old, n_pol, obs, n_freq, nb):
    cnt = 0
    for f in range(n_freq):
        for b in range(nb):
            for p in range(n_pol):
                t.check("a weight is either kept or zero", t.Or(out[p, f, b] == 0, out[p, f, b] == old[p, f, b]))
            if bool(out[0, f, b] > 0):
                cnt += 1
    t.check("number of unflagged visibilities", obs["n_vis"] == cnt)


@harness(quick=[dict(nf=10, two=False)], thorough=[dict(nf=10, two=True), dict(nf=12, two=False)], budget=60)
def frequencies(t, nf, two):
    """a frequency is cut exactly when its spread is zero or further than three deviations from the median spread"""
    f_ = t.mod("PyFHD.flagging.flagging")
    nb = 12
    s = [1.0 + (k % 4) / 4 for k in range(nf)]
    x = t.real("s", 2 if two else 1, 0, 16)
    at = [3, 7][: len(x)]
    for k, p in enumerate(at):
        s[p] = x[k]
        if not bool(x[k] == 0):
            t.assume(x[k] > 1e-3)
    # two more baselines: one without data, one without weight
    live = nb
    nb = nb + 2
    vis = t.np.zeros((1, nf, nb), dtype=t.np.complex128)
    w = t.np.ones((1, nf, nb))
    for f in range(nf):
        for b in range(live):
            vis[0, f, b] = 32 + (s[f] if b % 2 else -s[f])
        vis[0, f, live + 1] = 64.0 + 8 * (f % 3)
        w[0, f, live + 1] = -(f % 2)              # flagged either way
    old = w.copy()
    ta, tb = [1] * nb, [2] * nb
    obs = _obs(t, nf, ta, tb, 1)
    out, obs = f_.vis_flag(vis, w, obs, {"uu": t.np.ones(nb), "vv": t.np.zeros(nb)}, t.logger)
    order = sorted(range(nf), key=lambda k: _Key(s[k]))
    med = s[order[nf // 2]]
    live = [k for k in range(nf) if not bool(s[k] == 0)]
    mu = sum((s[k] for k in live), 0) / len(live)
    # the deviation is taken about the common median, so it is the plain spread of the non-zero ones
    var = sum(((s[k] - mu) * (s[k] - mu) for k in live), 0) / len(live)
    for k in range(nf):
        d2 = (med - s[k]) * (med - s[k])
        t.assume(t.Or(d2 > 9 * var + 1e-6, d2 < 9 * var - 1e-6))
    for k in range(nf):
        cut = bool(t.Or((med - s[k]) * (med - s[k]) > 9 * var, s[k] == 0))
        t.check("frequency cut exactly when it is an outlier", bool(obs["baseline_info"]["freq_use"][k] == 0) == cut)
        if cut:
            t.check("a cut frequency has no weight", t.And(*[out[0, k, b] == 0 for b in range(nb)]))
    _rest(t, out, old, 1, obs, nf, nb)


def _limits(t, dev, var):
    """which deviations exceed three times the spread; none is close to the limit"""
    out = []
    for d in dev:
        c = bool(d * d > 9 * var)
        t.assume(d * d > 9 * var + 1e-6 if c else d * d < 9 * var - 1e-6)
        out.append(c)
    return out


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


@harness(quick=[dict(nt=9)], thorough=[dict(nt=11)], budget=60)
def tiles(t, nt):
    """a tile is cut exactly when its spread is zero or further than three deviations from the median spread"""
    f_ = t.mod("PyFHD.flagging.flagging")
    n_time = 6
    s = [1.0 + (k % 4) / 4 for k in range(nt)]
    x = t.real("s", 1, 0, 16)
    s[4] = x[0]
    if not bool(x[0] == 0):
        t.assume(x[0] > 1e-3)
    # two more times: one without data, one without weight
    live = nt * n_time
    n_time = n_time + 2
    nb = nt * n_time
    ta = [k + 1 for _ in range(n_time) for k in range(nt)]
    vis = t.np.zeros((1, 2, nb), dtype=t.np.complex128)
    w = t.np.ones((1, 2, nb))
    for b in range(live):
        v = s[b % nt] if (b // nt) % 2 else -s[b % nt]
        vis[0, 0, b] = 32 + v
        vis[0, 1, b] = 32 - v
    for b in range(live + nt, nb):
        vis[0, 0, b], vis[0, 1, b] = 64.0 + 8 * (b % 3), 80.0
        w[0, 0, b] = w[0, 1, b] = -(b % 2)        # flagged either way
    old = w.copy()
    obs = _obs(t, 2, ta, list(ta), n_time)
    out, obs = f_.vis_flag(vis, w, obs, {"uu": t.np.ones(nb), "vv": t.np.zeros(nb)}, t.logger)
    order = sorted(range(nt), key=lambda k: _Key(s[k]))
    med = s[order[nt // 2]]
    live = [k for k in range(nt) if not bool(s[k] == 0)]
    mu = sum((s[k] for k in live), 0) / len(live)
    var = sum(((s[k] - mu) * (s[k] - mu) for k in live), 0) / len(live)
    for k in range(nt):
        d2 = (med - s[k]) * (med - s[k])
        t.assume(t.Or(d2 > 9 * var + 1e-6, d2 < 9 * var - 1e-6))
    for k in range(nt):
        cut = bool(t.Or((med - s[k]) * (med - s[k]) > 9 * var, s[k] == 0))
        t.check("tile cut exactly when it is an outlier", bool(obs["baseline_info"]["tile_use"][k] == 0) == cut)
        if cut:
            t.check("a cut tile has no weight", t.And(*[out[0, f, b] == 0 for f in range(2) for b in range(nb) if b % nt == k]))
    _rest(t, out, old, 1, obs, 2, nb)


@harness(quick=[dict(nt=11), dict(nt=10, n_pol=2)], thorough=[dict(nt=14), dict(nt=13, n_pol=2)], budget=60)
def first_and_second_tiles(t, nt, n_pol=1):
    """the spread of a tile comes from the baselines in which it is the first and those in which it is the second"""
    t.split_cases()
    f_ = t.mod("PyFHD.flagging.flagging")
    n_time = 6
    x = t.real("s", None, 1e-3, 16)
    mid, second, first = nt + 1, nt + 2, nt + 3
    s = [1.0 + (k % 4) / 4 for k in range(nt)] + [5 * x, x, 7 * x]
    n = nt + 3
    med = s[sorted(range(n), key=lambda k: _Key(s[k]))[n // 2]]
    mu = sum(s, 0) / n
    var = sum(((y - mu) * (y - mu) for y in s), 0) / n
    cut = _limits(t, [med - y for y in s], var)
    per = [(k + 1, k + 1, s[k]) for k in range(nt)] + [(mid, second, x), (first, mid, 7 * x) if n_pol == 1 else (mid, first, 7 * x)]
    nb = len(per) * n_time
    vis = t.np.zeros((n_pol, 2, nb), dtype=t.np.complex128)
    for b in range(nb):
        d = per[b % len(per)][2]
        v = d if (b // len(per)) % 2 else -d
        vis[0, 0, b] = 128 + v
        vis[0, 1, b] = 128 - v
    w = t.np.ones((n_pol, 2, nb))
    old = w.copy()
    ta, tb = [a for a, _, _ in per] * n_time, [b for _, b, _ in per] * n_time
    obs = _obs(t, 2, ta, tb, n_time, n_pol)
    out, obs = f_.vis_flag(vis, w, obs, {"uu": t.np.ones(nb), "vv": t.np.zeros(nb)}, t.logger)
    for k in range(n):
        t.check("tile cut exactly when it is an outlier", bool(obs["baseline_info"]["tile_use"][k] == 0) == cut[k])
    for b in range(nb):
        if cut[ta[b] - 1] or cut[tb[b] - 1]:
            t.check("a cut tile has no weight", t.And(*[out[p, f, b] == 0 for f in range(2) for p in range(n_pol)]))
        else:
            t.check("others keep their weight", t.And(*[out[p, f, b] == old[p, f, b] for f in range(2) for p in range(n_pol)]))
    _rest(t, out, old, n_pol, obs, 2, nb)


@harness(quick=[dict(nf=60)], thorough=[dict(nf=80), dict(nf=100)], budget=60)
def running_median(t, nf):
    """with many frequencies the deviation is taken from the running median over nf // 20 of them"""
    t.split_cases()
    f_ = t.mod("PyFHD.flagging.flagging")
    nb = 12
    s = [1.0 + ((7 * k) % 11) / 8 for k in range(nf)]
    x = t.real("s", None, 0.25, 8)
    s[nf // 2] = x
    width = nf // 20
    hw = width // 2
    dev = []
    for k in range(nf):
        m = s[k]
        if hw <= k < nf - hw:
            win = s[k - hw : k - hw + width]
            m = sorted(win, key=_Key)[width // 2]
        dev.append(s[k] - m)
    mu = sum(dev, 0) / nf
    var = sum(((d - mu) * (d - mu) for d in dev), 0) / nf
    cuts = _limits(t, dev, var)
    vis = t.np.zeros((1, nf, nb), dtype=t.np.complex128)
    for f in range(nf):
        for b in range(nb):
            vis[0, f, b] = 32 + (s[f] if b % 2 else -s[f])
    w = t.np.ones((1, nf, nb))
    obs = _obs(t, nf, [1] * nb, [2] * nb, 1)
    out, obs = f_.vis_flag(vis, w, obs, {"uu": t.np.ones(nb), "vv": t.np.zeros(nb)}, t.logger)
    for k in range(nf):
        cut = cuts[k]
        t.check("frequency cut exactly when it deviates from the running median", bool(obs["baseline_info"]["freq_use"][k] == 0) == cut)
        t.check("weights of the frequency", t.And(*[out[0, k, b] == (0 if cut else 1) for b in range(nb)]))


@harness(quick=[dict(n_pol=1)], thorough=[dict(n_pol=2)], budget=60)
def lengths_and_thin_times(t, n_pol):
    """baselines outside the length limits are cut; times with ten samples or fewer are cut"""
    f_ = t.mod("PyFHD.flagging.flagging")
    nf, n_time, per = 6, 4, 3
    nb = n_time * per
    pairs = [(1, 2), (2, 3), (1, 3)]
    ta, tb = [a for a, _ in pairs] * n_time, [b for _, b in pairs] * n_time
    vis = t.np.zeros((n_pol, nf, nb), dtype=t.np.complex128)
    for p in range(n_pol):
        for f in range(nf):
            for b in range(nb):
                vis[p, f, b] = 8 + (1 if (b // 3 + f) % 2 else -1) * (1 + (b % 3) * 0.25 + f * 0.125 + (b // 3) * 0.0625)
    w = t.np.ones((n_pol, nf, nb))
    x = t.real("w", 2, -1, 2)
    w[0, 1, 4] = x[0]
    w[n_pol - 1, 2, 5] = x[1]
    old = w.copy()
    u, v = t.real("u", None, 0, 4), t.real("v", None, 0, 4)
    uu, vv = t.np.ones(nb), t.np.zeros(nb)
    uu[10], vv[10] = u, v
    lo, hi = 1.5, 6.0
    fm = 4.0  # upper middle frequency
    r2 = (u * u + v * v) * fm * fm
    for lim in (lo, hi):
        t.assume(t.Or(r2 > lim * lim + 1e-6, r2 < lim * lim - 1e-6))
    obs = _obs(t, nf, ta, tb, n_time, n_pol, lo, hi)
    out, obs = f_.vis_flag(vis, w, obs, {"uu": uu, "vv": vv}, t.logger)
    for p in range(n_pol):
        for f in range(nf):
            if bool(t.Or(r2 < lo * lo, r2 > hi * hi)):
                t.check("length outside the limits", out[p, f, 10] == 0)
    for k in range(n_time):
        thin = True
        for p in range(n_pol):
            n = sum(1 for f in range(nf) for b in range(3) if bool(t.And(old[p, f, 3 * k + b] > 0, t.Or(3 * k + b != 10, t.And(r2 > lo * lo, r2 < hi * hi)))))
            thin = thin and n <= 10
        if thin:
            t.check("time with ten samples or fewer is cut", t.And(*[out[p, f, 3 * k + b] == 0 for p in range(n_pol) for f in range(nf) for b in range(3)]))
    _rest(t, out, old, n_pol, obs, nf, nb)
