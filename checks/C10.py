"""vis_calibration_flag."""
from symnp.spec import harness

ASSUMPTIONS = [
    "figures of merit keep 1e-6 from the rejection limits",
    "one gain is free at a time, the others are distinct; gains are finite",
]
CU = "PyFHD.calibration.calibration_utils"


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def _median(vals):
    s = sorted(vals, key=_Key)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _var(vals):
    m = sum(vals, 0) / len(vals)
    return sum(((x - m) * (x - m) for x in vals), 0) / len(vals)


def _above(t, d, lim2):
    """d > sqrt(lim2), away from the limit"""
    if not bool(d > 0):
        return False
    out = bool(d * d > lim2)
    t.assume(d * d > lim2 + 1e-6 if out else d * d < lim2 - 1e-6)
    return out


def _dev(t, x, fit):
    """spread of x about the polynomial of the given degree (0: mean, 1: a line through three points)"""
    if fit == 0:
        return t.np.sqrt(_var(x))
    s = x[0] - 2 * x[1] + x[2]
    return (s if bool(s >= 0) else -s) * (1 / 18) ** 0.5


def _outside(t, x, m):
    for lim in (m / 2, m * 2):
        t.assume(t.Or(x > lim + 1e-6, x < lim - 1e-6))
    return bool(x < m / 2) or bool(x > m * 2)


def _amplitude(t, a, freqs, tiles, freq_fom, tile_fom):
    """the frequencies and the tiles cut by their amplitudes; none has a zero figure"""
    avg = {i: _median([a[f, i] for f in freqs]) for i in tiles}
    m = _median([avg[i] for i in tiles])
    fz, tz = [f for f in freqs if bool(freq_fom[f] == 0)], [i for i in tiles if bool(tile_fom[i] == 0)]
    fu, tu = [f for f in freqs if f not in fz], [i for i in tiles if i not in tz]
    n = len(fz) + len(tz)
    for _ in range(3):
        mf, vf = _median([freq_fom[f] for f in fu]), 25 * _var([freq_fom[f] for f in fu])
        fc = [f for f in freqs if _above(t, freq_fom[f] - mf, vf)]
        fu = [f for f in fu if f not in fc]
        mt, vt = _median([tile_fom[i] for i in tu]), 25 * _var([tile_fom[i] for i in tu])
        tc = [i for i in tiles if _above(t, tile_fom[i] - mt, vt) or _outside(t, avg[i], m)]
        tu = [i for i in tu if i not in tc]
        if len(fc) + len(tc) <= n:
            break
        n = len(fc) + len(tc)
    return sorted(set(fc + fz)), sorted(set(tc + tz))


def _obs(t, freq_use, tile_use):
    return {"n_pol": 1, "baseline_info": {"freq_use": t.np.array(freq_use), "tile_use": t.np.array(tile_use)}}


def _cfg(amp, phase, flag):
    return {"cal_amp_degree_fit": amp, "cal_phase_degree_fit": phase, "flag_calibration_frequencies": flag}


def _left(t, obs, freq_use, tile_use, fc, tc, flag):
    b = obs["baseline_info"]
    for f in range(len(freq_use)):
        on = bool(freq_use[f]) and not (flag and f in fc)
        t.check("frequency used exactly when it was and is no outlier" if flag else "frequency flags kept", bool(b["freq_use"][f] != 0) == on)
    for i in range(len(tile_use)):
        t.check("tile used exactly when it was and is no outlier", bool(b["tile_use"][i] != 0) == (bool(tile_use[i]) and i not in tc))


@harness(quick=[dict(second=False, flag=True, hots=(33,)), dict(second=True, flag=True, hots=(17,)), dict(second=False, flag=False, hots=(0,))], thorough=[dict(second=True, flag=True, hots=(0, 12, 33)), dict(second=False, flag=True, hots=(0, 17))], budget=60)
def frequencies(t, second, flag, hots):
    """a frequency is cut exactly when its spread over the tiles exceeds the median by five deviations, and if asked for"""
    t.split_cases()
    c = t.mod(CU)
    n = 34
    freq_use = [0 if f in (3, 30) else 1 for f in range(n)]
    tile_use = [1, 0, 1]
    on = [f for f in range(n) if freq_use[f]]
    a = {}
    for f in range(n):
        a[f, 0] = 8 + 0.125 * (f % 3)
        a[f, 1] = 100.0 + f
        a[f, 2] = a[f, 0] + 1 + 0.125 * (f % 5)
    if second:
        a[20, 2] = a[20, 0] + 4
    h = t.choice("hot", list(hots))
    x = t.real("a", None, 0.25, 30)
    a[h, 2] = x
    diff = {}
    for f in on:
        d = a[f, 2] - a[f, 0]
        diff[f] = (d if bool(d >= 0) else -d) / 2
    t.assume(t.Or(diff[h] > 1e-6, diff[h] < 1e-9))
    tf = {i: t.np.sqrt(_var([a[f, i] for f in on])) for i in (0, 2)}
    fc, tc = _amplitude(t, a, on, [0, 2], diff, tf)
    g = t.np.zeros((1, n, 3), dtype="complex128")
    for k, v in a.items():
        g[(0, *k)] = v
    kg = g.copy()
    obs = c.vis_calibration_flag(_obs(t, freq_use, tile_use), {"n_pol": 1, "gain": g}, _cfg(0, 1, flag), t.logger)
    t.eq("gains untouched", g, kg)
    _left(t, obs, freq_use, tile_use, fc, tc, flag)


@harness(
    quick=[
        dict(n_pol=1, amp=0, second=False, scale=False, hots=(17,)),
        dict(n_pol=1, amp=0, second=False, scale=True, hots=(31,)),
        dict(n_pol=2, amp=0, second=True, scale=False, hots=(31,)),
        dict(n_pol=1, amp=1, second=False, scale=True, hots=(0,)),
        dict(n_pol=1, amp=1, second=False, scale=False, hots=(17,)),
    ],
    thorough=[dict(n_pol=1, amp=0, second=True, scale=True, hots=(0, 17)), dict(n_pol=2, amp=1, second=True, scale=False, hots=(0, 31)), dict(n_pol=2, amp=1, second=True, scale=True, hots=(17,))],
    budget=120,
)
def tiles(t, n_pol, amp, second, scale, hots):
    """a tile is cut exactly when its residual exceeds the median by five deviations or its amplitude is twice off"""
    t.split_cases()
    c = t.mod(CU)
    n = 32
    freq_use = [1, 0, 1] if not amp else [1, 1, 1]
    on = [f for f in range(3) if freq_use[f]]
    tile_use = [0 if i == 5 else 1 for i in range(n)]
    live = [i for i in range(n) if tile_use[i]]
    g = t.np.zeros((n_pol, 3, n), dtype="complex128")
    p = n_pol - 1
    hot = t.choice("hot", list(hots))
    x = t.real("a", None, 0, 24)
    for q in range(n_pol):
        a = {}
        for i in range(n):
            for f in range(3):
                a[f, i] = 4 + 0.0625 * ((7 * i + 3 * q) % 5) + (0.25 + 0.125 * (i % 3)) * (1, -0.75, -0.5)[f]
        if second and q == p:
            a[0, 9] = a[0, 9] + 2.5
        if q == p:
            a[on[-1], hot] = x
            if scale:
                # both, so that the tile is off without a large residual
                for f in on[:-1]:
                    a[f, hot] = x + 0.5 * (f + 1)
        for k, v in a.items():
            g[(q, *k)] = v
        if q == p:
            ff = {f: t.np.sqrt(_var([a[f, i] for i in live])) for f in on}
            tf = {i: _dev(t, [a[f, i] for f in on], amp) for i in live}
            t.assume(t.Or(tf[hot] > 1e-6, tf[hot] < 1e-9))
            fc, tc = _amplitude(t, a, on, live, ff, tf)
    kg = g.copy()
    obs = c.vis_calibration_flag(_obs(t, freq_use, tile_use), {"n_pol": n_pol, "gain": g}, _cfg(amp, 1, True), t.logger)
    t.eq("gains untouched", g, kg)
    _left(t, obs, freq_use, tile_use, fc, tc, True)


@harness(
    quick=[dict(n_pol=1, f=0, line=False), dict(n_pol=1, f=1, line=False), dict(n_pol=1, f=2, line=True), dict(n_pol=2, f=0, line=True)],
    thorough=[dict(n_pol=2, f=0, line=False), dict(n_pol=2, f=1, line=False), dict(n_pol=2, f=2, line=False), dict(n_pol=2, f=1, line=True)],
    budget=150,
)
def phases(t, n_pol, f, line):
    """a tile is cut exactly when the slope of its phase or the residual exceeds the median by five deviations"""
    t.split_cases()
    c = t.mod(CU)
    n = 32
    tile_use = [0 if i == 5 else 1 for i in range(n)]
    live = [i for i in range(n) if tile_use[i]]
    g = t.np.zeros((n_pol, 3, n), dtype="complex128")
    hot = (17, 31, 0)[f]
    x = t.real("phase", None, -1.5, 1.5)
    rows = {}
    for q in range(n_pol):
        for i in range(n):
            ph = [0.0625 * (i % 5) - 0.125, 0.03125 * (i % 3), 0.0625 * ((3 * i) % 7) - 0.1875]
            if line:
                # mostly falling
                ph = [v - 0.125 * k for k, v in enumerate(ph)]
            if (q, i) == (n_pol - 1, hot):
                if line:
                    # off the others by the slope only
                    ph = [-x, 0, x]
                else:
                    ph[f] = x
            # the phase of some tiles passes pi
            turn = {9: 3.140625, 13: -3.125}.get(i, 0.0)
            for k in range(3):
                g[q, k, i] = (4 + 0.0625 * (i % 5) + 0.25 * (-1) ** k) * t.np.exp(1j * (ph[k] + turn))
            if q == n_pol - 1:
                rows[i] = ph
    slope = {}
    for i in live:
        s = (rows[i][2] - rows[i][0]) / 2
        slope[i] = s
    size = {i: s if bool(s >= 0) else -s for i, s in slope.items()}
    dev = {i: _dev(t, rows[i], 1) for i in live}
    ms, vs = _median(list(size.values())), 25 * _var(list(slope.values()))
    md, vd = _median(list(dev.values())), 25 * _var(list(dev.values()))
    tc = [i for i in live if _above(t, size[i] - ms, vs) or _above(t, dev[i] - md, vd)]
    kg = g.copy()
    obs = c.vis_calibration_flag(_obs(t, [1, 1, 1], tile_use), {"n_pol": n_pol, "gain": g}, _cfg(1, 1, True), t.logger)
    t.eq("gains untouched", g, kg)
    _left(t, obs, [1, 1, 1], tile_use, [], tc, True)
