"""vis_cal_polyfit: cable reflections."""
import math
import os

from symnp.spec import harness

ASSUMPTIONS = [
    "the polynomial fit without reflections is C04's",
    "the tiles, cable lengths and reflection tables are those of the MWA templates (128 tiles)",
    "amplitudes that decide which mode is the strongest differ by more than rounding",
]
CU = "PyFHD.calibration.calibration_utils"
C0 = 299792458.0
AMP = (1.0, 1.5, 0.75, 2.0, 1.25, 1.75, 0.5)
PH = (1, 0.6 + 0.8j, 0.8 + 0.6j, 1, 0.8 - 0.6j, 0.6 + 0.8j, 1j)


def _table(name):
    import numpy

    return numpy.loadtxt(os.path.join(os.environ.get("PYFHD_REPO", "/repo"), "PyFHD/templates", name), skiprows=1)


def _cfg(**kw):
    d = {
        "cal_amp_degree_fit": 1,
        "cal_phase_degree_fit": 1,
        "digital_gain_jump_polyfit": False,
        "cal_reflection_mode_theory": False,
        "cal_reflection_mode_file": False,
        "cal_reflection_mode_delay": False,
        "cal_reflection_hyperresolve": False,
        "instrument": "mwa",
    }
    d.update(kw)
    return d


def _setup(t, n_pol, use, tiles, n_tile=128, step=1.28e6):
    n = len(use)
    freq = [1.7e8 + step * f for f in range(n)]
    tu = [0] * n_tile
    for i in tiles:
        tu[i] = 1
    obs = {"n_freq": n, "n_tile": n_tile, "baseline_info": {"freq": t.np.array(freq), "freq_use": t.np.array(list(use)), "tile_use": t.np.array(tu)}}
    g = t.np.ones((n_pol, n, n_tile), dtype="complex128")
    for p in range(n_pol):
        for k, i in enumerate(tiles):
            for f in range(n):
                g[p, f, i] = AMP[(f + 3 * k + 2 * p) % 7] * PH[(2 * f + k + p) % 7]
    return obs, g, freq


def _both(t, c, obs, n_pol, g, cfg, ratio=None):
    plain = c.vis_cal_polyfit(obs, {"n_pol": n_pol, "gain": g.copy()}, None, _cfg(), t.logger)
    cal = c.vis_cal_polyfit(obs, {"n_pol": n_pol, "gain": g.copy()}, ratio, cfg, t.logger)
    return plain["gain"], cal


def _turn(x):
    return complex(math.cos(2 * math.pi * x), math.sin(2 * math.pi * x))


def _dft(t, g, poly, p, i, on, n, mode, mean=False):
    r = [g[p, f, i] / poly[p, f, i] for f in on]
    if mean:
        m = sum(r, 0) / len(on)
        r = [x - m for x in r]
    return sum((x * _turn(mode * f / n) for x, f in zip(r, on)), 0) / len(on)


def _applied(t, cal, poly, p, i, n, mode, amp):
    """amp: complex amplitude of the reflection at the first frequency"""
    for f in range(n):
        t.eq("reflection", cal["gain"][p, f, i], poly[p, f, i] * (1 + amp * _turn(-mode * f / n)), 1e-6)
    s = cal["mode_params"][p, i]
    t.eq("mode", s[0], mode, 1e-9)
    t.eq("amplitude and phase", s[1] * t.np.exp(1j * s[2]), amp, 1e-6)


def _plain(t, cal, poly, p, i, n):
    for f in range(n):
        t.eq("no reflection", cal["gain"][p, f, i], poly[p, f, i], 1e-9)
    t.eq("no mode", cal["mode_params"][p, i], t.np.zeros(3))


@harness(
    quick=[dict(n_pol=1, length=True, use=(1, 0, 1, 1)), dict(n_pol=2, length=150, use=(1, 1, 1)), dict(n_pol=1, length=-150, use=(1, 1, 1))],
    thorough=[dict(n_pol=2, length=150, use=(1, 1, 1, 1, 1, 0)), dict(n_pol=2, length=-524, use=(1, 1, 0, 1, 1))],
    budget=90,
)
def theory(t, n_pol, length, use):
    """the mode of the cable's length and velocity; amplitude and phase from the residual's Fourier component"""
    c = t.mod(CU)
    tab = _table("mwa_cable_length.txt")
    tiles = [2, 5, 40, 77]
    n = len(use)
    on = [f for f in range(n) if use[f]]
    obs, g, freq = _setup(t, n_pol, use, tiles)
    h = t.choice("hot", [(0, on[0], tiles[0]), (n_pol - 1, on[-1], tiles[2])])
    g[h] = t.real("a", None, *((1, 1.5) if len(on) > 2 else (0.5, 2))) * PH[3]
    poly, cal = _both(t, c, obs, n_pol, g, _cfg(cal_reflection_mode_theory=length))
    band = (max(freq) - min(freq)) * n / (n - 1)
    for p in range(n_pol):
        for i in tiles + [3]:
            ln, vf = float(tab[i, 2]), float(tab[i, 3])
            fit = i in tiles and (length is True or (ln == length if length > 0 else ln != -length))
            if not fit:
                _plain(t, cal, poly, p, i, n)
                continue
            mode = band * 2 * ln / (C0 * vf)
            _applied(t, cal, poly, p, i, n, mode, _dft(t, g, poly, p, i, on, n, mode))


@harness(quick=[dict(n_pol=1), dict(n_pol=2)], budget=60)
def table(t, n_pol):
    """modes, amplitudes and phases of each tile and polarisation from the table"""
    c = t.mod(CU)
    tab = _table("mwa_cable_reflection_coefficients.txt")
    tiles = [2, 5, 21, 77]
    use = (1, 1, 0, 1)
    n = len(use)
    obs, g, freq = _setup(t, n_pol, use, tiles)
    g[n_pol - 1, 1, tiles[2]] = t.real("a", None, 0.25, 4) * PH[2]
    poly, cal = _both(t, c, obs, n_pol, g, _cfg(cal_reflection_mode_file=True))
    for p in range(n_pol):
        for i in tiles + [20]:
            mode, amp, ph = (float(x) for x in tab[i, 5 + 3 * p : 8 + 3 * p])
            if i not in tiles or mode == 0:
                _plain(t, cal, poly, p, i, n)
            else:
                _applied(t, cal, poly, p, i, n, mode, amp * _turn(ph / 2 / math.pi))


@harness(quick=[dict(n_pol=1, use=(1,) * 8), dict(n_pol=2, use=(1,) * 6), dict(n_pol=1, use=(1, 0) * 8)], thorough=[dict(n_pol=1, use=(1,) * 7 + (0,) + (1,) * 8), dict(n_pol=1, use=(1, 1, 0) * 8), dict(n_pol=2, use=(1,) * 10)], budget=90)
def delay(t, n_pol, use):
    """the same mode for all tiles: the strongest of the tiles' summed delay spectra of the amplitude residual"""
    c = t.mod(CU)
    n, tiles, n_tile = len(use), [0, 2], 3
    on = [f for f in range(n) if use[f]]
    obs, g, freq = _setup(t, n_pol, use, tiles, n_tile)
    p, i = t.choice("hot", [(0, 0), (n_pol - 1, 2)])
    g[p, :, i] = g[p, :, i] * t.real("scale", None, 0.125, 8)
    g[:, 2, 1] = 9.0  # not used
    plain = c.vis_cal_polyfit(obs, {"n_pol": n_pol, "gain": g.copy()}, None, _cfg(), t.logger)["gain"]
    power, hidden = [], []
    if len(on) < n:
        # the modes of the pattern of used frequencies and their neighbours say nothing
        mask = [abs(sum(use[f] * _turn(-k * f / n) for f in range(n))) for k in range(n // 2)]
        bad = [k for k in range(n // 2) if mask[k] > max(mask) / 1000]
        hidden = [k for k in range(n // 2) if any(min(max(k + d, 0), n // 2 - 1) in bad for d in (-2, -1, 0, 1, 2))]
    for k in range(n // 2):
        s = 0
        for p in range(n_pol):
            for i in tiles:
                s = s + t.np.abs(sum((((t.np.abs(g[p, f, i]) - t.np.abs(plain[p, f, i])) * _turn(-k * f / n)) for f in range(n)), 0))
        power.append(s)
    shown = [k for k in range(n // 2) if k not in hidden] or [0]
    best = shown[0]
    for k in shown[1:]:
        t.assume(t.Or(power[k] > power[best] + 1e-6, power[k] < power[best] - 1e-6))
        if bool(power[k] > power[best]):
            best = k
    cal = c.vis_cal_polyfit(obs, {"n_pol": n_pol, "gain": g.copy()}, None, _cfg(cal_reflection_mode_delay=True), t.logger)
    for p in range(n_pol):
        for i in range(n_tile):
            if i not in tiles or best == 0:
                _plain(t, cal, plain, p, i, n)
            else:
                _applied(t, cal, plain, p, i, n, best, _dft(t, g, plain, p, i, on, n, best))


class _Flat:
    """stands in for the polynomial fits: amplitude one, phase zero (the fit is C04's; searching its residual is the question here)"""

    def __init__(self, t):
        self.cls = t.np.polynomial.Polynomial
        self.t = t

    def __enter__(self):
        t = self.t

        class Fitted:
            def __init__(self, deg):
                self.coef = t.np.array([1.0 if deg == 2 else 0.0] + [0.0] * deg)

            def convert(self):
                return self

        self.had = "fit" in vars(self.cls)
        self.old = vars(self.cls).get("fit")
        self.cls.fit = staticmethod(lambda x, y, deg, *a, **k: Fitted(deg))

    def __exit__(self, *a):
        if self.had:
            self.cls.fit = self.old
        else:
            del self.cls.fit


def _cfg2(**kw):
    return _cfg(cal_amp_degree_fit=2, **kw)


def _fit(t, c, *a):
    with _Flat(t):
        return c.vis_cal_polyfit(*a, t.logger)


def _search(modes, comp, t):
    """the mode with the largest component; assumed ahead of the others by more than rounding"""
    sq = [x.real * x.real + x.imag * x.imag for x in comp]
    best = 0
    for k in range(1, len(modes)):
        t.assume(t.Or(sq[k] > sq[best] + 1e-7, sq[k] < sq[best] - 1e-7))
        if bool(sq[k] > sq[best]):
            best = k
    return best


@harness(
    quick=[dict(n_pol=1, use=(1, 0, 1, 1, 1), mode="theory"), dict(n_pol=2, use=(1, 1, 1, 1), mode="file")],
    thorough=[dict(n_pol=2, use=(1, 1, 1, 0, 1, 1, 1), mode="theory")],
    budget=150,
)
def hyperresolve(t, n_pol, use, mode):
    """the strongest of 101 modes around the nominal one, for the residual less its mean"""
    c = t.mod(CU)
    n = len(use)
    on = [f for f in range(n) if use[f]]
    n_tile, tiles = 128, [2, 40] if mode == "theory" else [2, 21]
    tab = _table("mwa_cable_length.txt" if mode == "theory" else "mwa_cable_reflection_coefficients.txt")
    obs, g, freq = _setup(t, n_pol, use, tiles, n_tile)
    q, h = n_pol - 1, tiles[1]
    g[q, :, h] = g[q, :, h] * t.real("scale", None, 0.5, 2) + t.real("offset", None, 0, 0.25)
    t.split_cases()
    cfg = _cfg2(**{"cal_reflection_mode_" + mode: True, "cal_reflection_hyperresolve": True})
    plain = _fit(t, c, obs, {"n_pol": n_pol, "gain": g.copy()}, None, _cfg2())["gain"]
    band = (max(freq) - min(freq)) * n / (n - 1)
    want = {}
    for p in range(n_pol):
        for i in tiles:
            if mode == "theory":
                m0 = band * 2 * float(tab[i, 2]) / (C0 * float(tab[i, 3]))
            else:
                m0 = float(tab[i, 5 + 3 * p])
            if m0 == 0:
                continue
            modes = [m0 + 0.05 * (k - 50) for k in range(101)]
            comp = [_dft(t, g, plain, p, i, on, n, m, True) for m in modes]
            k = _search(modes, comp, t)
            want[p, i] = modes[k], comp[k]
    cal = _fit(t, c, obs, {"n_pol": n_pol, "gain": g.copy()}, None, cfg)
    for p in range(n_pol):
        for i in tiles + [1]:
            if (p, i) in want:
                _applied(t, cal, plain, p, i, n, *want[p, i])
            else:
                _plain(t, cal, plain, p, i, n)


NOMINAL = (1, 2, 2, 0.5, 0.875, 0.75, 1.75)    # with these the first tile's strongest mode is its nominal one


@harness(quick=[dict(n_pol=1, hot="ratio"), dict(n_pol=2, hot="phase"), dict(n_pol=1, hot="ratio", amps=NOMINAL)], thorough=[dict(n_pol=2, hot="ratio")], budget=150)
def hyperresolve_auto(t, n_pol, hot, amps=AMP):
    """mode from the auto-correlations relative to tiles of other modes; amplitude and phase from the phases, which alone change"""
    c = t.mod(CU)
    use = (1, 1, 0, 1, 1)
    n = len(use)
    on = [f for f in range(n) if use[f]]
    tab = _table("mwa_cable_reflection_coefficients.txt")
    tiles = [2, 21, 40, 77]
    obs, g, freq = _setup(t, n_pol, use, tiles)
    ratio = t.np.ones((n_pol, n, 128))
    for p in range(n_pol):
        for k, i in enumerate(tiles):
            for f in range(n):
                ratio[p, f, i] = amps[(2 * f + 3 * k + p) % 7]
    q, i_h = n_pol - 1, tiles[1]
    if hot == "ratio":
        ratio[q, :, i_h] = ratio[q, :, i_h] * t.real("a", None, 0.125, 8)
    else:
        g[q, on[1], i_h] = t.np.exp(1j * t.real("a", None, -0.5, 0.5)) * AMP[(on[1] + 3 + 2 * q) % 7]
    t.split_cases()
    plain = _fit(t, c, obs, {"n_pol": n_pol, "gain": g.copy()}, None, _cfg2())["gain"]
    nominal = {(p, i): float(tab[i, 5 + 3 * p]) for p in range(n_pol) for i in tiles}
    want = {}
    for p in range(n_pol):
        norm = {i: [ratio[p, f, i] / (sum((ratio[p, e, i] for e in range(n)), 0) / n) for f in range(n)] for i in tiles}
        for i in tiles:
            m0 = nominal[p, i]
            if m0 == 0:
                continue
            others = [j for j in tiles if nominal[p, j] > 0 and abs(nominal[p, j] - m0) > 0.01]
            res = [norm[i][f] / (sum((norm[j][f] for j in others), 0) / len(others)) for f in range(n)]
            mean = sum(res, 0) / n
            modes = [m0 + 0.05 * (k - 50) for k in range(101)]
            comp = [sum(((res[f] - mean) * _turn(m * f / n) for f in on), 0) / len(on) for m in modes]
            m = modes[_search(modes, comp, t)]
            others = [j for j in tiles if nominal[p, j] > 0 and abs(nominal[p, j] - m) > 0.01]
            ph = {j: [t.np.angle(g[p, f, j] / plain[p, f, j]) for f in on] for j in tiles}
            r = [ph[i][e] - sum((ph[j][e] for j in others), 0) / len(others) for e in range(len(on))]
            want[p, i] = m, 2j * sum((r[e] * _turn(m * f / n) for e, f in enumerate(on)), 0) / len(on)
    cal = _fit(t, c, obs, {"n_pol": n_pol, "gain": g.copy()}, ratio.copy(), _cfg2(cal_reflection_mode_file=True, cal_reflection_hyperresolve=True))
    for p in range(n_pol):
        for i in tiles + [20]:
            if (p, i) not in want:
                _plain(t, cal, plain, p, i, n)
                continue
            m, amp = want[p, i]
            s = cal["mode_params"][p, i]
            t.eq("mode", s[0], m, 1e-9)
            t.eq("amplitude and phase", s[1] * t.np.exp(1j * s[2]), amp, 1e-6)
            for f in range(n):
                t.eq("phase of the reflection", t.np.angle(cal["gain"][p, f, i] / plain[p, f, i]), (amp * _turn(-m * f / n)).imag, 1e-6)
                t.eq("amplitude of the gain", t.np.abs(cal["gain"][p, f, i] / plain[p, f, i]), 1, 1e-6)
