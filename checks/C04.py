"""vis_cal_polyfit."""
from symnp.spec import harness

ASSUMPTIONS = [
    "more used frequencies than the degree of each fit; gains of the used frequencies are not zero",
    "phases change by less than half a turn between used frequencies except where the harness wraps them",
    "with reflections, the fit without them is the code's own, decided by the harnesses without them",
]
CU = "PyFHD.calibration.calibration_utils"


def _cfg(amp=2, phase=1, jump=False, **kw):
    d = {
        "cal_amp_degree_fit": amp,
        "cal_phase_degree_fit": phase,
        "digital_gain_jump_polyfit": jump,
        "cal_reflection_mode_theory": False,
        "cal_reflection_mode_file": False,
        "cal_reflection_mode_delay": False,
        "cal_reflection_hyperresolve": False,
        "instrument": "mwa",
    }
    d.update(kw)
    return d


def _obs(t, use, n_tile, freq=None, tile_use=None):
    n = len(use)
    freq = freq or [1.6e8 + 1e5 * f for f in range(n)]
    return {"n_freq": n, "n_tile": n_tile, "baseline_info": {"freq": t.np.array(freq), "freq_use": t.np.array(list(use)), "tile_use": t.np.array(tile_use or [1] * n_tile)}}


AMP = (1.0, 1.5, 0.75, 2.0, 1.25, 1.75, 0.5)
PH = (1, 0.6 + 0.8j, 0.8 + 0.6j, 1, 0.8 - 0.6j, 0.6 + 0.8j, 1j)


def _normal(t, label, c, xs, ys, deg):
    """least squares: the residual of the fit is orthogonal to every power up to the degree"""
    for k in range(deg + 1):
        s = 0
        for x, y in zip(xs, ys):
            s = s + (y - sum((c[d] * x**d for d in range(deg + 1)), 0)) * (float(x - xs[0]) / (xs[-1] - xs[0])) ** k
        t.eq(label, s, 0, 1e-6)


def _val(c, f, deg):
    return sum((c[d] * f**d for d in range(deg + 1)), 0)


@harness(
    quick=[dict(use=(1, 1, 1, 1), amp=2, phase=1), dict(use=(1, 1, 0, 1, 1, 0), amp=1, phase=1, n_pol=2), dict(use=(0, 1, 1, 1, 1, 1), amp=3, phase=2), dict(use=(1, 1, 1, 1), amp=None, phase=None)],
    thorough=[dict(use=(1, 1, 1, 0, 1, 1, 1, 1), amp=2, phase=1, n_pol=2), dict(use=(1, 0, 1, 1, 1, 1, 1, 1), amp=4, phase=3)],
    budget=60,
)
def amplitude(t, use, amp, phase, n_pol=1):
    """amplitude and phase are least squares polynomials over the used frequencies, evaluated at every frequency"""
    c = t.mod(CU)
    n_freq, n_tile = len(use), 2
    on = [f for f in range(n_freq) if use[f]]
    g = t.np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    a = {}
    for p in range(n_pol):
        for f in range(n_freq):
            for i in range(n_tile):
                a[p, f, i] = AMP[(f + 3 * i + 2 * p) % 7]
    hot = t.choice("hot", [(0, on[0], 1), (n_pol - 1, on[2], 0), (0, on[-1], 1)])
    a[hot] = t.real("a", None, 0.25, 4)
    for k in a:
        g[k] = a[k] * PH[(k[1] + k[2] + k[0]) % 7]
    off = [f for f in range(n_freq) if not use[f]]
    if off:
        g[0, off[0], 0] = t.complex("unused", None, -4, 4)
    kg = g.copy()
    cal = c.vis_cal_polyfit(_obs(t, use, n_tile), {"n_pol": n_pol, "gain": g}, None, _cfg(amp, phase), t.logger)
    amp, phase = amp or 2, phase or 1
    t.check("shapes", cal["amp_params"].shape == (n_pol, n_tile, amp + 1) and cal["phase_params"].shape == (n_pol, n_tile, phase + 1))
    for p in range(n_pol):
        for i in range(n_tile):
            ca, cp = cal["amp_params"][p, i], cal["phase_params"][p, i]
            _normal(t, "amplitude fit", ca, on, [a[p, f, i] for f in on], amp)
            ang = [t.np.angle(PH[(f + i + p) % 7]) for f in on]
            _normal(t, "phase fit", cp, on, [ang[0]] + [x for x in ang[1:]], phase)
            for f in range(n_freq):
                t.eq("gain", cal["gain"][p, f, i], _val(ca, f, amp) * t.np.exp(1j * _val(cp, f, phase)), 1e-6)


@harness(quick=[dict(use=(1, 1, 1, 1), phase=1), dict(use=(1, 0, 1, 1, 1), phase=2)], thorough=[dict(use=(1, 1, 1, 1, 1, 1), phase=2)], budget=60)
def phases(t, use, phase):
    """a free phase, and phases which wrap"""
    c = t.mod(CU)
    n_freq = len(use)
    on = [f for f in range(n_freq) if use[f]]
    wrap = t.flag("wrap")
    g = t.np.zeros((1, n_freq, 1), dtype="complex128")
    want = []
    for f in range(n_freq):
        # multiples of 1.25 radians, beyond half a turn, when they wrap
        want.append(1.25 * f - 2.0 + 0.125 * (f % 2) if wrap else 0.0)
        g[0, f, 0] = AMP[f] * complex(_cos(want[f]), _sin(want[f]))
    h = t.choice("hot", [on[1], on[-1]])
    if not wrap:
        z = t.complex("g", None, -4, 4)
        t.assume(z.real > 1e-2)  # within a quarter turn of the others
        g[0, h, 0] = z
        want[h] = t.np.arctan2(z.imag, z.real)
    cal = c.vis_cal_polyfit(_obs(t, use, 1), {"n_pol": 1, "gain": g}, None, _cfg(2, phase), t.logger)
    _normal(t, "phase fit", cal["phase_params"][0, 0], on, [want[f] for f in on], phase)


def _cos(x):
    import math

    return math.cos(x)


def _sin(x):
    import math

    return math.sin(x)


@harness(
    quick=[dict(below=3, above=3, amp=2), dict(below=0, above=4, amp=2), dict(below=4, above=0, amp=1), dict(below=3, above=4, amp=3)],
    thorough=[dict(below=4, above=3, amp=2), dict(below=2, above=2, amp=1)],
    budget=60,
)
def jump(t, below, above, amp):
    """on both sides of the digital gain jump the amplitude is fitted separately, of one degree less"""
    c = t.mod(CU)
    n = below + above
    use = [1] * (below + above)
    freq = [187.515e6 + (k - below) * 4e4 + 1e4 for k in range(n)]
    g = t.np.zeros((1, n, 1), dtype="complex128")
    a = [AMP[f % 7] for f in range(n)]
    h = t.choice("hot", [0, n - 1, max(below - 1, 0), min(below, n - 1)])
    a[h] = t.real("a", None, 0.25, 4)
    for f in range(n):
        g[0, f, 0] = a[f] * PH[f % 3]
    cal = c.vis_cal_polyfit(_obs(t, use, 1, freq), {"n_pol": 1, "gain": g}, None, _cfg(amp, 1, True), t.logger)
    cp = cal["phase_params"][0, 0]
    if below and above:
        sides = [(list(range(below)), cal["amp_params"][0, 0, 0], amp - 1), (list(range(below, n)), cal["amp_params"][0, 0, 1], amp - 1)]
    else:
        sides = [(list(range(n)), cal["amp_params"][0, 0], amp)]
    for on, ca, deg in sides:
        _normal(t, "amplitude fit", ca, on, [a[f] for f in on], deg)
        for f in on:
            t.eq("gain", cal["gain"][0, f, 0], _val(ca, f, deg) * t.np.exp(1j * _val(cp, f, 1)), 1e-6)


@harness(quick=[dict(amp=2, phase=1, level="flat"), dict(amp=2, phase=1, level="line"), dict(amp=2, phase=2, level="flat"), dict(amp=2, phase=1, level="jump"), dict(amp=1, phase=1, level="flat", n=9)], budget=30)
def degenerate(t, amp, phase, level, n=6):
    """data of a lower degree than the fit: the coefficients beyond are zero"""
    c = t.mod(CU)
    g = t.np.zeros((1, n, 2), dtype="complex128")
    a = [1.0, 1.0] if level != "line" else [2.0, 0.0]
    s = t.real("s", None, 0.5, 2)
    for i in range(2):
        for f in range(n):
            g[0, f, i] = (1.0 if level != "line" else 1.0 + 0.5 * f) * (1.0 if i else s) * (0.6 + 0.8j)
    freq = [187.515e6 + (k - 3) * 4e4 + 1e4 for k in range(n)]
    cal = c.vis_cal_polyfit(_obs(t, [1] * n, 2, freq), {"n_pol": 1, "gain": g}, None, _cfg(amp, phase, level == "jump"), t.logger)
    for i in range(2):
        x = 1.0 if i else s
        for row in (0, 1) if level == "jump" else (None,):
            ca = cal["amp_params"][0, i] if row is None else cal["amp_params"][0, i, row]
            for d in range(amp if level == "jump" else amp + 1):
                t.eq("amplitude coefficient", ca[d], x if d == 0 else (0.5 * x if level == "line" and d == 1 else 0), 1e-6)
        for d in range(phase + 1):
            t.eq("phase coefficient", cal["phase_params"][0, i, d], t.np.angle(0.6 + 0.8j) if d == 0 else 0, 1e-6)
