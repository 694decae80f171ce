"""vis_cal_auto_fit."""
from symnp.spec import harness

ASSUMPTIONS = [
    "the root of the autocorrelation ratio differs between the fitted frequencies (otherwise no line is determined)",
    "cross gains whose phase is used are not zero",
]
CU = "PyFHD.calibration.calibration_utils"


@harness(
    quick=[
        dict(n_pol=1, use=(1, 1, 1, 1), autos=(0, 2), what="cross"),
        dict(n_pol=2, use=(1, 1, 1, 0, 1, 1, 1, 1), autos=(1,), what="cross"),
        dict(n_pol=1, use=(0, 1, 1, 1, 1), autos=(2, 0), what="auto"),
        dict(n_pol=1, use=(1, 1, 1, 1, 1, 0), autos=(0, 1, 2), what="model"),
        dict(n_pol=1, use=(1, 1, 1, 1), autos=(0, 1), what="nan"),
        dict(n_pol=1, use=(1, 0, 1, 1, 1, 1, 0, 1), autos=(1, 2), what="cross"),
    ],
    thorough=[dict(n_pol=2, use=(0, 0, 1, 1, 1, 1, 0, 1, 1, 1), autos=(0, 2), what=w) for w in ("cross", "auto", "model")],
    budget=60,
    uninit=True,
)
def fit(t, n_pol, use, autos, what):
    """amplitude: line in the autocorrelation gain fitted to the cross gain's amplitude; phase: the cross gain's"""
    c = t.mod(CU)
    n_freq, n_tile, na = len(use), 3, len(autos)
    g = t.np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    a, m = t.np.ones((n_pol + 1, n_freq, na)), t.np.ones((n_pol + 1, n_freq, na))
    for p in range(n_pol):
        for f in range(n_freq):
            for i in range(n_tile):
                g[p, f, i] = (3, 4j, -5, 3 + 4j, 4 - 3j)[(f + 2 * i + p) % 5] * (1 + 0.125 * f)
            for k in range(na):
                a[p, f, k] = (1.0 + 0.25 * (f * (k + 2) % 5) + 0.5 * p) ** 2 * (1 + k)
                m[p, f, k] = 1.0 + k
    near = [any(not use[q] for q in (f - 1, f, f + 1) if 0 <= q < n_freq) for f in range(n_freq)]
    fitted = [f for f in range(n_freq) if not near[f]]
    k = t.choice("auto", list(range(na)))
    p = t.choice("pol", list(range(n_pol)))
    f = t.choice("freq", sorted({0, fitted[1], fitted[-1], n_freq - 1}))
    i = autos[k]
    if what == "cross":
        z = t.complex("g", None, -4, 4)
        t.assume(z.real * z.real + z.imag * z.imag > 1e-2)
        g[p, f, i] = z
    elif what == "auto":
        r = t.real("a", None, 1, 4)
        a[p, f, k] = r * r * m[p, f, k]
    elif what == "model":
        if t.flag("zero"):
            m[p, f, k] = 0.0
        else:
            r = t.real("m", None, 0.25, 1)
            m[p, f, k] = a[p, f, k] / (r * r)
    elif what == "nan":
        g[p, f, i] = float("nan")
        g[p, (f + 1) % n_freq, i] = t.real("g", None, 1, 4)
    kg, ka, km = g.copy(), a.copy(), m.copy()
    obs = {"n_freq": n_freq, "n_tile": n_tile, "baseline_info": {"freq_use": t.np.array(list(use))}}
    cal = c.vis_cal_auto_fit(obs, {"n_pol": n_pol, "gain": g}, a, m, t.np.array(list(autos)))
    t.eq("autocorrelations untouched", a, ka)
    t.eq("model autocorrelations untouched", m, km)
    for q in range(n_pol):
        total = 0
        for tile in range(n_tile):
            if tile not in autos:
                t.eq("tile without autocorrelations", cal["gain"][q, :, tile], kg[q, :, tile])
                t.eq("no slope", cal["auto_params"][1, q, tile], 0)
                t.eq("no offset", cal["auto_params"][0, q, tile], 0)
                continue
            k = autos.index(tile)
            x, y, ph = [], [], []
            for f in range(n_freq):
                r = t.np.sqrt(ka[q, f, k] / km[q, f, k]) if not bool(km[q, f, k] == 0) else 0.0
                s = t.np.abs(kg[q, f, tile])
                x.append(r)
                y.append(s)
                ph.append(None if bool(t.np.isnan(s)) else kg[q, f, tile] * (1 / s))
            us = [f for f in fitted if ph[f] is not None]
            n = len(us)
            sx, sy = sum((x[f] for f in us), 0), sum((y[f] for f in us), 0)
            var = sum(((x[f] - sx / n) * (x[f] - sx / n) for f in us), 0)
            cov = sum(((x[f] - sx / n) * (y[f] - sy / n) for f in us), 0)
            t.assume(var > 1e-3)
            slope = cov / var
            off = sy / n - slope * sx / n
            t.eq("slope", cal["auto_params"][1, q, tile], slope, 1e-6)
            t.eq("offset", cal["auto_params"][0, q, tile], off, 1e-6)
            total = total + slope
            for f in range(n_freq):
                if ph[f] is None:
                    t.check("no cross gain, no gain", bool(t.np.isnan(cal["gain"][q, f, tile])))
                else:
                    t.eq("gain", cal["gain"][q, f, tile], (x[f] * slope + off) * ph[f], 1e-6)
        t.eq("mean slope", cal["auto_scale"][q], total / na, 1e-6)
