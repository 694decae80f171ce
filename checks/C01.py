"""vis_calibration_apply."""
from symnp.spec import harness

P1, P2 = (0, 1, 0, 1), (0, 1, 1, 0)


def _obs(t, ta, tb, n_freq, n_tile, n_time):
    return {
        "n_freq": n_freq,
        "n_tile": n_tile,
        "n_time": n_time,
        "n_baselines": len(ta) // n_time,
        "n_pol": 2,
        "baseline_info": {"tile_a": t.np.array(ta), "tile_b": t.np.array(tb)},
    }



def _gains(t, n_pol, n_freq, n_tile, used):
    """distinct concrete gains, of which one is free (possibly zero)"""
    g = t.np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    for k, p in enumerate((p, f, i) for p in range(n_pol) for f in range(n_freq) for i in range(n_tile)):
        g[p] = (1 + 0.25 * k) * (1, 1j, -1 + 0.5j, 0.5 - 1j)[k % 4]
    free = t.choice("free", [(p, f, i) for p in range(n_pol) for f in range(n_freq) for i in used])
    if t.flag("zero"):
        g[free] = 0
        return g, free
    z = t.complex("g", None, -4, 4)
    t.assume(z.real * z.real + z.imag * z.imag > 1e-4)
    g[free] = z
    return g, None


@harness(
    quick=[dict(n_pol=2, n_freq=1, ta=(1, 1, 2), tb=(2, 1, 1)), dict(n_pol=1, n_freq=2, ta=(1, 3, 2), tb=(2, 2, 1)), dict(n_pol=2, n_freq=2, ta=(3,), tb=(1,)), dict(n_pol=4, n_freq=1, ta=(1, 3), tb=(3, 1)), dict(n_pol=1, n_freq=2, ta=(300, 140), tb=(44, 300))],
    thorough=[dict(n_pol=2, n_freq=3, ta=(1, 1, 2, 3), tb=(2, 1, 1, 3)), dict(n_pol=4, n_freq=2, ta=(1, 3, 2), tb=(3, 1, 2))],
    budget=60,
)
def apply(t, n_pol, n_freq, ta, tb):
    """vis / (gain of the first tile x conjugate gain of the second tile); zero where a gain is zero"""
    c = t.mod("PyFHD.calibration.calibration_utils")
    n_tile = max(ta + tb)
    v = t.complex("v", (n_pol, n_freq, len(ta)), -8, 8)
    g, zero = _gains(t, min(n_pol, 2), n_freq, n_tile, sorted({x - 1 for x in ta + tb}))
    kv, kg = v.copy(), g.copy()
    out, cal = c.vis_calibration_apply(v, _obs(t, list(ta), list(tb), n_freq, n_tile, 1), {"n_pol": min(n_pol, 2), "gain": g}, None, None, t.logger)
    t.eq("gains are kept", cal["gain"], kg)
    t.check("no phase without a model", "cross_phase" not in cal)
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(len(ta)):
                i, j = (P1[p], f, ta[b] - 1), (P2[p], f, tb[b] - 1)
                if zero in (i, j):
                    t.eq("zero gain", out[p, f, b], 0)
                else:
                    t.eq("calibrated visibility", out[p, f, b], kv[p, f, b] * (1 / (kg[i] * t.np.conj(kg[j]))), 1e-8)


@harness(quick=[dict(n_freq=1, n_time=1), dict(n_freq=1, n_time=2), dict(n_freq=2, n_time=1)], thorough=[dict(n_freq=2, n_time=2), dict(n_freq=1, n_time=3)], budget=90)
def phase(t, n_freq, n_time):
    """the phase between X and Y is the angle of the time averaged, weighted products of calibrated data and model"""
    c = t.mod("PyFHD.calibration.calibration_utils")
    ta, tb = [1, 2] * n_time, [2, 1] * n_time
    nb1, nb = 2, 2 * n_time
    g = t.np.zeros((2, n_freq, 2), dtype="complex128")
    g[0], g[1] = 1j, 0.5 + 0.5j
    g[0, :, 1], g[1, :, 1] = 1 - 1j, 2
    hot = t.choice("hot", [(f, b) for f in range(n_freq) for b in range(nb)])
    v = t.np.ones((4, n_freq, nb), dtype="complex128") * (0.5 - 2j)
    m = t.np.ones((4, n_freq, nb), dtype="complex128") * (1 + 3j)
    for p in range(4):
        for f in range(n_freq):
            for b in range(nb):
                v[p, f, b] = v[p, f, b] * (p + 1) + 2 * b - 1j * f
                m[p, f, b] = m[p, f, b] * (p - 2.5) + b + 2j * f
    cross = t.choice("cross", [2, 3])
    v[cross][hot] = t.complex("v", None, -8, 8)
    m[cross][hot] = t.complex("m", None, -8, 8)
    w = t.np.ones((4, n_freq, nb))
    w[1:] = -1.0
    w[0, 0, 0] = 0.0
    if nb > 2:
        w[0, 0, 2] = 0.25
    w[0][hot] = t.choice("w", [-1.0, 0.0, 0.5, 1.0, 3.0])
    kw, km = w.copy(), m.copy()
    obs = _obs(t, ta, tb, n_freq, 2, n_time)
    out, cal = c.vis_calibration_apply(v, obs, {"n_pol": 2, "gain": g}, m, w, t.logger)
    t.eq("model untouched", m, km)
    t.eq("weights untouched", w, kw)
    s = 0
    for f in range(n_freq):
        for b in range(nb1):
            acc = [0, 0, 0, 0]
            for q in range(n_time):
                k = q * nb1 + b
                x = min(max(float(kw[0, f, k]), 0.0), 1.0)
                for i, z in enumerate((out[2, f, k], out[3, f, k], km[2, f, k], km[3, f, k])):
                    acc[i] = acc[i] + z * x
            s = s + t.np.conj(acc[0]) * acc[2] + acc[1] * t.np.conj(acc[3])
    t.assume(s.real * s.real + s.imag * s.imag > 1e-3)
    t.eq("cross phase", cal["cross_phase"], t.np.arctan2(s.imag, s.real), 1e-6)
