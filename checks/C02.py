"""vis_calibrate_subroutine."""
from symnp.spec import harness

ASSUMPTIONS = [
    "one iteration and two iterations from concrete gains with free visibilities (or free gains with concrete visibilities); longer runs at a solution",
    "comparisons that decide a branch (divergence of a gain, best of several changes) keep a margin of 1e-6",
    "the reference tile has enough visibilities; visibilities of flagged tiles and frequencies have no weight (V02)",
]
MARGIN = 1e-6
NT = 3  # tiles with visibilities
PAIRS = [(1, 2), (1, 3), (2, 3)]


def _cfg(iters, phase=0, avg=False, base=1.0, adaptive=False, lo=None, hi=None, thr=1e-7):
    return {
        "min_cal_baseline": lo,
        "max_cal_baseline": hi,
        "cal_time_average": avg,
        "max_cal_iter": iters,
        "cal_convergence_threshold": thr,
        "cal_adaptive_calibration_gain": adaptive,
        "cal_base_gain": base,
        "cal_phase_fit_iter": phase,
    }


def _setup(t, n_freq, n_time, pairs=PAIRS, n_tile=NT, tile_use=None, freq_use=None, dim=64, el=64):
    ta, tb = [a for a, _ in pairs] * n_time, [b for _, b in pairs] * n_time
    n = len(ta)
    freq = [1.0 + 0.125 * f for f in range(n_freq)]
    obs = {
        "n_freq": n_freq,
        "n_tile": n_tile,
        "n_time": n_time,
        "n_pol": 1,
        "n_baselines": len(pairs),
        "pol_names": ["XX", "YY"],
        "dimension": dim,
        "elements": el,
        "kpix": 0.5,
        "min_baseline": 1.0,
        "max_baseline": 16.0,
        "baseline_info": {
            "tile_a": t.np.array(ta),
            "tile_b": t.np.array(tb),
            "freq": t.np.array(freq),
            "freq_use": t.np.array(freq_use or [1] * n_freq),
            "tile_use": t.np.array(tile_use or [1] * n_tile),
            "tile_names": t.np.array(["a", "b", "c", "d", "e"][:n_tile]),
        },
    }
    params = {"uu": t.np.array([3.0 + 0.25 * k for k in range(n)]), "vv": t.np.array([-2.0 + 0.5 * (k % 3) for k in range(n)])}
    return obs, params, freq


def _model(t, n_freq, n, seed=0):
    m = t.np.zeros((1, n_freq, n), dtype="complex128")
    for f in range(n_freq):
        for b in range(n):
            k = 5 * f + 3 * b + seed
            m[0, f, b] = (1 + k % 4) * (1, 1j, 1 - 1j, 2 + 1j, -1 - 2j)[k % 5]
    return m


def _start(t, n_freq, n_tile):
    g = t.np.zeros((1, n_freq, n_tile), dtype="complex128")
    for f in range(n_freq):
        for i in range(n_tile):
            g[0, f, i] = (1, 1.5j, 1.25 + 0.5j, 2 - 1j, 1j)[(i + f) % 5]
    return g


def _step(t, old, eqs, phase_only, base, ref, few, conv=None):
    """spec: least squares of each gain, the others as they were; average with the old ones; phase reference"""
    conv = base if conv is None else conv
    new = {}
    for i in old:
        num, den = 0, 0
        for a, b, d, m in eqs:
            if a != i or i in few:
                continue
            x = m * t.np.conj(old[b])
            num, den = num + t.np.conj(x) * d, den + (x * t.np.conj(x)).real
        new[i] = num / den if i not in few else 0
    cur = {}
    for i in old:
        if i in few:
            cur[i] = old[i] * 0
            continue
        if phase_only:
            s = t.np.abs(new[i])
            t.assume(s > MARGIN)
            new[i] = new[i] * (t.np.abs(old[i]) / s)
        cur[i] = (new[i] * conv + old[i] * base) / (base + conv)
        r, h = t.np.abs(cur[i]) / t.np.abs(old[i]), t.np.abs(old[i]) / 2
        t.assume(t.Or(r < h - MARGIN, r >= h + MARGIN))
        if bool(r < h):
            cur[i] = (new[i] + 2 * old[i]) / 3
    if ref is None:
        return cur
    z = cur[ref]
    t.assume(t.np.abs(z) > 1e-3)
    ph = t.np.conj(z) / t.np.abs(z)
    return {i: cur[i] * ph for i in cur}


def _equations(v, m, w, ta, tb, use):
    out = []
    for k in use:
        if w[k] > 0:
            out.append((ta[k] - 1, tb[k] - 1, v[k], m[k]))
    for k in use:
        if w[k] > 0:
            out.append((tb[k] - 1, ta[k] - 1, v[k].conjugate(), m[k].conjugate()))
    return out



def _check(t, s, obs, params, cfg, v, m, w, g, want, n_vis, iters, **kw):
    kv, km, kw_ = v.copy(), m.copy(), w.copy()
    cal = {"n_pol": len(v), "gain": g, "ref_antenna": 1, "ref_antenna_name": "b"}
    cal = s.vis_calibrate_subroutine(v, m, w, obs, cal, params, cfg, t.logger, **kw)
    for (f, i), z in want.items():
        if z is None:
            t.check("flagged tile without visibilities is nan", bool(t.np.isnan(cal["gain"][0, f, i])))
        else:
            t.eq("gain", cal["gain"][0, f, i], z, 1e-8)
    t.eq("visibilities untouched", v, kv)
    t.eq("model untouched", m, km)
    t.eq("weights untouched", w, kw_)
    if n_vis is not None:
        t.check("visibilities used", bool(cal["n_vis_cal"] == n_vis))
    return cal


@harness(
    quick=[dict(f=0, phase=0), dict(f=1, phase=0)],
    thorough=[dict(f=0, phase=1)],
    budget=90,
)
def step(t, f, phase):
    """one iteration for any value of a visibility"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    n_time, n_freq = 3, 2
    use = [1, 1] if f == 0 else [0, 1]
    obs, params, freq = _setup(t, n_freq, n_time, freq_use=use)
    n = len(PAIRS) * n_time
    ta, tb = [a for a, _ in PAIRS] * n_time, [b for _, b in PAIRS] * n_time
    m, g = _model(t, n_freq, n), _start(t, n_freq, NT)
    v = _model(t, n_freq, n, 2) * (2 - 0.5j)
    hot = t.choice("hot", [0, 4, 8] if not phase else [1, 4])
    v[0, f, hot] = t.complex("v", None, -8, 8)
    w = t.np.ones((1, n_freq, n))
    w[0, :, 3] = 0.25
    w[0, :, 8] = 3.0
    scale = t.choice("weight", [0.0, -1.0, 0.5])
    w[0, f, 2] = scale
    if f:
        w[0, 0] = 0.0
    ww = [[float(w[0, q, k]) for k in range(n)] for q in range(n_freq)]
    want = {}
    for q in range(n_freq):
        old = {i: g[0, q, i] for i in range(NT)}
        if use[q]:
            eqs = _equations([v[0, q, k] for k in range(n)], [m[0, q, k] for k in range(n)], ww[q], ta, tb, range(n))
            few = [i for i in range(NT) if sum(1 for e in eqs if e[0] == i) < 5]
            old = _step(t, old, eqs, 0 < phase, 1.0, 1, few)
        want.update({(q, i): z for i, z in old.items()})
    cal = _check(t, s, obs, params, _cfg(1, phase), v, m, w, g, want, sum(1 for r in ww for x in r if x > 0), 1)
    t.check("iteration", bool(t.np.all(cal["conv_iter"] == 0)))


@harness(
    quick=[dict(iters=1, phase=1, real=False), dict(iters=3, phase=3, real=False), dict(iters=2, phase=1, real=True), dict(iters=2, phase=0, real=True), dict(iters=4, phase=4, real=False, adaptive=True)],
    thorough=[dict(iters=3, phase=1, real=True), dict(iters=3, phase=0, real=True), dict(iters=3, phase=2, real=True), dict(iters=5, phase=5, real=False, adaptive=True), dict(iters=4, phase=0, real=True)],
    budget=90,
)
def again(t, iters, phase, real, adaptive=False):
    """several iterations for data of any scale; the first of them change phases only"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    obs, params, freq = _setup(t, 1, 3)
    n = len(PAIRS) * 3
    ta, tb = [a for a, _ in PAIRS] * 3, [b for _, b in PAIRS] * 3
    if real:
        m = t.np.array([[[1.0 + 0.5 * (k % 3) for k in range(n)]]], dtype="complex128")
        v = t.np.array([[[2.0 + 0.25 * (k % 4) for k in range(n)]]], dtype="complex128")
        g = t.np.array([[[1.25, 1.0, 1.5]]], dtype="complex128")
    else:
        m, g = _model(t, 1, n), _start(t, 1, NT)
        v = _model(t, 1, n, 2) * (2 - 0.5j)
    r = t.real("scale", None, 0.5, 4)
    v = v * r
    w = t.np.ones((1, 1, n))
    eqs = _equations([v[0, 0, k] for k in range(n)], [m[0, 0, k] for k in range(n)], [1.0] * n, ta, tb, range(n))
    old = {i: g[0, 0, i] for i in range(NT)}
    base = 0.75 if adaptive else 1.0
    conv, gains = [], []
    for i in range(iters):
        c = base
        if adaptive and i > 2:
            d = (conv[i - 2] / (base + gains[i - 1]) - conv[i - 1]) / (conv[i - 2] / (base + gains[i - 1]))
            c = t.np.maximum(base / 2, (1 - t.np.abs(d) + gains[i - 1]) / 2)
        gains.append(c)
        prev, old = old, _step(t, old, eqs, i < (phase or min(iters // 4, 4)), base, 1, (), c)
        if adaptive:
            conv.append(max(float(t.np.abs(old[k] - prev[k]) / t.np.abs(prev[k])) for k in old))
    cal = _check(t, s, obs, params, _cfg(iters, phase, base=base, adaptive=adaptive), v, m, w, g, {(0, i): z for i, z in old.items()}, n, iters)
    for i in range(NT):
        t.eq("convergence", cal["convergence"][0, 0, i] * t.np.abs(prev[i]), t.np.abs(old[i] - prev[i]), 1e-8)
    t.check("iteration", bool(t.np.all(cal["conv_iter"] == iters - 1)))


@harness(quick=[dict(phase=None), dict(phase=2)], thorough=[dict(phase=4)], budget=90)
def solution(t, phase):
    """gains which explain the data exactly stay (up to the reference phase) and count as converged"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    obs, params, freq = _setup(t, 2, 3, freq_use=[1, 1])
    n = len(PAIRS) * 3
    ta, tb = [a for a, _ in PAIRS] * 3, [b for _, b in PAIRS] * 3
    m, g = _model(t, 2, n), _start(t, 2, NT)
    g[0, 1, 1] = 0.75 - 1j  # of exact absolute value, like that at the first frequency
    good = t.flag("reachable threshold")
    hot = t.choice("hot", [0, 5])
    m[0, 1, hot] = m[0, 1, hot] * t.real("m", None, 0, 4)
    v = t.np.zeros((1, 2, n), dtype="complex128")
    for f in range(2):
        for k in range(n):
            v[0, f, k] = m[0, f, k] * g[0, f, ta[k] - 1] * t.np.conj(g[0, f, tb[k] - 1])
    w = t.np.ones((1, 2, n))
    want = {}
    for f in range(2):
        ph = t.np.conj(g[0, f, 1]) / abs(complex(g[0, f, 1]))
        for i in range(NT):
            want[f, i] = g[0, f, i] * ph
    if t.flag("second polarisation"):
        m2 = _model(t, 2, n, 1)
        v2 = t.np.zeros((1, 2, n), dtype="complex128")
        for f in range(2):
            for k in range(n):
                v2[0, f, k] = m2[0, f, k] * (g[0, f, ta[k] - 1] * 2) * t.np.conj(g[0, f, tb[k] - 1] * 2)
        v, m, g, w = t.np.concatenate([v, v2]), t.np.concatenate([m, m2]), t.np.concatenate([g, g * 2]), t.np.concatenate([w, w])
        w[1, 1] = 0.0
    cal = _check(t, s, obs, params, _cfg(12, phase, thr=1e-3 if good else -1.0), v, m, w, g, want, 2 * n if len(v) == 1 else n, 12)
    if good:
        t.check("converged at every frequency", bool(cal["n_converged"][0] == 2))
        t.check("and of each polarisation", len(v) == 1 or bool(cal["n_converged"][1] == 1))
        t.eq("convergence", cal["convergence"][0], 0 * t.np.ones((2, NT)), 1e-8)
        t.check("stops as soon as it may", bool(t.np.all(cal["conv_iter"][0] == (3 if phase is None else phase) + 4)))
    else:
        t.check("not converged", bool(cal["n_converged"][0] == 0))


def _inside(f, u, v, a, b):
    r = (u * u + v * v) ** 0.5 * f
    assert abs(r - a) > 1e-6 and abs(r - b) > 1e-6
    return a < r < b and abs(u) * 2 * f < 12 and abs(v) * 2 * f < 24


@harness(quick=[dict(lo=None, hi=None), dict(lo=3.1, hi=7.0)], thorough=[dict(lo=0.5, hi=None), dict(lo=None, hi=32.0)], budget=60)
def limits(t, lo, hi):
    """a visibility takes part iff its baseline is within both limits and inside the uv grid at its frequency"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    obs, params, freq = _setup(t, 2, 3, dim=24, el=48)
    n = len(PAIRS) * 3
    ta, tb = [a for a, _ in PAIRS] * 3, [b for _, b in PAIRS] * 3
    m, g = _model(t, 2, n), _start(t, 2, NT)
    v = _model(t, 2, n, 2) * (2 - 0.5j)
    w = t.np.ones((1, 2, n))
    hot = t.choice("hot", [1, 5])
    uu, vv = [3.0 + 0.25 * k for k in range(n)], [-2.0 + 0.5 * (k % 3) for k in range(n)]
    p, q = t.real("u", None, -20, 20), t.real("v", None, -20, 20)
    params["uu"][hot], params["vv"][hot] = p, q
    a, b = max(lo or 0, 1.0), min(hi or 1e9, 16.0)
    want, count = {}, 0
    for f in range(2):
        r2 = (p * p + q * q) * freq[f] ** 2
        x, y = t.np.abs(p) * 2 * freq[f], t.np.abs(q) * 2 * freq[f]
        for e, lim in ((r2, a * a), (r2, b * b), (x, 12), (y, 24)):
            t.assume(t.Or(e < lim - 1e-4, e > lim + 1e-4))
        use = [k for k in range(n) if (_inside(freq[f], uu[k], vv[k], a, b) if k != hot else bool(r2 > a * a) and bool(r2 < b * b) and bool(x < 12) and bool(y < 24))]
        eqs = _equations([v[0, f, k] for k in range(n)], [m[0, f, k] for k in range(n)], [1.0] * n, ta, tb, use)
        old = _step(t, {i: g[0, f, i] for i in range(NT)}, eqs, False, 1.0, 1, ())
        want.update({(f, i): c for i, c in old.items()})
        count += len(use)
    _check(t, s, obs, params, _cfg(1, lo=lo, hi=hi), v, m, w, g, want, count, 1)


@harness(quick=[dict(n_time=2)], thorough=[dict(n_time=3)], budget=60)
def averaged(t, n_time):
    """averaging in time first: weighted means of data and model over the times"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    pairs = [(a, b) for a in range(1, 7) for b in range(a + 1, 7)]
    nb = len(pairs)
    obs, params, freq = _setup(t, 1, n_time, pairs=pairs, n_tile=6)
    obs["baseline_info"]["tile_names"] = t.np.array(list("abcdef"))
    n = nb * n_time
    m, g = _model(t, 1, n), _start(t, 1, 6)
    v = _model(t, 1, n, 2) * (2 - 0.5j)
    params = {"uu": t.np.array([3.0 + 0.125 * k for k in range(n)]), "vv": t.np.array([-2.0 + 0.5 * (k % 3) for k in range(n)])}
    hot = t.choice("hot", [2, nb + 2, 2 * nb - 1])
    v[0, 0, hot] = t.complex("v", None, -8, 8)
    w = t.np.ones((1, 1, n))
    w[0, 0, hot] = t.choice("w", [0.5, -1.0, 4.0, 0.0])
    w[0, 0, 1] = 0.25
    ww = [min(max(float(w[0, 0, k]), 0.0), 1.0) for k in range(n)]
    va, ma, wa = [], [], []
    for b in range(nb):
        q = [b + nb * i for i in range(n_time)]
        x = sum(ww[k] for k in q)
        wa.append(x)
        va.append(sum((v[0, 0, k] * ww[k] for k in q), 0) / x)
        ma.append(sum((m[0, 0, k] * ww[k] for k in q), 0) / x)
    eqs = _equations(va, ma, wa, [a for a, _ in pairs], [b for _, b in pairs], range(nb))
    old = _step(t, {i: g[0, 0, i] for i in range(6)}, eqs, False, 1.0, 1, ())
    _check(t, s, obs, params, _cfg(1, avg=True), v, m, w, g, {(0, i): z for i, z in old.items()}, nb, 1)


@harness(quick=[dict(case="flagged"), dict(case="reference"), dict(case="unused"), dict(case="few"), dict(case="nan"), dict(case="free")], budget=60)
def tiles(t, case):
    """flagged tiles, a flagged reference, tiles without visibilities or with too few, a model which is nan, no reference"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    pairs = [(1, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4)]
    out = {"flagged": 3, "reference": 1, "unused": 3, "few": 3}.get(case)
    tile_use = [1] * 4
    if case in ("flagged", "reference"):
        tile_use[out] = 0
    obs, params, freq = _setup(t, 1, 3, pairs=pairs, n_tile=4, tile_use=tile_use)
    n = len(pairs) * 3
    ta, tb = [a for a, _ in pairs] * 3, [b for _, b in pairs] * 3
    m, g = _model(t, 1, n), _start(t, 1, 4)
    v = _model(t, 1, n, 2) * (2 - 0.5j)
    w = t.np.ones((1, 1, n))
    ww = [1.0] * n
    kept = 0
    for k in range(n):
        if out in (ta[k] - 1, tb[k] - 1):
            kept += 1
            if case != "few" or kept > 4:
                ww[k] = 0.0
    w[0, 0] = ww
    hot = next(k for k in range(n) if ww[k] and k > 7)
    v[0, 0, hot] = t.complex("v", None, -8, 8)
    dead = [k for k in range(n) if not ww[k]]
    for k in dead:
        v[0, 0, k] = t.complex(f"dead{k}", None, -8, 8)
    mm = [m[0, 0, k] for k in range(n)]
    if case == "nan":
        mm[3] = 0j
    start = {i: g[0, 0, i] for i in range(4)}
    live = [i for i in range(4) if i != out or case in ("few", "nan", "free")]
    eqs = _equations([v[0, 0, k] for k in range(n)], mm, ww, ta, tb, range(n))
    few = [i for i in live if sum(1 for e in eqs if e[0] == i) < 5]
    t.check("harness: too few equations", (few == [3]) == (case == "few"))
    ref = 0 if case == "reference" else 1
    for i in few:
        start[i] = start[i] * 0
    want = dict(start)
    if out is not None:
        want[out] = None if case in ("flagged", "reference") else start[out]
    old = {i: start[i] for i in live}
    want.update(_step(t, old, eqs, False, 1.0, None if case == "free" else ref, few))
    if case == "nan":
        m[0, 0, 3] = float("nan")
        cal = {"n_pol": 1, "gain": g, "ref_antenna": 1, "ref_antenna_name": "b"}
        cal = s.vis_calibrate_subroutine(v, m, w, obs, cal, params, _cfg(1), t.logger)
        for i, z in want.items():
            t.eq("gain", cal["gain"][0, 0, i], z, 1e-8)
        return
    cal = _check(t, s, obs, params, _cfg(1), v, m, w, g, {(0, i): z for i, z in want.items()}, sum(1 for x in ww if x), 1, no_ref_tile=case == "free")
    t.check("reference", int(cal["ref_antenna"]) == ref and str(cal["ref_antenna_name"]) == "ab"[ref])


@harness(quick=[dict(case="unused"), dict(case="empty"), dict(case="averaged")], budget=60)
def separate(t, case):
    """each polarisation has its own data, model and weights; frequencies which are unused or have no weight keep their gain"""
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    n_time = 3
    pairs = PAIRS if case != "averaged" else [(a, b) for a in range(1, 7) for b in range(a + 1, 7)]
    nt, nb = max(b for _, b in pairs), len(pairs)
    n = nb * n_time
    use = [1, 0] if case == "unused" else [1, 1]
    obs, params, freq = _setup(t, 2, n_time, pairs=pairs, n_tile=nt, freq_use=use)
    obs["baseline_info"]["tile_names"] = t.np.array(list("abcdef")[:nt])
    if case == "averaged":
        params = {"uu": t.np.array([3.0 + 0.125 * k for k in range(n)]), "vv": t.np.array([-2.0 + 0.5 * (k % 3) for k in range(n)])}
    ta, tb = [a for a, _ in pairs] * n_time, [b for _, b in pairs] * n_time
    m = t.np.concatenate([_model(t, 2, n), _model(t, 2, n, 1)])
    g = t.np.concatenate([_start(t, 2, nt), _start(t, 2, nt) * (0.5 + 1j)])
    v = t.np.concatenate([_model(t, 2, n, 2) * (2 - 0.5j), _model(t, 2, n, 4) * (1 + 0.5j)])
    hot = t.choice("hot", [0, 1])
    v[hot, 0, 4] = t.complex("v", None, -8, 8)
    w = t.np.ones((2, 2, n))
    w[0, 0, 1], w[1, 0, 2], w[1, 0, 5], w[1, 1, 0] = 0.25, -1.0, 2.0, 0.5
    if case == "empty":
        w[1, 1] = 0.0
        w[1, 1, 3] = -2.0
    want = {}
    for p in range(2):
        for q in range(2):
            old = {i: g[p, q, i] for i in range(nt)}
            ww = [min(max(float(w[p, q, k]), 0.0), 1.0) for k in range(n)]
            if use[q] and any(ww):
                if case == "averaged":
                    wa = [sum(ww[b + nb * i] for i in range(n_time)) for b in range(nb)]
                    va = [sum((v[p, q, b + nb * i] * ww[b + nb * i] for i in range(n_time)), 0) / wa[b] for b in range(nb)]
                    ma = [sum((m[p, q, b + nb * i] * ww[b + nb * i] for i in range(n_time)), 0) / wa[b] for b in range(nb)]
                    eqs = _equations(va, ma, wa, [a for a, _ in pairs], [b for _, b in pairs], range(nb))
                else:
                    eqs = _equations([v[p, q, k] for k in range(n)], [m[p, q, k] for k in range(n)], ww, ta, tb, range(n))
                old = _step(t, old, eqs, False, 1.0, 1, [i for i in range(nt) if sum(1 for e in eqs if e[0] == i) < 5])
            want.update({(p, q, i): z for i, z in old.items()})
    cal = {"n_pol": 2, "gain": g, "ref_antenna": 1, "ref_antenna_name": "b"}
    cal = s.vis_calibrate_subroutine(v, m, w, obs, cal, params, _cfg(1, avg=case == "averaged"), t.logger)
    for x, z in want.items():
        t.eq("gain of each polarisation", cal["gain"][x], z, 1e-8)


@harness(quick=[dict(iters=0), dict(iters=-2)], budget=20)
def refused(t, iters):
    s = t.mod("PyFHD.calibration.vis_calibrate_subroutine")
    obs, params, freq = _setup(t, 1, 3)
    m, g = _model(t, 1, 9), _start(t, 1, NT)
    try:
        s.vis_calibrate_subroutine(m * t.real("x", None, 1, 2), m, t.np.ones((1, 1, 9)), obs, {"n_pol": 1, "gain": g}, params, _cfg(iters), t.logger)
    except ValueError:
        t.check("less than one iteration is refused", True)
        return
    t.fail("less than one iteration is refused")
