"""vis_baseline_hist."""
from symnp.spec import harness

ASSUMPTIONS = ["baseline lengths keep 1e-6 from the bin edges"]
CU = "PyFHD.calibration.calibration_utils"


@harness(
    quick=[dict(n_pol=1, what="length"), dict(n_pol=2, what="data"), dict(n_pol=2, what="model"), dict(n_pol=1, what="flags")],
    thorough=[dict(n_pol=2, what="length"), dict(n_pol=2, what="both")],
    budget=60,
)
def hist(t, n_pol, what):
    """per bin of five wavelengths: mean and spread of |data - model| relative to the mean |model| of unflagged visibilities"""
    c = t.mod(CU)
    n, n_freq, lo, hi, k = 4, 2, 2.0, 18.0, 0.5
    freq = [1.0, 1.125]
    uu, vv = [3.0, -4.0, 6.0, 0.0], [0.0, 3.0, 8.0, -11.5]
    b = t.choice("baseline", [0, 2]) if what == "length" else None
    if b is not None:
        x = t.real("u", None, -20, 20)
        uu[b], vv[b] = (x, 0.0) if t.flag("along u") else (0.0, x)
        x = x if bool(x >= 0) else -x
    m = t.np.ones((n_pol, n_freq, n), dtype="complex128")
    v = t.np.ones((n_pol, n_freq, n), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for q in range(n):
                m[p, f, q] = (3, 4j, 3 - 4j, -6)[(q + f) % 4] * (1 + 0.5 * p)
                v[p, f, q] = m[p, f, q] + (4, 3j, -5j, 3 + 4j)[(q + 2 * f) % 4] * (1 + 0.25 * q)
    hot = t.choice("hot", [(n_pol - 1, 0, 0), (0, 1, 1), (0, 1, 3)])
    if what in ("data", "both"):
        # its distance from the model is a square root
        v[hot] = t.complex("v", None, -8, 8)
    if what in ("model", "both"):
        m[hot] = t.complex("m", None, -8, 8)
        t.assume(m[hot].real ** 2 + m[hot].imag ** 2 > 1e-2)
    if what == "flags":
        for f in range(n_freq):
            for q in range(n):
                if t.flag(f"no model {f} {q}"):
                    m[0, f, q] = 0
    kv, km = v.copy(), m.copy()
    u_, v_ = t.np.zeros(n), t.np.zeros(n)
    for q in range(n):
        u_[q], v_[q] = uu[q] * k, vv[q] * k
    ku = u_.copy()
    # u, v / kpix x frequency x kpix: lengths in wavelengths
    obs = {"kpix": k, "min_baseline": lo, "max_baseline": hi, "n_pol": n_pol, "baseline_info": {"freq": t.np.array(freq)}}
    n_bin = int((hi - lo) // 5) + 1
    member = {}
    for f in range(n_freq):
        for q in range(n):
            r = (x if q == b else (uu[q] ** 2 + vv[q] ** 2) ** 0.5) * freq[f] * k
            for e in [lo + 5.0 * i for i in range(n_bin + 1)] + [hi]:
                t.assume(t.Or(r < e - 1e-6, r > e + 1e-6))
            if bool(r < lo) or bool(r > hi):
                continue
            i = 0
            while bool(r > lo + 5.0 * (i + 1)):
                i += 1
            member.setdefault(i, []).append((f, q))
    out = c.vis_baseline_hist(obs, {"uu": u_, "vv": v_}, v, m)
    t.eq("visibilities untouched", v, kv)
    t.eq("model untouched", m, km)
    t.eq("coordinates untouched", u_, ku)
    t.check("bins", int(out["baseline_length"]) == n_bin and out["vis_res_ratio_mean"].shape == (n_pol, n_bin))
    for p in range(n_pol):
        for i in range(n_bin):
            on = [(f, q) for f, q in member.get(i, []) if not (what == "flags" and bool(km[p, f, q] == 0))]
            if not on:
                t.eq("empty bin", out["vis_res_ratio_mean"][p, i], 0)
                t.eq("empty bin has no spread", out["vis_res_sigma"][p, i], 0)
                continue
            d = [t.np.abs(kv[p, f, q] - km[p, f, q]) for f, q in on]
            a = sum((t.np.abs(km[p, f, q]) for f, q in on), 0) / len(on)
            mean = sum(d, 0) / len(on)
            t.eq("mean ratio", out["vis_res_ratio_mean"][p, i] * a, mean, 1e-6)
            var = sum(((x - mean) * (x - mean) for x in d), 0) / len(on)
            s = out["vis_res_sigma"][p, i] * a
            t.eq("spread", s * s, var, 1e-6)
            t.check("spread is not negative", bool(s >= 0))
