"""vis_model_freq_split."""
import os
import shutil
import tempfile

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "gridding (D03), the dirty image (D04) and writing the files are replaced by functions of what they are given",
    "one visibility, model value or weight is free at a time",
]
HU = "PyFHD.healpix.healpix_utils"
PLANE = [[1.0, 0.5j, -0.25, 2.0], [0.5, -1.0, 1.5j, 0.25], [0.125, 0.75, 1.0, -0.5j], [2.0, 1j, 0.5, -1.5]]


def _plane(t, n, k):
    a = t.np.zeros((n, n), dtype="complex128")
    for j in range(n):
        for i in range(n):
            a[j, i] = PLANE[(j + k) % 4][(i + 2 * k) % 4]
    return a


def _sums(vis, w, model, fs, bs):
    """number of usable visibilities and their weighted sums"""
    n, s, m, q = 0, 0.0, 0.0, 0.0
    for f in fs:
        for b in bs:
            if bool(w[f, b] > 0):
                n += 1
                s = s + vis[f, b] * w[f, b]
                m = m + model[f, b] * w[f, b]
                q = q + w[f, b]
    return n, s, m, q


@harness(
    quick=[
        dict(n_pol=2, use=(1, 1, 1, 0), n_avg=2, fft=True),
        dict(n_pol=4, use=(0, 0, 1, 1), n_avg=2, fft=False),
        dict(n_pol=1, use=(1, 1, 1), n_avg=2, fft=True),
        dict(n_pol=2, use=(1, 0, 1), n_avg=1, fft=True, saved=True),
        dict(n_pol=2, use=(1, 1, 1, 1, 1), n_avg=3, fft=False, saved=True),
    ],
    thorough=[dict(n_pol=4, use=(1, 1, 0, 1, 1, 1), n_avg=2, fft=True), dict(n_pol=2, use=(1, 1, 1, 1, 1, 1, 1), n_avg=3, fft=True)],
    budget=60,
)
def split(t, n_pol, use, n_avg, fft, saved=False):
    """images (or uv planes) per output frequency of exactly the chosen visibilities, times their number"""
    np, m = t.np, t.mod(HU)
    n_freq, n_bl, n = len(use), 4, 2 if saved else 4
    pol = t.choice("pol", [0, n_pol - 1])
    given = t.choice("baselines", [None, [0, 2], [3]])
    rephase = t.choice("rephase", [False, True])
    what = t.choice("hot", ["vis", "model", "weight", "other", "gone"])
    t.split_cases()
    vis, model = np.zeros((n_pol, n_freq, n_bl), dtype="complex128"), np.zeros((n_pol, n_freq, n_bl), dtype="complex128")
    w = np.zeros((n_pol, n_freq, n_bl))
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(n_bl):
                vis[p, f, b] = 1.0 + 0.5 * ((3 * f + 5 * b + p) % 7) + 0.25j * (b + p)
                model[p, f, b] = 0.5 + 0.25 * ((2 * f + 3 * b + p) % 5) - 0.5j * f
                w[p, f, b] = (1.0, 0.5, 0.0, 0.75, -1.0)[(2 * f + b + p) % 5]
    # one baseline is flagged everywhere, another one in the first polarisation only
    w[:2, :, 1] = 0
    w[0, :, 2] = 0
    hot = (pol, n_freq - 1, 0)
    if what == "vis":
        vis[hot] = t.complex("v", None, -4, 4)
    elif what == "model":
        model[hot] = t.complex("m", None, -4, 4)
    elif what == "weight":
        w[hot] = t.real("w", None, -1, 1)
    elif what == "gone":
        w[:, : n_avg, :] = 0
    else:
        w[0, 0, 1] = t.real("w", None, -1, 1)
    grow = np.zeros((n, n), dtype="complex128")
    for j in range(n):
        for i in range(n):
            grow[j, i] = (1, 1j, -1, 0.6 + 0.8j)[(j + 2 * i) % 4]
    bs = given
    if given is None:
        bs = [b for b in range(n_bl) if any(bool(w[p, f, b] > 0) for p in range(min(n_pol, 2)) for f in range(n_freq))]
    nf = (n_freq + n_avg - 1) // n_avg
    want, total = [], 0
    for k in range(nf):
        fs = [f for f in range(n_freq) if f // n_avg == k and use[f]]
        if not fs:
            want.append(None)
            continue
        s = _sums(vis[pol], w[pol], model[pol], fs, bs)
        want.append(s if s[0] else None)
        total += s[0]
    keep = [vis.copy(), model.copy(), w.copy()]
    dirp = tempfile.mkdtemp(prefix="e03")
    cfg = {"n_avg": n_avg, "rephase_weights": rephase, "output_dir": dirp, "obs_id": "123"}
    obs = {"n_pol": n_pol, "n_freq": n_freq, "dimension": n, "elements": n, "degpix": 0.25, "n_vis": -1, "nf_vis": "nf", "pol_names": ["XX", "YY", "XY", "YX"], "baseline_info": {"freq_use": np.array(use)}}
    files = {}

    def grid(vis_, w_, obs_, psf, params, p, cfg_, logger, uniform_flag=False, no_conjugate=False, model=None, fi_use=None, bi_use=None):
        t.check("observation, beam and coordinates of the call", obs_ is obs and psf == "psf" and params == "params" and int(p) == pol and cfg_ is cfg)
        fs = list(range(n_freq)) if fi_use is None else [int(f) for f in fi_use]
        bs_ = list(range(n_bl)) if bi_use is None else [int(b) for b in bi_use]
        c, s, q, r = _sums(vis_, w_, model, fs, bs_)
        if not c:
            return {}
        return {"image_uv": _plane(t, n, 0) * s, "weights": _plane(t, n, 1) * r, "variance": _plane(t, n, 2) * r, "model_return": _plane(t, n, 3) * q, "n_vis": c, "obs": obs_}

    def dirty(plane, cfg_, logger, uniform_filter_uv=None, mask=None, baseline_threshold=0, normalization=None, resize=None, width_smooth=None, degpix=None, pad_uv_image=None, filter=None, weights=None, beam_ptr=None, not_real=False):
        t.check("how the image is made", cfg_ is cfg and abs(degpix - 0.25) < 1e-12 and normalization is None and mask is None and filter is None and not not_real)
        return np.real(plane) * 2 + np.imag(plane), None, None

    def save(name, data, tag=None, *a, **kw):
        files[os.path.basename(str(name))] = data

    new = {"visibility_grid": grid, "dirty_image_generate": dirty, "save": save, "phase_shift_uv_image": lambda o: grow.copy()}
    old = {k: getattr(m, k) for k in new}
    for k, f in new.items():
        setattr(m, k, like(m, k, f))
    kw = {} if given is None else {"bi_use": np.array(given)}
    try:
        out = m.vis_model_freq_split(obs, "psf", "params", w, model, vis, pol, cfg, t.logger, fft=fft, save_uvf=saved, uvf_name="even", **kw)
    finally:
        for k, f in old.items():
            setattr(m, k, f)
        shutil.rmtree(dirp)
    t.check("gridded visibilities", out["obs"]["n_vis"] == total)
    turn = grow if rephase else 1.0
    uv = {k: [] for k in ("dirty", "weights", "variance", "model")}
    for k in range(nf):
        c, s, q, r = want[k] or (0, 0.0, 0.0, 0.0)
        uv["dirty"].append(_plane(t, n, 0) * s * c)
        uv["weights"].append(_plane(t, n, 1) * r * turn * c)
        uv["variance"].append(_plane(t, n, 2) * r * turn * c)
        uv["model"].append(_plane(t, n, 3) * q * c)
    for key, kind in (("residual_arr", "dirty"), ("weights_arr", "weights"), ("variance_arr", "variance"), ("model_arr", "model")):
        t.check("shape", tuple(out[key].shape) == (nf, n, n))
        for k in range(nf):
            x = uv[kind][k]
            t.eq(key, out[key][k], np.real(x) * 2 + np.imag(x) if fft else x, 1e-9)
    name = obs["pol_names"][pol]
    if saved:
        found = {k: [f for f in files if f.startswith("123_even_%s_%s_uv" % (name, k))] for k in uv}
        t.check("one file per plane", len(files) == 4 and all(len(f) == 1 for f in found.values()))
        for k in uv:
            for i in range(nf):
                t.eq("saved %s" % k, files[found[k][0]]["%s_uv" % k][i], uv[k][i], 1e-9)
    else:
        t.check("nothing saved", not files)
    for label, a, b in zip(("visibilities", "model", "weights"), (vis, model, w), keep):
        t.eq(label + " untouched", a, b)
