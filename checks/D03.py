"""visibility_grid: the gridded planes are the direct sums over visibilities."""
from checks.common import locate, make_obs
from symnp.spec import harness

ASSUMPTIONS = ["visibility_grid: uv positions from a list that has overlapping, neighbouring, conjugate and outside footprints; one kernel per frequency bin; spectral and uniformly weighted gridding are outside the claim"]

CFG = dict(interpolate_kernel=False, mask_mirror_indices=False, beam_per_baseline=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True)
SETS = [
    [(0.5, -0.25), (0.5, -0.25), (0.75, -0.25)],
    [(0.5, -0.25), (-0.5, 0.25), (1.5, -0.25)],
    [(0.5, -0.25), (2.25, -1.5), (3.75, -0.25)],
    [(-1.75, 0.5), (-0.75, 0.5), (0.25, -1.5)],
]


@harness(
    quick=[dict(nf=1, nb=2, interp=False, model=True), dict(nf=2, nb=2, interp=False, model=False), dict(nf=1, nb=3, interp=False, model=False), dict(nf=2, nb=1, interp=True, model=True), dict(nf=1, nb=2, interp=True, model=False), dict(nf=2, nb=2, interp=True, model=False, sets=(1,))],
    thorough=[dict(nf=2, nb=3, interp=False, model=True), dict(nf=2, nb=2, interp=True, model=True), dict(nf=2, nb=3, interp=True, model=False)],
    budget=60,
)
def direct_sum(t, nf, nb, interp, model, sets=None):
    v = t.mod("PyFHD.gridding.visibility_grid")
    n, psf, res = 8, 2, 2
    freq = [1.0, 1.5][:nf]
    at = SETS[t.choice("set", sets or range(len(SETS)))]
    at = at[:nb] if nb == 3 else (at[:nb] if t.flag("first") else at[-nb:])
    obs = make_obs(t, freq, 3, n, n)
    obs.update(n_baselines=nb, n_time=1, nf_vis=t.np.zeros(nf))
    bins = list(range(nf))
    obs["baseline_info"]["fbin_i"] = t.np.array(bins)
    uu, vv = t.np.array([x for x, _ in at]), t.np.array([y for _, y in at])
    vis = t.complex("v", (nf, nb), -4, 4)
    mod = t.complex("m", (nf, nb), -4, 4) if model else None
    ker = t.complex("k", (1, nf, res + 1, res + 1, psf * psf), -4, 4)
    w = t.np.ones((nf, nb))
    wx = t.real("w", None, -1, 1)
    w[nf - 1, 0] = wx
    if not bool(wx > 0):
        w[nf - 1, 0] = 0
        dead = (nf - 1, 0)
    else:
        dead = None
    kvis = vis.copy()
    once = t.flag("no_conjugate")
    psfd = {"dim": psf, "resolution": res, "id": t.np.zeros((1, nf, nb), dtype=int), "beam_ptr": ker}
    cfg = dict(CFG, interpolate_kernel=interp)
    out = v.visibility_grid(vis, w, obs, psfd, {"uu": uu, "vv": vv}, 0, cfg, t.logger, uniform_flag=True, no_conjugate=once, model=mod)
    t.eq("visibilities untouched", vis, kvis)
    terms = []
    for f in range(nf):
        for b in range(nb):
            s = -1 if at[b][1] > 0 else 1
            x0, y0, px, py = locate(t, s * uu[b], s * vv[b], freq[f], n, n, psf)
            if (f, b) == dead or not (x0 > 0 and y0 > 0 and x0 + 1 < n - 1 and y0 + 1 < n - 1):
                continue
            ix, iy = int(t.np.floor(px * res)), int(t.np.floor(py * res))
            if interp:
                dx, dy = px * res - ix, py * res - iy
                k = ker[0, f, iy, ix] * ((1 - dx) * (1 - dy)) + ker[0, f, iy, ix + 1] * (dx * (1 - dy)) + ker[0, f, iy + 1, ix] * ((1 - dx) * dy) + ker[0, f, iy + 1, ix + 1] * (dx * dy)
            else:
                k = ker[0, f, iy, ix]
            val = kvis[f, b]
            mv = mod[f, b] if model else 0
            terms.append((int(x0), int(y0), t.np.conj(k), t.np.conj(val) if s < 0 else val, (t.np.conj(mv) if s < 0 else mv) if model else 0, f))
    if not terms:
        t.check("nothing gridded", out == {})
        return
    n_vis = len(terms)
    t.check("number of gridded visibilities", out["n_vis"] == n_vis)
    for f in range(nf):
        t.check("gridded visibilities per frequency", out["obs"]["nf_vis"][f] == sum(x[-1] == f for x in terms))
    img, wts, var, cnt, mdl = ({} for _ in range(5))
    for x0, y0, k, val, mv, _ in terms:
        for i in range(psf):
            for j in range(psf):
                p, e = (y0 + i, x0 + j), k[i * psf + j]
                img[p] = img.get(p, 0) + e * val / n_vis
                wts[p] = wts.get(p, 0) + e / n_vis
                var[p] = var.get(p, 0) + (e.real * e.real + e.imag * e.imag) / n_vis
                cnt[p] = cnt.get(p, 0) + 1
                mdl[p] = mdl.get(p, 0) + e * mv / n_vis
    planes = [("image", "image_uv", img, 2), ("weights", "weights", wts, 2), ("variance", "variance", var, 4), ("visibility count", "uniform_filter", cnt, 2)]
    if model:
        planes.append(("model", "model_return", mdl, 2))
    for label, key, d, div in planes:
        got = out[key]
        t.check("shape", tuple(got.shape) == (n, n))
        for i in range(n):
            for j in range(n):
                a = d.get((i, j), 0)
                if once:
                    t.eq(label + " plane", got[i, j], a)
                else:
                    b = d.get((-i % n, -j % n), 0)
                    b = t.np.conj(b) if not isinstance(b, int) else b
                    t.eq(label + " plane with its mirror", got[i, j], (a + b) / div)


@harness(
    quick=[dict(nt=1, order=(0, 1, 1, 2, 2)), dict(nt=2, order=(2, 0, 2)), dict(nt=1, order=(1, 1, 0, 1), fbin=(1, 0)), dict(nt=1, order=(0, 1, 0), fbin=(1, 1))],
    thorough=[dict(nt=2, order=(0, 1, 1, 2, 2), fbin=(1, 1)), dict(nt=1, order=(2, 1, 2, 2, 0, 2), fbin=(0, 0)), dict(nt=3, order=(1, 0), fbin=(1, 0))],
    budget=60,
)
def shared(t, nt, order, fbin=(0,)):
    """several visibilities of one footprint, some of them of the same kernel, whatever the groups of baselines, frequency bins and times"""
    v = t.mod("PyFHD.gridding.visibility_grid")
    n, psf, res, nf, nb = 8, 2, 2, len(fbin), len(order)
    sub = [(0.0625, -0.1875), (0.5625, -0.1875), (0.5625, -0.5625)]  # at both frequencies within the same pixel, in different parts of it
    freq = [1.0, 1.0625][:nf]
    rows = nb * nt
    at = [sub[order[(b + i) % nb]] for i in range(nt) for b in range(nb)]
    obs = make_obs(t, freq, nb + 1, n, n, ta=[1] * rows, tb=[2 + b for b in range(nb)] * nt)
    obs.update(n_baselines=nb, n_time=nt, nf_vis=t.np.zeros(nf))
    obs["baseline_info"]["fbin_i"] = t.np.array(fbin)
    group = t.choice("groups", [[0] * 6, [0, 1, 0, 1, 2, 1], [2, 1, 0, 1, 0, 2]])[:nb]
    pol = t.choice("pol", [0, 1])
    vis = t.complex("v", (nf, rows), -4, 4)
    mod = t.complex("m", (nf, rows), -4, 4)
    k = t.np.array([[[[[(1.0 + f + 0.5 * p) * (1 - 0.5j * a) + 0.75 * b + 0.25 * c * (1 + 1j) for c in range(psf * psf)] for a in range(res + 1)] for b in range(res + 1)] for f in range(2)] for p in range(2)])
    psfd = {"dim": psf, "resolution": res, "id": t.np.array([[group] * 2] * 2), "beam_ptr": k}
    w = t.np.ones((nf, rows))
    lost = t.choice("flagged", [None, 0, rows - 1])
    if lost is not None:
        w[nf - 1, lost] = 0
    kvis, kmod = vis.copy(), mod.copy()
    out = v.visibility_grid(vis, w, obs, psfd, {"uu": t.np.array([x for x, _ in at]), "vv": t.np.array([y for _, y in at])}, pol, CFG, t.logger, uniform_flag=True, no_conjugate=True, model=mod)
    t.eq("visibilities untouched", vis, kvis)
    t.eq("model untouched", mod, kmod)
    sums, n_vis, corner = {}, 0, None
    for f in range(nf):
        for b in range(rows):
            if (f, b) == (nf - 1, lost):
                continue
            x0, y0, px, py = locate(t, at[b][0], at[b][1], freq[f], n, n, psf)
            e = t.np.conj(k[pol, fbin[f], int(py * res), int(px * res)])
            assert corner in (None, (int(x0), int(y0)))
            corner = int(x0), int(y0)
            n_vis += 1
            for c in range(psf * psf):
                for key, d in (("image_uv", kvis[f, b]), ("model_return", kmod[f, b]), ("weights", 1)):
                    sums[key, c] = sums.get((key, c), 0) + e[c] * d
                sums["variance", c] = sums.get(("variance", c), 0) + (e[c] * t.np.conj(e[c])).real
                sums["uniform_filter", c] = sums.get(("uniform_filter", c), 0) + 1
    t.check("number of gridded visibilities", out["n_vis"] == n_vis)
    x0, y0 = corner
    for key in ("image_uv", "model_return", "weights", "variance", "uniform_filter"):
        for i in range(n):
            for j in range(n):
                a, b = i - y0, j - x0
                on = 0 <= a < psf and 0 <= b < psf
                t.eq(key + " of a shared footprint", out[key][i, j] * (n_vis if key != "uniform_filter" else 1), sums[key, a * psf + b] if on else 0)


@harness(quick=[dict(nb=3)], thorough=[dict(nb=4)], budget=60)
def selected_baselines(t, nb):
    """gridding a subset of baselines and frequencies equals gridding with the others flagged"""
    v = t.mod("PyFHD.gridding.visibility_grid")
    n, psf, res, nf = 8, 2, 2, 2
    at = (SETS[1] + SETS[0])[:nb]
    vis = t.complex("v", (nf, nb), -4, 4)
    ker = t.np.array([[[[[1.0 + f, 2.0, 0.5 * a, 3.0 * b + f] for a in range(3)] for b in range(3)] for f in range(nf)]]) * (1 + 0.5j)
    fi = t.choice("fi", [[0], [1], [0, 1]])
    bi = t.choice("bi", [[0], [1, 2], [0, 2]])
    how = t.choice("how", ["arguments", "frequencies unused"])
    res_ = []
    for sel in (True, False):
        obs = make_obs(t, [1.0, 1.5], nb + 1, n, n)
        obs.update(n_baselines=nb, n_time=1, nf_vis=t.np.zeros(nf))
        obs["baseline_info"]["fbin_i"] = t.np.array([0, 1])
        w = t.np.ones((nf, nb))
        kw = dict(fi_use=t.np.array(fi), bi_use=t.np.array(bi)) if sel and how == "arguments" else {}
        if sel and not kw:
            obs["baseline_info"]["freq_use"] = t.np.array([1 if f in fi else 0 for f in range(nf)])
        for f in range(nf):
            for b in range(nb):
                if not sel and f not in fi or not kw and b not in bi:
                    w[f, b] = 0
        psfd = {"dim": psf, "resolution": res, "id": t.np.zeros((1, nf, nb), dtype=int), "beam_ptr": ker}
        res_.append(v.visibility_grid(vis, w, obs, psfd, {"uu": t.np.array([x for x, _ in at]), "vv": t.np.array([y for _, y in at])}, 0, CFG, t.logger, **kw))
    t.check("count", res_[0]["n_vis"] == res_[1]["n_vis"])
    t.eq("gridded visibilities per frequency", res_[0]["obs"]["nf_vis"], res_[1]["obs"]["nf_vis"])
    for key in ("image_uv", "weights", "variance"):
        t.eq(key, res_[0][key], res_[1][key])
