"""baseline_grid_locations and visibility_count."""
from checks.common import PLACES, locate, make_obs
from symnp.spec import harness

ASSUMPTIONS = [
    "gridding locations: unit pixel size, exactly representable frequencies; coordinates in pixels and lengths at least 1e-6 away from the limits; baseline weights given per frequency"
]


def _hist(t, d, n_f, n_b, dim):
    """bins group exactly the visibilities with the same corner"""
    xm = [[int(d["xmin"][f, b]) for b in range(n_b)] for f in range(n_f)]
    ym = [[int(d["ymin"][f, b]) for b in range(n_b)] for f in range(n_f)]
    live = {}
    for f in range(n_f):
        for b in range(n_b):
            if xm[f][b] >= 0:
                live.setdefault(xm[f][b] + ym[f][b] * dim, []).append(f * n_b + b)
    t.check("number of occupied bins", d["n_bin_use"] == len(live))
    if not live:
        t.check("nothing to grid", d["bin_n"] == 0)
        return
    bins = [int(x) for x in d["bin_i"]]
    t.check("occupied bins", bins == sorted(live))
    for k in bins:
        t.check("count in a bin", d["bin_n"][k] == len(live[k]))
        r = d["ri"]
        t.check("members of a bin", [int(x) for x in r[int(r[k]) : int(r[k + 1])]] == live[k])


@harness(
    quick=[dict(nf=1, nb=1, dim=8, el=8, psf=2, res=4), dict(nf=1, nb=1, dim=8, el=12, psf=4, res=2), dict(nf=2, nb=1, dim=8, el=8, psf=2, res=2)],
    thorough=[dict(nf=1, nb=2, dim=8, el=8, psf=2, res=2), dict(nf=2, nb=1, dim=12, el=8, psf=4, res=3)],
    budget=60,
)
def locations(t, nf, nb, dim, el, psf, res):
    """corner, sub-pixel offset, bilinear factors, limits"""
    t.split_cases()
    g = t.mod("PyFHD.gridding.gridding_utils")
    freq = [1.0, 1.5][:nf]
    lo, hi = 0.75, 3.25
    obs = make_obs(t, freq, nb + 1, dim, el, lo, hi)
    u, v = t.real("u", nb, -4, 4), t.real("v", nb, -4, 4)
    w = t.real("w", (nf, nb), 0.25, 1)
    ku, kv = u.copy(), v.copy()
    mirror = t.flag("mask_mirror")
    far = []
    for b in range(nb):
        r2 = u[b] * u[b] + v[b] * v[b]
        for c in (freq[0] / lo, freq[-1] / hi):
            t.assume(t.Or(r2 * c * c > 1 + 1e-6, r2 * c * c < 1 - 1e-6))
        far.append(bool(t.Or(r2 * freq[0] ** 2 < lo * lo, r2 * freq[-1] ** 2 > hi * hi)))
    d = g.baseline_grid_locations(obs, {"dim": psf, "resolution": res}, {"uu": u, "vv": v}, w, t.logger, interp_flag=True, mask_mirror_indices=mirror)
    t.eq("coordinates untouched", u, ku)
    t.eq("coordinates untouched", v, kv)
    t.check("all baselines are used", [int(x) for x in d["bi_use"]] == list(range(nb)))
    for f in range(nf):
        for b in range(nb):
            conj = bool(v[b] > 0)
            s = -1 if conj else 1
            x0, y0, px, py = locate(t, s * u[b], s * v[b], freq[f], dim, el, psf)
            inside = t.And(x0 > 0, y0 > 0, x0 + psf - 1 < dim - 1, y0 + psf - 1 < el - 1)
            if bool(inside) and not far[b] and not (mirror and conj):
                t.check("corner", t.And(d["xmin"][f, b] == x0, d["ymin"][f, b] == y0))
            else:
                t.check("left out", t.And(d["xmin"][f, b] == -1, d["ymin"][f, b] == -1))
            dx, dy = px * res - t.np.floor(px * res), py * res - t.np.floor(py * res)
            t.check("sub-pixel offset", t.And(d["x_offset"][f, b] == t.np.floor(px * res), d["y_offset"][f, b] == t.np.floor(py * res)))
            t.eq("bilinear factor 00", d["dx0dy0_arr"][f, b], (1 - dx) * (1 - dy))
            t.eq("bilinear factor 10", d["dx1dy0_arr"][f, b], dx * (1 - dy))
            t.eq("bilinear factor 01", d["dx0dy1_arr"][f, b], (1 - dx) * dy)
            t.eq("bilinear factor 11", d["dx1dy1_arr"][f, b], dx * dy)
    _hist(t, d, nf, nb, dim)


@harness(
    quick=[dict(nf=2, nb=2), dict(nf=1, nb=3)],
    thorough=[dict(nf=2, nb=3), dict(nf=1, nb=4)],
    budget=60,
)
def selection(t, nf, nb):
    """weights, chosen baselines and frequencies, filling of the model"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    freq = [1.0, 1.5][:nf]
    use = [int(t.flag("freq%d" % k)) for k in range(nf)]
    fill = t.flag("fill")
    obs = make_obs(t, freq, nb + 1, 8, 8, freq_use=use, ta=[1] * nb, tb=list(range(2, nb + 2)))
    u, v = t.np.array([x for x, _ in PLACES[:nb]]), t.np.array([y for _, y in PLACES[:nb]])
    w = t.real("w", (nf, nb), -1, 1)
    bi = t.choice("bi", [None, list(range(nb - 1, 0, -1))])
    fi = t.choice("fi", [None, [nf - 1]])
    kw = {}
    if bi is not None:
        kw["bi_use"] = t.np.array(bi)
    if fi is not None:
        kw["fi_use"] = t.np.array(fi)
    pos = [[bool(w[f, b] > 0) for b in range(nb)] for f in range(nf)]
    d = g.baseline_grid_locations(obs, {"dim": 2, "resolution": 2}, {"uu": u, "vv": v}, w, t.logger, fill_model_visibilities=fill, **kw)
    if bi is None:
        bi = [b for b in range(nb) if fill or any(pos[f][b] for f in range(nf))]
        t.check("baselines with any weight", [int(x) for x in d["bi_use"]] == bi)
    else:
        t.check("given baselines are not reported", "bi_use" not in d)
    if fill:
        fi = list(range(nf))
    elif fi is None:
        fi = [f for f in range(nf) if use[f]]
    t.check("one row per frequency, one column per baseline", tuple(d["xmin"].shape) == (len(fi), len(bi)))
    for i, f in enumerate(fi):
        for j, b in enumerate(bi):
            s = -1 if PLACES[b][1] > 0 else 1
            x0, y0, _, _ = locate(t, s * u[b], s * v[b], freq[f], 8, 8, 2)
            inside = x0 > 0 and y0 > 0 and x0 + 1 < 7 and y0 + 1 < 7
            if inside and (fill or pos[f][b]):
                t.check("corner", t.And(d["xmin"][i, j] == x0, d["ymin"][i, j] == y0))
            else:
                t.check("flagged or outside is left out", t.And(d["xmin"][i, j] == -1, d["ymin"][i, j] == -1))
    if len(fi) and len(bi):
        _hist(t, d, len(fi), len(bi), 8)


@harness(quick=[dict(nf=1, nb=2, psf=2), dict(nf=2, nb=2, psf=4)], thorough=[dict(nf=2, nb=3, psf=2)], budget=60)
def counts(t, nf, nb, psf):
    """each gridded visibility adds one to every pixel of its footprint, then the conjugate half is filled in"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    freq = [1.0, 1.5][:nf]
    n = 10
    obs = make_obs(t, freq, nb + 1, n, n)
    shift = t.choice("shift", [0, 2])
    at = PLACES[shift : shift + nb]
    u, v = t.np.array([x for x, _ in at]), t.np.array([y for _, y in at])
    w = t.real("w", (nf, nb), -1, 1)
    mirror, once = t.flag("mirror"), t.flag("no_conjugate")
    cnt = [[0] * n for _ in range(n)]
    for f in range(nf):
        for b in range(nb):
            s = -1 if at[b][1] > 0 else 1
            if not bool(w[f, b] > 0) or (mirror and s < 0):
                continue
            x0, y0, _, _ = locate(t, s * u[b], s * v[b], freq[f], n, n, psf)
            x0, y0 = int(x0), int(y0)
            if x0 > 0 and y0 > 0 and x0 + psf - 1 < n - 1 and y0 + psf - 1 < n - 1:
                for i in range(psf):
                    for j in range(psf):
                        cnt[y0 + i][x0 + j] += 1
    out = g.visibility_count(obs, {"dim": psf, "resolution": 2}, {"uu": u, "vv": v}, w, t.logger, mask_mirror_indices=mirror, no_conjugate=once)
    want = [[cnt[i][j] if once else (cnt[i][j] + cnt[-i % n][-j % n]) / 2 for j in range(n)] for i in range(n)]
    t.eq("visibilities per pixel", out, t.np.array(want) * 1.0)


@harness(quick=[dict(nb=140, dim=40, res=300), dict(nb=4, dim=260, res=4)], thorough=[dict(nb=140, dim=400, res=300)], budget=60, validate=2)
def many(t, nb, dim, res):
    """more visibilities in a pixel, finer sub-pixels and larger planes than small integers can count"""
    g = t.mod("PyFHD.gridding.gridding_utils")
    freq = [1.0, 1.0078125]
    nf = 2
    obs = make_obs(t, freq, nb + 1, dim, dim, ta=[1 + b * (b % 2) for b in range(nb)], tb=[2 + b * (1 - b % 2) for b in range(nb)])
    far = dim / 2 - 5.5
    at = [(0.5 + 0.25 * (b % 2), -0.25) for b in range(nb - 3)] + [(far, -far + 0.25), (-far, far + 0.75), (far - 1.5, 0.9375)]
    u, v = t.np.array([x for x, _ in at]), t.np.array([y for _, y in at])
    w = t.np.ones((nf, nb))
    k = t.choice("one", [0, nb - 3])
    x = t.real("w", None, -1, 1)
    w[1, k] = x
    good = bool(x > 0)
    d = g.baseline_grid_locations(obs, {"dim": 2, "resolution": res}, {"uu": u, "vv": v}, w, t.logger)
    t.check("baselines with any weight", [int(i) for i in d["bi_use"]] == list(range(nb)))
    corner, offs = [], []
    for f in range(nf):
        for b in range(nb):
            s = -1 if at[b][1] > 0 else 1
            x0, y0, px, py = (float(q) for q in locate(t, t.np.array(s * at[b][0]), t.np.array(s * at[b][1]), freq[f], dim, dim, 2))
            inside = x0 > 0 and y0 > 0 and x0 + 1 < dim - 1 and y0 + 1 < dim - 1 and (good or (f, b) != (1, k))
            corner.append((x0, y0) if inside else (-1, -1))
            offs.append((int(px * res), int(py * res)))
    got = [(int(d["xmin"][f, b]), int(d["ymin"][f, b])) for f in range(nf) for b in range(nb)]
    t.check("corners", got == corner)
    t.check("sub-pixel offsets", [(int(d["x_offset"][f, b]), int(d["y_offset"][f, b])) for f in range(nf) for b in range(nb)] == offs)
    _hist(t, d, nf, nb, dim)
