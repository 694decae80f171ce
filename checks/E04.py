"""healpix_snapshot_cube_generate, update_obs."""
import os
import shutil
import tempfile

import numpy

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the beam (E02), the HEALPix pixels (E01), flagging (F03), updating and splitting the weights (V01, V02), the noise (V03), the frequency split (E03) and writing the files are replaced by functions of what they are given; applying the pixels and updating the observation are real",
    "one value of the beam, of a plane of the split, of the counts or of the weights is free at a time; the span of the grid is free within a third of a pixel",
]
EX = "PyFHD.healpix.export"
RAD = 180 / numpy.pi
# configuration and the uv pixel, field of view, size of the grid it asks for
GRIDS = [
    (dict(ps_kbinsize=0.5, ps_fov=7.0, ps_dimension=6), 0.5, 6),
    (dict(ps_fov=60.0), RAD / 60.0, None),
    (dict(), None, None),
    (dict(ps_kspan="kspan", ps_dimension=5, ps_degpix=3.0), None, 4),
    (dict(ps_kbinsize=0.625, ps_degpix=20.0), 0.625, 5),
    (dict(ps_fov=70.0, ps_dimension=6), RAD / 70.0, 6),
    (dict(ps_dimension=6, ps_degpix=3.0), None, 6),
]


def _obs(t, n_pol, n_freq, dim, fov):
    np = t.np
    kpix = RAD / fov
    return {
        "n_pol": n_pol,
        "n_freq": n_freq,
        "n_time": 2,
        "dimension": dim,
        "elements": dim,
        "obsx": dim / 2,
        "obsy": dim / 2,
        "kpix": kpix,
        "degpix": RAD / (kpix * dim),
        "freq_res": 80000.0,
        "min_baseline": 0.5,
        "max_baseline": dim * kpix / numpy.sqrt(2) * 4,
        "residual": False,
        "pol_names": ["XX", "YY", "XY", "YX"],
        "astr": {"naxis": np.array([dim, dim]), "cdelt": np.array([1.0, 1.0]), "crpix": np.array([1.0, 1.0])},
        "healpix": {"nside": 0},
        "baseline_info": {"freq": np.array([180e6 + 80000.0 * k for k in range(n_freq)]), "fbin_i": np.array([k // 2 for k in range(n_freq)]), "freq_use": np.ones(n_freq, dtype=int)},
    }


@harness(
    quick=[
        dict(n_pol=2, n_freq=4, n_avg=2, split=True, grid=2),
        dict(n_pol=2, n_freq=5, n_avg=2, split=False, grid=0),
        dict(n_pol=4, n_freq=3, n_avg=1, split=True, grid=3),
        dict(n_pol=1, n_freq=3, n_avg=3, split=True, grid=5),
        dict(n_pol=2, n_freq=7, n_avg=3, split=True, grid=4),
        dict(n_pol=1, n_freq=2, n_avg=1, split=False, grid=1),
        dict(n_pol=1, n_freq=2, n_avg=2, split=False, grid=6),
    ],
    thorough=[dict(n_pol=n, n_freq=f, n_avg=a, split=s, grid=g) for n, f, a, s, g in [(4, 4, 2, False, 1), (2, 6, 4, True, 1), (2, 5, 1, True, 0), (4, 6, 2, True, 5), (1, 8, 3, False, 3), (2, 4, 2, False, 4)]],
    budget=60,
)
def cubes(t, n_pol, n_freq, n_avg, split, grid):
    """the files of the cubes: per time set and polarisation the maps of the split's planes and of the beam times the counts"""
    np, m = t.np, t.mod(EX)
    over, kbin, dim = GRIDS[grid]
    opts = t.choice("options", [(False, [], None), (True, ["Tile1"], 2.0), (False, ["Tile2", "Tile3"], 1.0)])
    residual, flagged, nfreq_avg = opts
    hot = t.choice("hot", ["beam", "plane", "count", "weight", "span"])
    t.split_cases()
    fov0, dim0 = (60.0, 4) if grid == 1 else (75.0, 4)
    big = grid == 1  # a size whose quotient of field of view and pixel size is not a whole number in floating point
    if big:
        dim0 = 2000
    obs = _obs(t, n_pol, n_freq, dim0, fov0)
    obs["residual"] = residual
    if kbin is None:
        kbin = RAD / fov0
    if dim is None:
        dim = dim0
    cfg = {k: None for k in ("ps_kbinsize", "ps_fov", "ps_kspan", "ps_dimension", "ps_degpix", "ps_beam_threshold")}
    cfg.update(over)
    if grid == 3:
        cfg["ps_kspan"] = dim * kbin + (t.real("span", None, -0.3125, 0.3125) * 0.75 if hot == "span" else 0.0)
    if grid == 4:
        # 91.67 degrees in pixels of 20 degrees
        dim = int(numpy.round(RAD / 0.625 / 20.0))
    cfg.update(split_ps_export=split, ps_nfreq_avg=nfreq_avg, n_avg=n_avg, ps_tile_flag_list=flagged, obs_id="1061316296", restrict_healpix_inds=False, ps_beam_threshold=0.25)
    psf = {"fbin_i": np.array([k // 2 for k in range(n_freq)]), "dim": 4}
    fov, nf = RAD / kbin, n_freq // n_avg
    n_bl, n_pix = 4, 3
    vis = np.ones((n_pol, n_freq, n_bl), dtype="complex128")
    model = np.ones((n_pol, n_freq, n_bl), dtype="complex128") * 2
    w = np.ones((n_pol, n_freq, n_bl))
    if hot == "weight":
        w[n_pol - 1, n_freq - 1, 1] = t.real("w", None, -1, 1)
    counts = np.array([3.0 + 2 * k for k in range(n_freq)])
    if hot == "count":
        counts[min(n_avg, nf * n_avg - 1)] = t.real("c", None, 0, 64)
    side = 2 if big else dim
    shape = (side, side)

    def fill(k, like=None):
        a = np.zeros(shape)
        for j in range(side):
            for i in range(side):
                a[j, i] = 0.5 + 0.25 * ((3 * j + 5 * i + 7 * k) % 13) - 0.125 * (k % 4)
        return a

    beam = np.zeros((n_pol, nf, side, side))
    for p in range(n_pol):
        for k in range(nf):
            beam[p, k] = fill(17 * p + 3 * k)
    if hot == "beam":
        beam[n_pol - 1, nf - 1, 1, 0] = t.real("b", None, 0, 1)
    cnv = {"inds": np.array([7, 20, 33]), "i_use": np.array([0, side, side * side - 1]), "ija": [np.array([0, 1]), np.array([1, 2]), np.array([2])], "sa": [np.array([0.25, 0.75]), np.array([0.5, 0.5]), np.array([1.0])]}

    def on_sky(a):
        a = [a[0, 0], a[1, 0], a[side - 1, side - 1]]
        return [0.25 * a[0], 0.75 * a[0] + 0.5 * a[1], 0.5 * a[1] + a[2]]

    kinds = ("residual_arr", "weights_arr", "variance_arr", "model_arr")
    planes = {}
    nsplit = (n_freq + n_avg - 1) // n_avg
    for s in range(2 if split else 1):
        for p in range(n_pol):
            for q, kind in enumerate(kinds):
                a = np.zeros((nsplit, side, side))
                for k in range(nsplit):
                    a[k] = fill(1 + 5 * q + 11 * s + 19 * p + 23 * k)
                planes[s, p, kind] = a
    if hot == "plane":
        x = t.choice("which", list(kinds))
        planes[1 if split else 0, n_pol - 1, x][nf - 1, 1, 0] = t.real("x", None, -8, 8)
    sets = [np.array([0, 2]), np.array([1, 3])]
    dirp = tempfile.mkdtemp(prefix="e04")
    cfg["output_dir"] = dirp
    files, state = {}, {"flag": 0, "update": 0, "noise": 0, "pixels": 0, "beam": 0}
    w_flag = w * 0.5 if flagged else w
    w_up = w_flag * 0.25 - 0.5
    w_split = w_up * 2.0

    def grid_of(o, what):
        t.check("size of the grid of the " + what, o["dimension"] == dim and o["elements"] == dim)
        t.eq("uv pixel of the " + what, o["kpix"], kbin, 1e-9)
        t.eq("pixel of the " + what, o["degpix"], fov / dim, 1e-9)

    def beam_image_cube(obs_, psf_, logger, freq_i_arr=None, pol_i_arr=None, n_freq_bin=None, square=True, beam_threshold=None):
        state["beam"] += 1
        grid_of(obs_, "beam")
        t.check("beam of the cubes", psf_ is psf and freq_i_arr is None and int(n_freq_bin) == nf and bool(square) and beam_threshold == 0.25)
        per = 2 if nfreq_avg is None else int(nfreq_avg)
        if nfreq_avg is None:
            per = int(numpy.round(n_freq / ((n_freq - 1) // 2 + 1)))
        t.check("bins of the beam", [int(x) for x in obs_["baseline_info"]["fbin_i"]] == [k // per for k in range(n_freq)])
        return beam.copy(), "mask"

    def healpix_cnv_generate(obs_, mask, hpx_radius, cfg_, logger, nside=None):
        state["pixels"] += 1
        grid_of(obs_, "HEALPix pixels")
        t.check("mask and options of the pixels", mask == "mask" and cfg_ is cfg)
        t.eq("radius of the pixels", hpx_radius, fov / numpy.sqrt(2), 1e-9)
        sides = numpy.sqrt(4 * numpy.pi * RAD**2 / 12) / (fov / dim)
        want = 1
        while want < sides:
            want *= 2
        t.check("nside is the power of two not coarser than the image", nside is not None and abs(nside - want) < 1e-9)
        return cnv, obs_

    def vis_flag_tiles(obs_, w_, tiles, logger):
        state["flag"] += 1
        t.check("flagged tiles", list(tiles) == flagged)
        t.eq("weights to flag", w_, w, 1e-9)
        return w_ * 0.5

    def vis_weights_update(w_, obs_, psf_, params):
        state["update"] += 1
        t.check("update of the weights", psf_ is psf and params == "params")
        grid_of(obs_, "weights")
        t.eq("weights to update", w_, w_flag, 1e-9)
        obs_["nf_vis"] = counts.copy()
        obs_["n_vis"] = 11
        return w_ * 0.25 - 0.5, obs_

    def split_vis_weights(obs_, w_):
        t.check("split asked for", split)
        t.eq("weights to split", w_, w_up, 1e-9)
        return w_ * 2.0, [s.copy() for s in sets]

    def vis_noise_calc(obs_, vis_, w_, bi_use=None):
        state["noise"] += 1
        t.eq("visibilities of the noise", vis_, vis)
        if bi_use is not None:
            t.check("samples of the noise", split and [list(map(int, b)) for b in bi_use] == [[0, 2], [1, 3]])
        else:
            t.check("samples of the noise", not split)
        return "noise"

    def vis_model_freq_split(obs_, psf_, params, w_, model_, vis_, pol, cfg_, logger, fft=True, save_uvf=True, uvf_name="", bi_use=None):
        grid_of(obs_, "planes")
        t.check("inputs of the split", psf_ is psf and params == "params" and cfg_ is cfg and bool(fft))
        t.eq("visibilities of the split", vis_, vis)
        t.eq("model of the split", model_, model)
        t.eq("weights of the split", w_, w_split if split else w_up, 1e-9)
        got = [int(b) for b in bi_use] if bi_use is not None else list(range(n_bl))
        s = {"even": 0, "odd": 1, "": 0}[uvf_name]
        t.check("samples of the split", got == ([0, 2], [1, 3])[s] if split else got == list(range(n_bl)))
        t.check("name of the split", (uvf_name != "") == split)
        out = {k: planes[s, int(pol), k].copy() for k in kinds}
        obs_["n_vis"] = 100 + int(pol)
        obs_["nf_vis"] = counts + (64.0 * s + 16.0 * int(pol) + 8.0)
        out["obs"] = obs_
        return out

    def save(name, data, tag=None, *a, **kw):
        data = dict(data)
        data["n_vis of the file"] = data["obs"]["n_vis"]
        files[os.path.relpath(str(name), dirp)] = data

    new = dict(beam_image_cube=beam_image_cube, healpix_cnv_generate=healpix_cnv_generate, vis_flag_tiles=vis_flag_tiles, vis_weights_update=vis_weights_update, split_vis_weights=split_vis_weights, vis_noise_calc=vis_noise_calc, vis_model_freq_split=vis_model_freq_split, save=save)
    old = {k: getattr(m, k) for k in new}
    for k, f in new.items():
        setattr(m, k, like(m, k, f))
    keep = [vis.copy(), model.copy(), w.copy()]
    try:
        m.healpix_snapshot_cube_generate(obs, psf, "cal", "params", vis, model, w, cfg, t.logger)
    finally:
        for k, f in old.items():
            setattr(m, k, f)
        shutil.rmtree(dirp)
    t.check("steps", state["flag"] == (1 if flagged else 0) and all(state[k] == 1 for k in ("update", "noise", "pixels", "beam")))
    names = ["hpx_even", "hpx_odd"] if split else ["healpix_cube"]
    expect = {os.path.join("healpix", "1061316296_%s_%s.h5" % (names[s], obs["pol_names"][p])): (s, p) for s in range(len(names)) for p in range(n_pol)}
    t.check("files of the cubes", sorted(files) == sorted(expect))
    main = "res_cube" if residual else "dirty_cube"
    for name, (s, p) in expect.items():
        d = files[name]
        t.check("kind of the cube", main in d and ("dirty_cube" if residual else "res_cube") not in d)
        t.check("pixels and averaging in the file", [int(i) for i in d["hpx_inds"]] == [7, 20, 33] and d["n_avg"] == n_avg)
        t.check("observation in the file", d["obs"]["dimension"] == dim and d["obs"]["vis_noise"] == "noise" and d["n_vis of the file"] == 100 + p)
        for key, kind in ((main, "residual_arr"), ("weights_cube", "weights_arr"), ("variance_cube", "variance_arr"), ("model_cube", "model_arr")):
            t.check("shape of the cube", tuple(d[key].shape) == (nf, n_pix))
            for k in range(nf):
                t.eq(key, d[key][k], np.array(on_sky(planes[s, p, kind][k])), 1e-9)
        for k in range(nf):
            n = 0.0
            for f in range(k * n_avg, (k + 1) * n_avg):
                n = n + counts[f] + (64.0 * s + 16.0 * p + 8.0)
            t.eq("beam squared cube", d["beam_squared_cube"][k], np.array(on_sky(beam[p, k] * n)), 1e-9)
    for label, a, b in zip(("visibilities", "model", "weights"), (vis, model, w), keep):
        t.eq(label + " untouched", a, b)
