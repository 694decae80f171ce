"""beams from a file, whole or as needed: create_psf, and every stage which reads a beam."""
import contextlib
import shutil
import tempfile
from pathlib import Path

from checks.common import like, make_obs
from checks.h5store import _H5
from symnp.spec import harness

ASSUMPTIONS = [
    "HDF5 (h5py) is replaced by the store of S02; every concrete replay and validation run uses h5py itself",
    "positions, sizes and frequency bins from lists; one beam value is free at a time",
]
IO, BE, BU, GU, VG, UT = "PyFHD.io.pyfhd_io", "PyFHD.beam_setup.beam", "PyFHD.beam_setup.beam_utils", "PyFHD.gridding.gridding_utils", "PyFHD.gridding.visibility_grid", "PyFHD.pyfhd_tools.pyfhd_utils"
CFG = dict(interpolate_kernel=False, mask_mirror_indices=False, beam_per_baseline=False, grid_uniform=False, grid_spectral=False, grid_weights=True, grid_variance=True, beam_clip_floor=False, image_filter="filter_uv_uniform")


@contextlib.contextmanager
def _opened(t, psf, single):
    """the beam from its file, where numbers may be alone or arrays of one: in memory and as needed"""
    ones = lambda d: {k: ones(v) if isinstance(v, dict) else t.np.array([v]) if isinstance(v, (int, float)) else v for k, v in d.items()}
    mods = [t.mod(IO)] + [m for m in (t.mod(x) for x in (BU, GU, VG, UT)) if hasattr(m, "h5py")]
    old = [m.h5py for m in mods]
    dirp = tempfile.mkdtemp(prefix="b02")
    store = _H5(t) if t.sym else None
    try:
        if t.sym:
            for m in mods:
                m.h5py = store
        io = mods[0]
        path = Path(dirp, "beam.h5")
        io.save(path, ones(psf) if single else psf, "psf")
        lazy = io.load(path, lazy_load=True)
        t.check("read as needed", isinstance(lazy, io.h5py.File))
        yield psf if single else io.load(path), lazy
        lazy.close()
    finally:
        for m, h in zip(mods, old):
            m.h5py = h
        shutil.rmtree(dirp)


def _beam(np_, dim, res, n_bin, gauss=False):
    k = np_.zeros((2, n_bin, res + 1, res + 1, dim * dim), dtype="complex128")
    for p in range(2):
        for b in range(n_bin):
            for i in range(res + 1):
                for j in range(res + 1):
                    for q in range(dim * dim):
                        k[p, b, i, j, q] = 0.25 * ((3 * q + 5 * p + 7 * b + 2 * i + j) % 11) + 0.125j * ((q + p + b) % 5)
    psf = {"dim": dim, "resolution": res, "id": np_.zeros((2, n_bin, 3), dtype="int64"), "beam_ptr": k, "fnorm": np_.array([1.0 + 0.5 * b for b in range(n_bin)]), "pix_horizon": 3.0, "fbin_i": np_.arange(n_bin)}
    if gauss is None:
        psf["beam_gaussian_params"] = None
    elif gauss:
        psf["beam_gaussian_params"] = np_.array([[[1.0 + 0.25 * p + 0.5 * b, 2.25, 0.75, 1.5, 1.25] for b in range(n_bin)] for p in range(2)])
    return psf


@harness(quick=[dict(interp=False), dict(interp=True)], thorough=[], budget=60)
def gridding(t, interp):
    """gridding with a beam read as needed gives the planes of the beam in memory"""
    np, v, g, u = t.np, t.mod(VG), t.mod(GU), t.mod(UT)
    single = t.flag("arrays of one")
    pol = t.choice("pol", [0, 1])
    psf = _beam(np, 2, 2, 2)
    psf["beam_ptr"][pol, 1, 1, 1, 2] = t.complex("k", None, -4, 4)
    at = t.choice("set", [[(0.5, -0.25), (0.75, -0.25), (-0.5, 0.25)], [(2.25, -1.5), (-1.75, 0.5), (0.25, -1.5)]])
    vis = t.complex("v", (2, 3), -4, 4)

    def obs():
        o = make_obs(t, [1.0, 1.5], 4, 8, 8, ta=[1, 1, 1], tb=[2, 3, 4])
        o.update(n_baselines=3, n_time=1, n_pol=1, nf_vis=np.zeros(2))
        o["baseline_info"].update(fbin_i=np.array([0, 1]), tile_use=np.ones(4, dtype="int64"), time_use=np.ones(1, dtype="int64"), bin_offset=np.array([0]))
        return o

    params = lambda: {"uu": np.array([x for x, _ in at]), "vv": np.array([y for _, y in at])}
    with _opened(t, psf, single) as (whole, lazy):
        out = []
        for beam in (whole, lazy):
            r = dict(v.visibility_grid(vis, np.ones((2, 3)), obs(), beam, params(), pol, dict(CFG, interpolate_kernel=interp), t.logger, uniform_flag=True))
            r["count"] = g.visibility_count(obs(), beam, params(), np.ones((2, 3)), t.logger)
            w, o = u.vis_weights_update(np.ones((1, 2, 3)), obs(), beam, params())
            r["weights update"], r["n_vis of the update"] = w, o["n_vis"]
            out.append(r)
        for key in ("image_uv", "weights", "variance", "uniform_filter", "n_vis", "count", "weights update", "n_vis of the update"):
            t.eq(key, out[1][key], out[0][key])
        t.check("visibilities there", bool(out[0]["n_vis"] > 0))


@harness(quick=[dict(gauss=True), dict(gauss=False), dict(gauss=None)], thorough=[], budget=60)
def image(t, gauss):
    """the image of a beam read as needed is that of the beam in memory, and of one which has no lobes fitted"""
    np, b = t.np, t.mod(BU)
    single = t.flag("arrays of one")
    pol, square = t.choice("pol", [0, 1]), t.flag("square")
    one = t.choice("freq", [None, 0, 2])
    psf = _beam(np, 2, 1, 2, gauss)
    if gauss:
        psf["beam_gaussian_params"][pol, 1, 0] = t.real("k", None, -4, 4)
    else:
        psf["beam_ptr"][pol, 1, 0, 0, 2] = t.complex("k", None, -4, 4)
    obs = {"dimension": 4, "elements": 4, "kpix": 0.5, "n_pol": 2, "baseline_info": {"fbin_i": np.array([0, 0, 1]), "freq_use": np.array([1, 0, 1])}}
    kw = {} if one is None else {"freq_i": one}
    plain = {k: v for k, v in _beam(np, 2, 1, 2, bool(gauss)).items()}
    for k in ("beam_ptr", "beam_gaussian_params"):
        if k in plain:
            plain[k] = psf[k].copy()
    with _opened(t, psf, single) as (whole, lazy):
        want = b.beam_image(plain, obs, pol, square=square, **kw)
        t.eq("image of the beam in memory", b.beam_image(whole, obs, pol, square=square, **kw), want)
        t.eq("image of the beam read as needed", b.beam_image(lazy, obs, pol, square=square, **kw), want)


@harness(quick=[dict(clip=False), dict(clip=True)], thorough=[], budget=60)
def per_baseline(t, clip):
    """kernels per baseline of a beam read as needed are those of the beam in memory"""
    np, v, g = t.np, t.mod(VG), t.mod(GU)
    single = t.flag("arrays of one")
    pol = t.choice("pol", [0, 1])
    size = 6
    psf = _beam(np, 2, 1, 1)
    arr = np.ones((2, size, size), dtype="complex128")
    if clip:
        arr[:, 2, 2] = 4.0
    else:
        arr[pol, 3, 3] = t.complex("k", None, 1, 4)
    ra, dec = np.zeros((size, size)), np.zeros((size, size))
    for j in range(size):
        for i in range(size):
            ra[j, i], dec[j, i] = 10.0 + 2.0 * (i - 3), -20.0 + 1.5 * (j - 3)
    psf.update(beam_mask_threshold=8.0, image_info={"image_power_beam_arr": arr, "psf_image_dim": size, "ra_arr": ra, "dec_arr": dec})
    vis = t.complex("v", (1, 2), -4, 4)
    keep, g.dirty_image_generate = g.dirty_image_generate, like(g, "dirty_image_generate", lambda plane, *a, **kw: (np.array(plane), None, None))
    try:
        with _opened(t, psf, single) as (whole, lazy):
            out = []
            for beam in (whole, lazy):
                obs = make_obs(t, [1.0], 3, 8, 8, ta=[1, 1], tb=[2, 3])
                obs.update(n_baselines=2, n_time=1, nf_vis=np.zeros(1), obsra=10.0, obsdec=-20.0)
                obs["baseline_info"]["fbin_i"] = np.array([0])
                out.append(v.visibility_grid(vis, np.ones((1, 2)), obs, beam, {"uu": np.array([0.5, -0.5]), "vv": np.array([-0.25, 0.5]), "ww": np.array([1.0, 2.0])}, pol, dict(CFG, beam_per_baseline=True, beam_clip_floor=clip), t.logger))
            for key in ("image_uv", "weights", "variance", "n_vis"):
                t.eq(key, out[1][key], out[0][key], 1e-9)
    finally:
        g.dirty_image_generate = keep


@harness(quick=[dict()], thorough=[], budget=60)
def created(t):
    """which file a beam is read from, and how one of FHD is turned and kept"""
    np, m = t.np, t.mod(BE)
    name = t.choice("file", ["beam.h5", "decomp.hdf5", "gauss_beam.sav", "a.b.sav", "beam.fits", "beam"])
    lazily = t.choice("lazily", [False, True])
    path = Path("/beams", name)
    n_bl, n_freq, n_pol = 3, 2, 2
    ptr = np.zeros((n_bl, n_freq, n_pol), dtype="complex128")
    ids = np.zeros((n_bl, n_freq, n_pol), dtype="int64")
    for b in range(n_bl):
        for f in range(n_freq):
            for p in range(n_pol):
                ptr[b, f, p] = 1.0 + b + 0.25 * f + 0.5j * p
                ids[b, f, p] = 6 * b + 2 * f + p
    ptr[0, 1, 0] = t.complex("k", None, -4, 4)
    kp, ki = ptr.copy(), ids.copy()
    rec = []

    def readsav(p, *a, **kw):
        rec.append(("readsav", str(p)))
        t.check("read as a dictionary", kw.get("python_dict", True))
        return {"psf": {"beam_ptr": [ptr], "id": [ids], "dim": [28]}, "other": 1}

    def convert(d):
        d.update({k: v[0] for k, v in d.items()})
        if d["beam_ptr"].ndim == 2:
            whole = np.zeros(tuple(d["beam_ptr"].shape) + (2, 2, 3), dtype="complex128")
            for q in range(12):
                whole[:, :, q // 6, q // 3 % 2, q % 3] = d["beam_ptr"] + q
            d["beam_ptr"] = whole
        return d

    def save(p, data, label, logger=None, to_chunk={}, variable_lengths={}):
        rec.append(("save", str(p), data, to_chunk))

    def load(p, logger=None, lazy_load=False):
        rec.append(("load", str(p), lazy_load))
        return "loaded"

    new = dict(readsav=readsav, recarray_to_dict=convert, save=save, load=load)
    old = {k: getattr(m, k) for k in new}
    for k, f in new.items():
        setattr(m, k, like(m, k, f))
    try:
        psf, ended = m.create_psf({"beam_file_path": path, "lazy_load_beam": lazily}, t.logger), False
    except SystemExit:
        psf, ended = None, True
    finally:
        for k, f in old.items():
            setattr(m, k, f)
    kind = path.suffix
    t.check("a beam which cannot be read ends the run", ended == (kind == ".fits"))
    if kind in (".h5", ".hdf5"):
        t.check("loaded the way asked for", psf == "loaded" and rec == [("load", str(path), lazily)])
    elif kind == ".sav":
        t.check("read once and kept", [r[0] for r in rec] == ["readsav", "save"] and rec[0][1] == str(path))
        _, where, data, chunk = rec[1]
        t.check("kept beside the file", where == "/beams/" + name[:-4] + ".h5" and data is psf)
        t.check("shape", tuple(psf["beam_ptr"].shape) == (n_pol, n_freq, 2, 2, 3) and tuple(psf["id"].shape) == (n_pol, n_freq, n_bl) and int(psf["dim"]) == 28)
        t.check("kept in pieces of one kernel", tuple(chunk["beam_ptr"]["shape"]) == (n_pol, n_freq, 2, 2, 3) and tuple(chunk["beam_ptr"]["chunk"]) == (1, 1, 2, 2, 3))
        for p in range(n_pol):
            for f in range(n_freq):
                for q in (0, 7):
                    t.eq("kernel of the first baseline", psf["beam_ptr"][p, f, q // 6, q // 3 % 2, q % 3], kp[0, f, p] + q)
                for b in range(n_bl):
                    t.eq("groups of the baselines", psf["id"][p, f, b], ki[b, f, p])
    else:
        t.check("nothing else is read", psf is None and not rec)
