"""quickview, get_image_renormalization, update_obs."""
import shutil
import tempfile
from pathlib import Path

import numpy

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the images of the uv planes (D03), the beam image (B01), the sky positions of the pixels (Astropy) and saving (S02) are replaced by functions of what they are given; rebinning, inverting weights, splitting the cross polarisations and updating the observation are real",
    "FITS files are recorded by a stand-in in the symbolic run; concrete replays and validation runs write and read files with Astropy",
    "whole padding factors; the beam is above its threshold at the image centre; one pixel of a plane, beam or weight is free at a time",
]
QV = "PyFHD.io.pyfhd_quickview"
RAD = 180 / numpy.pi


class _HDU:
    """a FITS image: real data of one type, a header and a copy of its own"""

    disk = None

    def __init__(self, data=None, header=None):
        self.data, self.header = data, header if header is not None else _Header()
        self._allowed(data)

    @staticmethod
    def _allowed(a):
        if "complex" in str(a.dtype) or "bool" in str(a.dtype):
            raise KeyError(str(a.dtype))

    def copy(self):
        h = _Header()
        h.update(self.header)
        return _HDU(self.data, h)

    def writeto(self, path, overwrite=False, **kw):
        self._allowed(self.data)
        if str(path) in _HDU.disk and not overwrite:
            raise OSError("File already exists")
        _HDU.disk[str(path)] = (self.data.copy(), dict(self.header))


class _Header(dict):
    def set(self, k, v=None, comment=None):
        if k.upper() == "HISTORY":
            return
        self[k.upper()] = v

    def __setitem__(self, k, v):
        dict.__setitem__(self, k.upper(), v[0] if isinstance(v, tuple) else v)


class _Fits:
    PrimaryHDU, Header = _HDU, _Header


def _obs(np, n_pol, dim, names):
    kpix = 0.75
    return {
        "n_pol": n_pol, "n_freq": 4, "dimension": dim, "elements": dim, "obsx": dim / 2, "obsy": dim / 2, "kpix": kpix, "degpix": RAD / (kpix * dim),
        "freq_res": 80000.0, "min_baseline": 0.5, "max_baseline": dim * kpix, "pol_names": list(names), "n_vis": 24, "residual": False,
        "astr": {
            "naxis": np.array([dim, dim]), "cdelt": np.array([RAD / (kpix * dim)] * 2), "crpix": np.array([dim / 2 + 1] * 2), "crval": np.array([30.5, -26.75]),
            "cd": np.array([[1.0, 0.25], [-0.5, 2.0]]), "ctype": ["RA---SIN", "DEC--SIN"], "equinox": 2000.0, "pv1": np.array([0.0, 0.0, 90.0, 180.0, 90.0]), "pv2": np.array([0.125, 0.375]),
            "mjdobs": 56528.5, "dateobs": "2013-08-23T00:00:00", "radecsys": "ICRS",
        },
        "baseline_info": {"freq": np.array([180e6 + 80000.0 * k for k in range(4)]), "fbin_i": np.array([0, 0, 1, 1]), "freq_use": np.ones(4, dtype=int)},
    }


@harness(
    quick=[dict(n_pol=2, pad=1), dict(n_pol=1, pad=1), dict(n_pol=4, pad=1), dict(n_pol=2, pad=2), dict(n_pol=4, pad=2)],
    thorough=[dict(n_pol=4, pad=3), dict(n_pol=1, pad=2)],
    budget=60,
)
def images(t, n_pol, pad):
    """FITS files of the dirty, model and residual images, the beam and the weights of every polarisation"""
    np, m = t.np, t.mod(QV)
    dim = 4
    big = dim * pad
    hot = t.choice("hot", ["dirty", "model", "beam", "centre", "weight", "beam centre"])
    dark = t.choice("dark", [[], [(0, 0), (1, big - 1)]])
    t.split_cases()
    names = ["XX", "YY", "XY", "YX"]
    obs = _obs(np, n_pol, dim, names[:n_pol] if n_pol > 1 else names)
    hp = n_pol - 1

    def plane(k, cplx=True, n=dim):
        a = np.zeros((n, n), dtype="complex128" if cplx else "float64")
        for j in range(n):
            for i in range(n):
                v = 0.5 + 0.25 * ((3 * j + 5 * i + 7 * k) % 13) - 0.125 * (k % 4)
                a[j, i] = v + (0.25j * ((j + 2 * i + k) % 5) - 0.5j if cplx else 0)
        return a

    def stack(k):
        a = np.zeros((n_pol, dim, dim), dtype="complex128")
        for p in range(n_pol):
            a[p] = plane(k + 31 * p)
        return a

    image_uv, model_uv, weights_uv = stack(1), stack(5), stack(9)
    variance_uv, uniform = plane(3), plane(2, False)
    if hot == "weight":
        q = min(hp, 2)
        weights_uv[q, 1, 2] = t.real("w", None, 0.25, 4) * (0.75 + 1j) if q == 0 or n_pol < 4 else t.complex("w", None, -4, 4)
    vis = np.ones((n_pol, 4, 3), dtype="complex128")
    vw = np.ones((n_pol, 4, 3))
    # the images the stand-in makes of the planes, in the size of the padded observation
    cross = lambda p: p > 1
    img = {}
    for p in range(n_pol):
        for kind, k in (("dirty", 13), ("model", 17)):
            img[kind, p] = plane(k + 3 * p, cross(p), big)
        w = plane(19 + 3 * p, False, big)
        w[big // 2, big // 2] = 0.5 + p
        img["weights", p] = w
    if hot in ("dirty", "model"):
        p = min(hp, 2)
        img[hot, p][1, 2] = t.complex("x", None, -8, 8) if cross(p) else t.real("x", None, -8, 8)
    if hot == "centre":
        c = t.real("c", None, -4, 4)
        t.assume(t.Or(c > 0.25, c < -0.25))
        img["weights", hp][big // 2, big // 2] = c
    beams = []
    for p in range(n_pol):
        b = np.zeros((dim, dim))
        for j in range(dim):
            for i in range(dim):
                b[j, i] = [1.0, 0.75, 0.5, 0.25][(abs(j - dim // 2) + abs(i - dim // 2) + (p if (j, i) != (2, 2) else 0)) % 4] + 0.0625 * p
        beams.append(b)
    beams[0][0, 1] = 0.0
    if hot == "beam":
        beams[hp][1, 1] = t.real("b", None, -1, 1)
        # within this the inverse is cut
        t.near(beams[hp][1, 1], 1e-3, 1e-4)
        t.near(beams[hp][1, 1], -1e-3, 1e-4)
    if hot == "beam centre":
        beams[hp][dim // 2, dim // 2] = t.real("b0", None, 0.5, 2)
    keep = {"obs": {k: v.copy() if hasattr(v, "copy") else v for k, v in obs.items()}, "astr": {k: v.copy() if hasattr(v, "copy") else v for k, v in obs["astr"].items()}}
    keep["fbin"] = obs["baseline_info"]["fbin_i"].copy()
    k_w = weights_uv.copy()
    ks = [image_uv.copy(), model_uv.copy(), vis.copy(), vw.copy()]
    dirp = Path(tempfile.mkdtemp(prefix="q01"))
    cfg = {k: False for k in ("save_obs", "save_params", "save_visibilities", "save_weights", "save_cal", "recalculate_grid", "calibrate_visibilities")}
    cfg.update(output_dir=dirp, obs_id="1061316296", pad_uv_image=pad, image_filter="filter_uv_uniform")
    filters = {p: plane(23 + p, False) for p in range(n_pol)}
    kpix, deg = 0.75, RAD / (0.75 * big)
    calls = []

    def dirty_image_generate(plane_, cfg_, logger, uniform_filter_uv=None, mask=None, baseline_threshold=0, normalization=None, resize=None, width_smooth=None, degpix=None, not_real=False, pad_uv_image=None, weights=None, filter=None, beam_ptr=None):
        t.check("plain image asked for", mask is None and normalization is None and resize is None and width_smooth is None and cfg_ is cfg)
        t.eq("pixel of the images", degpix, deg, 1e-9)
        t.check("padding of the images", pad_uv_image == pad)
        n = len(calls)
        if n < 2 * n_pol:
            p, kind = n // 2, ("dirty", "model")[n % 2]
            t.eq("plane of the " + kind + " image", plane_, (ks[0] if kind == "dirty" else ks[1])[p])
            t.eq("weights of the image", weights, k_w[p])
            t.check("complex image of cross polarisations only", bool(not_real) == cross(p))
            t.check("uniform filter of the image", uniform_filter_uv is uniform)
            if kind == "dirty":
                t.check("filter to be made", filter is not None and filter.size != dim * dim)
            else:
                t.eq("filter of the dirty image", filter, filters[p])
        else:
            p, kind = n - 2 * n_pol, "weights"
            t.eq("weights to image", plane_, k_w[p])
            t.eq("filter of the weights", filter, filters[p])
            t.check("image of the weights is real", not not_real)
        t.eq("beam of the image", beam_ptr, want_beam[p], 1e-9)
        calls.append((p, kind))
        return img[kind, p].copy(), filters[p].copy(), None

    def beam_image(psf, obs_, pol, freq_i=None, square=False, **kw):
        t.check("beam of the observation as it is", psf == "psf" and obs_["dimension"] == dim and not square and freq_i is None)
        return beams[int(pol)].copy()

    def pixel_to_radec(x, y, astr):
        t.check("pixels of the padded image", tuple(x.shape) == (big, big) and [int(v) for v in astr["naxis"]] == [big, big])
        t.eq("pixel size of the padded image", astr["cdelt"], np.array([deg, deg]), 1e-9)
        t.eq("columns", x, np.array([[i for i in range(big)] for j in range(big)]))
        t.eq("rows", y, np.array([[j for i in range(big)] for j in range(big)]))
        ra = np.zeros((big, big))
        for j, i in dark:
            ra[j, i] = float("nan")
        return ra, ra.copy()

    saved = {}

    def save(name, data, tag=None, *a, **kw):
        t.check("folder of the file", Path(name).parent.is_dir())
        saved[str(Path(name).relative_to(dirp))] = dict(data) if isinstance(data, dict) else data if isinstance(data, str) else data.copy()

    if dark:
        # a run before this one used the same folder
        for f in ("metadata", "visibilities", "fits", "gridding", "calibration"):
            (dirp / f).mkdir()
        if not t.sym:
            (dirp / "fits" / "1061316296_beam_XX.fits").write_text("old")
            (dirp / "fits" / "1061316296_uniform_dirty_XX.fits").write_text("old")
            (dirp / "fits" / "1061316296_uv_weights_XX.fits").write_text("old")
    flags = ("save_obs", "save_params", "save_visibilities", "save_weights", "save_cal", "recalculate_grid", "calibrate_visibilities")
    for k in t.choice("options", [(), flags] + [(f,) for f in flags] + [("save_visibilities", "recalculate_grid"), ("save_cal", "calibrate_visibilities")]) if n_pol == 1 or hot == "dirty" else ():
        cfg[k] = True
    new = dict(dirty_image_generate=dirty_image_generate, beam_image=beam_image, pixel_to_radec=pixel_to_radec, save=save)
    if t.sym:
        new["fits"] = _Fits
        _HDU.disk = {str(dirp / "fits" / ("1061316296_" + f + "_XX.fits")): None for f in ("beam", "uniform_dirty", "uniform_model", "uniform_residual", "uv_weights")} if dark else {}
    # spec: the beam on the padded grid, of which pixels below the horizon are none
    want_beam = []
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    for p in range(n_pol):
        b = (u.rebin(beams[p], [big, big]) if pad > 1 else beams[p]).copy()
        for j, i in dark:
            b[j, i] = 0
        want_beam.append(b)
    old = {k: getattr(m, k) for k in new}
    for k, f in new.items():
        setattr(m, k, like(m, k, f))
    try:
        m.quickview(obs, "psf", "params", "cal", vis, vw, image_uv, weights_uv, variance_uv, uniform, model_uv, cfg, t.logger)
        if t.sym:
            files = {str(Path(k).relative_to(dirp)): v for k, v in _HDU.disk.items()}
        else:
            from astropy.io import fits

            files = {}
            for f in dirp.rglob("*.fits"):
                with fits.open(f) as h:
                    files[str(f.relative_to(dirp))] = (numpy.array(h[0].data, dtype="float64"), dict(h[0].header))
    finally:
        for k, f in old.items():
            setattr(m, k, f)
        shutil.rmtree(dirp)
    t.check("images made", len(calls) == 3 * n_pol)
    expect = {}
    if cfg["save_obs"]:
        expect["metadata/1061316296_obs.h5"] = "obs"
    if cfg["save_params"]:
        expect["metadata/1061316296_params.h5"] = "params"
    if cfg["save_visibilities"]:
        expect["visibilities/1061316296_calibrated_vis_arr.h5"] = ks[2]
        if cfg["recalculate_grid"]:
            for name, a in (("image_uv", ks[0]), ("weights_uv", k_w), ("variance_uv", variance_uv), ("uniform_filter_uv", uniform), ("model_uv", ks[1])):
                expect["gridding/1061316296_" + name + ".h5"] = a
    if cfg["save_cal"] and cfg["calibrate_visibilities"]:
        expect["calibration/1061316296_cal.h5"] = "cal"
    if cfg["save_weights"]:
        expect["visibilities/1061316296_calibrated_vis_weights.h5"] = ks[3]
    t.check("saved files", sorted(saved) == sorted(expect))
    for k, a in expect.items():
        if isinstance(a, str):
            t.check("what is saved", saved[k]["dimension"] == dim and saved[k]["pol_names"] == obs["pol_names"] if a == "obs" else saved[k] == a)
        else:
            t.eq("saved array", saved[k], a)
    out = names[:n_pol] if n_pol < 4 else ["XX", "YY", "XY_real", "XY_imag"]
    want = {"fits/1061316296_" + f + "_" + n + ".fits" for n in out for f in ("uniform_dirty", "uniform_model", "uniform_residual", "beam", "uv_weights")}
    t.check("files of the images", set(files) == want)
    renorm = []
    for p in range(n_pol):
        b = want_beam[p][big // 2, big // 2]
        renorm.append(b * b / img["weights", p][big // 2, big // 2] / numpy.radians(deg) ** 2)
    for p in range(n_pol):
        def image(kind):
            if p < 2:
                return img[kind, p] * renorm[p]
            a = img[kind, 2] * renorm[2]
            return a.real if p == 2 else a.imag

        inv = np.zeros((big, big))
        for j in range(big):
            for i in range(big):
                b = want_beam[p][j, i]
                low = bool(t.And(b < 1e-3)) if not isinstance(b, (int, float)) else b < 1e-3
                inv[j, i] = 0.0 if low else 1 / b
        get = lambda f: files["fits/1061316296_" + f + "_" + out[p] + ".fits"]
        d, mo = image("dirty"), image("model")
        for f, a in (("uniform_dirty", d), ("uniform_model", mo), ("uniform_residual", d - mo)):
            got, head = get(f)
            t.eq(f, got, a * inv, 1e-8)
            t.check("unit of the image", head["BUNIT"] == "Jy/sr (apparent)")
        got, head = get("beam")
        t.eq("beam", got, want_beam[p], 1e-9)
        t.check("beam has no unit", "BUNIT" not in head)
        for f in ("beam", "uniform_dirty", "uniform_residual"):
            head = get(f)[1]
            t.check("reference pixel", head["CRPIX1"] == big // 2 + 1 and head["CRPIX2"] == big // 2 + 1)
            t.check("reference position", head["CRVAL1"] == 30.5 and head["CRVAL2"] == -26.75 and head["EQUINOX"] == 2000.0 and head["MJD-OBS"] == 56528.5 and head["DATE-OBS"] == "2013-08-23T00:00:00")
            t.check("projection", head["CTYPE1"] == "RA---SIN" and head["CTYPE2"] == "DEC--SIN" and head["PV2_1"] == 0.125 and head["PV2_2"] == 0.375 and head["PV1_3"] == 180.0)
            for key, v in (("CD1_1", 1.0), ("CD1_2", 0.25), ("CD2_1", -0.5), ("CD2_2", 2.0)):
                t.eq("matrix of the pixels", head[key], v * deg, 1e-9)
        got, head = get("uv_weights")
        q = weight_of = k_w[p] if p < 2 or n_pol < 4 else (k_w[2].real if p == 2 else k_w[2].imag)
        t.eq("weights", got, np.abs(weight_of) * 24, 1e-9)
        t.check("uv pixels", head["CD1_1"] == kpix and head["CD2_2"] == kpix and head["CD1_2"] == 0 and head["CRPIX1"] == big / 2 + 1 and head["CRVAL1"] == 0)
    # what later stages use is as it was
    t.check("observation untouched", obs["dimension"] == dim and obs["elements"] == dim and obs["pol_names"] == (names[:n_pol] if n_pol > 1 else names) and obs["obsx"] == dim / 2)
    t.eq("pixel of the observation untouched", obs["degpix"], keep["obs"]["degpix"])
    for k in ("cd", "cdelt", "crpix", "naxis"):
        t.eq(k + " untouched", obs["astr"][k], keep["astr"][k])
    t.eq("bins untouched", obs["baseline_info"]["fbin_i"], keep["fbin"])
    for label, a, b in zip(("image plane", "model plane", "visibilities", "weights"), (image_uv, model_uv, vis, vw), ks):
        t.eq(label + " untouched", a, b)
