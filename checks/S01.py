"""flag_model_visibilities, vis_model_transfer and the imports of models."""
import shutil
import tempfile
from pathlib import Path

import numpy

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "data and model hold, at every time, all baselines of their tiles in the same order; model times cover those of the data with a constant offset below half an integration",
    "the data has auto-correlations of all or none of its tiles",
    "reading sav files (SciPy) and UVFITS files (O04) is replaced; one model visibility is free at a time",
]
MT = "PyFHD.source_modeling.vis_model_transfer"
JD = 2456528.25


def _baselines(tiles, autos, order):
    """the baselines of a time: autos of the given tiles among the others"""
    out = []
    if order == "autos first":
        out += [(a, a) for a in autos]
    for k, a in enumerate(tiles):
        if order == "autos within" and a in autos:
            out.append((a, a))
        for b in tiles[k + 1:]:
            out.append((a, b))
    return out


def _params(np, tiles, autos, order, times):
    bl = _baselines(tiles, autos, order)
    n = len(bl) * len(times)
    time = np.zeros(n)
    for k, x in enumerate(times):
        for j in range(len(bl)):
            time[k * len(bl) + j] = x
    return bl, {
        "antenna1": np.array([b[0] for b in bl] * len(times)),
        "antenna2": np.array([b[1] for b in bl] * len(times)),
        "time": time,
    }


CASES = [
    # tiles, flagged, times of data and model, first model time used
    dict(n=4, flagged=(), nd=2, nm=2, first=0),
    dict(n=4, flagged=(2,), nd=2, nm=3, first=1),
    dict(n=5, flagged=(1, 4), nd=2, nm=2, first=0),
    dict(n=3, flagged=(3,), nd=1, nm=3, first=1),
    dict(n=4, flagged=(1,), nd=3, nm=3, first=0),
]


@harness(quick=[dict(case=k) for k in range(len(CASES))], thorough=[dict(case=1, n_freq=2), dict(case=4, n_freq=2)], budget=60)
def match(t, case, n_freq=1):
    """each visibility of the data gets that of the model at the same baseline and time"""
    np, m = t.np, t.mod(MT)
    c = CASES[case]
    data_autos, model_autos = t.choice("autos", [(False, "none"), (True, "all"), (True, "none"), (False, "all"), (True, "some"), (False, "some")])
    order = t.choice("order", ["autos within", "autos first"]) if model_autos == "all" else "autos within"
    numbers = t.choice("numbers", ["index", "tile"])
    res = t.choice("resolution", [2.0, 8.0])
    half = {2.0: 0.96875, 8.0: 3.96875}[res]
    n_pol = 2
    tiles = list(range(1, c["n"] + 1))
    names = [11, 12, 14, 21, 1058][: c["n"]]
    used = [k for k in tiles if k not in c["flagged"]]
    label = {k: (names[k - 1] if numbers == "tile" else k) for k in tiles}
    o = t.real("offset", None, -half, half)
    # the seconds of the rounded offset
    step = res / 86400
    m_auto = {"none": [], "all": tiles, "some": tiles[1:]}[model_autos]
    mb, pm = _params(np, tiles, m_auto, order, [JD + k * step for k in range(c["nm"])])
    db, pd = _params(np, [label[k] for k in used], [label[k] for k in used] if data_autos else [], order, [JD + (k + c["first"]) * step + o / 86400 for k in range(c["nd"])])
    obs = {"n_pol": n_pol, "n_freq": n_freq, "time_res": res, "baseline_info": {"tile_names": np.array(names)}}
    vis = np.zeros((n_pol, n_freq, len(mb) * c["nm"]), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for k in range(len(mb) * c["nm"]):
                vis[p, f, k] = 1.0 + k + 0.5j * (p + 1) + 0.25j * f
    hot = (c["first"] + c["nd"] - 1) * len(mb) + t.choice("hot", [0, len(mb) - 1])
    vis[1, n_freq - 1, hot] = t.complex("v", None, -8, 8)
    cfg = {"input_path": "/data", "obs_id": "106", "model_file_path": "/model", "model_file_type": "uvfits"}
    keep = vis.copy()
    ta, tb = pd["time"].copy(), pm["time"].copy()
    got = m.flag_model_visibilities(vis, pd, pm, obs, cfg, t.logger)
    t.check("shape", tuple(got.shape) == (n_pol, n_freq, len(db) * c["nd"]))
    back = {v: k for k, v in label.items()}
    for i in range(c["nd"]):
        for j, (a, b) in enumerate(db):
            key = (back[a], back[b])
            for p in range(n_pol):
                for f in range(n_freq):
                    if a == b and model_autos != "all":
                        want = 0.0
                    else:
                        want = keep[p, f, (c["first"] + i) * len(mb) + mb.index(key)]
                    t.eq("auto-correlation" if a == b else "visibility", got[p, f, i * len(db) + j], want)
    t.eq("model untouched", vis, keep)
    t.eq("times of the data untouched", pd["time"], ta)
    t.eq("times of the model untouched", pm["time"], tb)


@harness(quick=[dict()], budget=30)
def refused(t):
    """a model of fewer tiles or times than the data is refused"""
    np, m = t.np, t.mod(MT)
    nd, nm, td, tm = t.choice("sizes", [(2, 1, 3, 3), (3, 2, 3, 3), (2, 2, 4, 3), (1, 1, 3, 2), (2, 3, 3, 3), (1, 1, 3, 3)])
    step = 2.0 / 86400
    o = t.real("offset", None, -0.96875, 0.96875)
    mb, pm = _params(np, list(range(1, tm + 1)), [], "", [JD + k * step for k in range(nm)])
    db, pd = _params(np, list(range(1, td + 1)), [], "", [JD + k * step + o / 86400 for k in range(nd)])
    obs = {"n_pol": 1, "n_freq": 1, "time_res": 2.0, "baseline_info": {"tile_names": np.array(list(range(1, max(td, tm) + 1)))}}
    vis = np.ones((1, 1, len(mb) * nm), dtype="complex128")
    cfg = {"input_path": "/data", "obs_id": "106", "model_file_path": "/model", "model_file_type": "uvfits"}
    try:
        got = m.flag_model_visibilities(vis, pd, pm, obs, cfg, t.logger)
        out = "matched"
        t.eq("visibilities", got, np.ones((1, 1, len(db) * nd)))
    except SystemExit:
        out = "refused"
    t.check("refused where it does not cover the data", (out == "refused") == (nd > nm or td > tm))


@harness(quick=[dict(n_pol=n) for n in (1, 2, 4)], budget=30)
def sav(t, n_pol):
    """a model of sav files: one of each polarisation, transposed, as arrays or behind a pointer"""
    np, m = t.np, t.mod(MT)
    packed = t.choice("packed", ["plain", "pointer"])
    missing = t.choice("missing", [None, "_params.sav"] + ["_vis_model_" + p + ".sav" for p in ("XX", "YY", "XY", "YX")[:n_pol]])
    names = ["XX", "YY", "XY", "YX", "I", "Q", "U", "V"]
    n_freq, n_bl = 2, 3
    arrays, files = {}, {}
    for p in range(n_pol):
        a = np.zeros((n_bl, n_freq), dtype="complex128")
        for j in range(n_bl):
            for f in range(n_freq):
                a[j, f] = 1.0 + j + 0.5 * f + 0.25j * p
        if p == n_pol - 1:
            a[1, 1] = t.complex("v", None, -8, 8)
        arrays[p] = a.copy()
        if packed == "pointer":
            class One:
                size = 1

                def __init__(self, x):
                    self.x = x

                def __getitem__(self, k):
                    return self.x[None][k] if not isinstance(k, int) else [self.x][k]
            a = One(a)
        files["106_vis_model_%s.sav" % names[p]] = {"vis_model_ptr": a}
    old = m.readsav, m.recarray_to_dict

    class P:
        params = "params"

    files["106_params.sav"] = P()
    if missing:
        del files["106" + missing]

    def readsav(path, *a, **kw):
        path = Path(path)
        t.check("folder of the model", str(path.parent) == "/model")
        if path.name not in files:
            raise FileNotFoundError(str(path))
        return files[path.name]

    m.readsav, m.recarray_to_dict = readsav, lambda x: {"converted": x}
    cfg = {"model_file_path": "/model", "obs_id": "106", "model_file_type": "sav"}
    try:
        got, params = m.vis_model_transfer(cfg, {"n_pol": n_pol, "pol_names": names}, t.logger)
        out = "read"
    except SystemExit:
        out = "refused"
    finally:
        m.readsav, m.recarray_to_dict = old
    t.check("read if all files are there", (out == "read") == (missing is None))
    if missing is None:
        t.check("parameters", params == {"converted": "params"})
        t.check("shape", tuple(got.shape) == (n_pol, n_freq, n_bl) and str(got.dtype) == "complex128")
        for p in range(n_pol):
            t.eq("polarisation", got[p], arrays[p].T)


@harness(quick=[dict()], budget=30)
def uvfits(t):
    """a model of a UVFITS file, of the frequencies of the data"""
    np, m = t.np, t.mod(MT)
    n_header, n_data = t.choice("frequencies", [(2, 2), (2, 3), (3, 2), (384, 384), (384, 768), (768, 384)])
    kind = t.choice("type", ["uvfits", "fits", None])
    cfg = {"model_file_path": "/model/a.uvfits", "obs_id": "106", "model_file_type": kind}
    vis = np.zeros((1, 2, 2), dtype="complex128")
    vis[0, 1, 1] = t.complex("v", None, -8, 8)
    header = {"n_freq": n_header}

    def extract_header(cfg_, logger, model_uvfits=False):
        t.check("header of the model", cfg_ is cfg and model_uvfits is True)
        return header, "rows", "antenna header", "antennas"

    def create_params(h, rows, logger):
        t.check("parameters of the model", h is header and rows == "rows")
        return "params"

    def extract_visibilities(h, rows, cfg_, logger):
        t.check("visibilities of the model", h is header and rows == "rows" and cfg_ is cfg)
        return vis, "weights"

    new = dict(extract_header=extract_header, create_params=create_params, extract_visibilities=extract_visibilities)
    old = {k: getattr(m, k) for k in new}
    for k, f in new.items():
        setattr(m, k, like(m, k, f))
    try:
        got, params = m.vis_model_transfer(cfg, {"n_freq": n_data, "n_pol": 1}, t.logger)
        out = "read"
    except SystemExit:
        out = "refused"
    finally:
        for k, f in old.items():
            setattr(m, k, f)
    t.check("read if it has the frequencies and a known type", (out == "read") == (n_header == n_data and kind == "uvfits"))
    if out == "read":
        t.check("parameters", params == "params")
        t.eq("visibilities", got, vis)
