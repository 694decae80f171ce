"""main."""
import copy
import os
import shutil
import tempfile

from pathlib import Path
from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the stages (decided by their own properties), reading and writing files are replaced by functions of what they are given; files keep what was written at that moment (S02)",
    "one visibility, weight or model value is free at a time",
]
PF = "PyFHD.pyfhd"


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    return x.copy() if hasattr(x, "copy") and not isinstance(x, (list, str)) else copy.copy(x)


class _Pipe:
    """stand-ins for the stages: functions of their inputs, no two the same"""

    def __init__(self, t, n_pol, hot, files, dirp):
        self.t, self.n_pol, self.files, self.dirp = t, n_pol, files, dirp
        self.seen, self.views, self.cubes, self.yaml, self.quit = [], [], [], [], None
        np = t.np
        self.logger = t.logger
        self.vis0 = np.zeros((n_pol, 2, 3), dtype="complex128")
        self.w0 = np.zeros((n_pol, 2, 3))
        self.m0 = np.zeros((n_pol, 2, 3), dtype="complex128")
        for p in range(n_pol):
            for f in range(2):
                for b in range(3):
                    self.vis0[p, f, b] = 1.0 + 0.5 * p - 0.25 * b + 0.5j * f
                    self.w0[p, f, b] = 1.0 - 0.125 * b + 0.25 * f + 0.5 * p
                    self.m0[p, f, b] = 0.5 + 0.25 * p + 0.75j * b
        x = (n_pol - 1, 1, 2)
        if hot == "vis":
            self.vis0[x] = t.complex("v", None, -4, 4)
        elif hot == "weight":
            self.w0[x] = t.real("w", None, -4, 4)
        else:
            self.m0[x] = t.complex("m", None, -4, 4)

    def note(self, name):
        self.seen.append(name)

    def stages(self, cfg):
        t, np = self.t, self.t.np

        def header(c, logger, *a, **kw):
            self.note("header")
            t.check("configuration of the header", c is cfg)
            return "hdr", "pdata", "ahdr", "adata"

        def params(h, d, logger, *a, **kw):
            self.note("params")
            t.check("header of the parameters", (h, d) == ("hdr", "pdata"))
            return {"uu": np.array([1.0, 2.0]), "what": "params"}

        def visibilities(h, d, c, logger, *a, **kw):
            self.note("visibilities")
            return self.vis0.copy(), self.w0.copy()

        def layout(h, d, c, logger, *a, **kw):
            self.note("layout")
            t.check("antenna table", (h, d) == ("ahdr", "adata"))
            return "layout"

        def obs(h, p, lay, c, logger, *a, **kw):
            self.note("obs")
            t.check("inputs of the observation", h == "hdr" and p["what"] == "params" and lay == "layout")
            return {"n_pol": self.n_pol, "dimension": 2, "elements": 2, "nf_vis": np.array([3, 3]), "log": ["obs"], "pol_names": ["XX", "YY", "XY", "YX"]}

        def psf(c, logger, *a, **kw):
            self.note("psf")
            return {"image_info": {"image_power_beam_arr": None}, "what": "psf"}

        def deproject(o, p, v, direction, logger, *a, **kw):
            self.note("deproject")
            t.check("direction and inputs", direction == cfg["deproject_w_term"] and p["what"] == "params")
            return v * 1j + 0.5

        def basic(w, v, o, c, logger, *a, **kw):
            self.note("basic")
            o["log"] = o["log"] + ["basic"]
            return w * 0.5 + np.real(v) * 0.25, o

        def update(w, o, p, par, *a, **kw):
            self.note("update")
            t.check("beam and parameters of the weights", p["what"] == "psf" and par["what"] == "params")
            o["log"] = o["log"] + ["update"]
            o["nf_vis"] = o["nf_vis"] + 1
            return w * 0.75 - 0.125, o

        def model(c, o, logger, *a, **kw):
            self.note("model")
            return self.m0.copy() * (1.0 if len(o["log"]) == 1 + ("basic" in o["log"]) + 1 else 3.0), {"what": "params_model"}

        def flag_model(m, p, pm, o, c, logger, *a, **kw):
            self.note("flag model")
            t.check("parameters of the model", p["what"] == "params" and pm["what"] == "params_model")
            return m * 0.5 + 1.0

        def calibrate(o, p, v, w, m, c, logger, *a, **kw):
            self.note("calibrate")
            t.check("parameters of the calibration", p["what"] == "params")
            o["log"] = o["log"] + ["calibrate"]
            return v * 2.0 + m * 0.25 + w, {"gain": np.sum(v + m * 0.5, axis=0) + np.sum(w)}, o

        def mixing(v, m, w, o, *a, **kw):
            self.note("mixing")
            return np.sum(np.real(v)) + 2.0 * np.sum(np.real(m)) + np.sum(w)

        def flag(v, w, o, p, logger, *a, **kw):
            self.note("flag")
            t.check("parameters of the flagging", p["what"] == "params")
            o["log"] = o["log"] + ["flag"]
            return w * 0.25 + np.imag(v) * 0.5, o

        def noise(o, v, w, bi_use=None, *a, **kw):
            self.note("noise")
            return np.sum(np.real(v) * 0.5 + w)

        def grid(v, w, o, p, par, pol, c, logger, uniform_flag=False, no_conjugate=False, model=None, fi_use=None, bi_use=None):
            self.note("grid %d" % int(pol))
            t.check("options of the gridding", bool(uniform_flag) == (int(pol) == 0) and bool(no_conjugate) == (int(pol) > 1) and fi_use is None and bi_use is None)
            t.check("beam and parameters of the gridding", p["what"] == "psf" and par["what"] == "params" and c is cfg)
            o["nf_vis"][0] = 40 + int(pol)
            x = v[0, :2]
            out = {"obs": o, "n_vis": 5}
            out["image_uv"] = np.array([[1.0, 2.0], [0.5, -1.0]]) * (x[0] + v[1, 2] * 3.0 + w[1, 2])
            out["weights"] = np.array([[0.5, 1.5], [1.0, -2.0]]) * (w[0, 1] + w[1, 2] + 0j)
            out["variance"] = np.array([[0.25, 1.0], [2.0, 3.0]]) * (w[1, 1] - w[1, 2])
            if uniform_flag:
                out["uniform_filter"] = np.array([[1.0, 1.0], [2.0, 3.0]]) * (w[0, 0] + w[1, 2])
            if model is not None:
                out["model_return"] = np.array([[1.0, -1.0], [0.5, 2.0]]) * (model[1, 2] + w[1, 2] * 0.5)
            return out

        def cross(x, *a, **kw):
            self.note("cross")
            return x * 1.0 + x[::-1] * 0.5

        def view(o, p, par, cal, v, w, image, weights, variance, uniform, mod, c, logger, *a, **kw):
            self.note("view")
            self.views.append(_copy(dict(obs=o, psf=p, params=par, cal=cal, vis=v, weights=w, image_uv=image, weights_uv=weights, variance_uv=variance, uniform=uniform, model_uv=mod)))

        def cubes(o, p, cal, par, v, m, w, c, logger, *a, **kw):
            self.note("cubes")
            self.cubes.append(_copy(dict(obs=o, psf=p, params=par, cal=cal, vis=v, model=m, weights=w)))

        def save(name, data, tag=None, *a, **kw):
            self.files[os.path.relpath(str(name), self.dirp)] = _copy(data) if "pyfhd_config" not in str(name) else "config"

        def load(name, *a, **kw):
            return _copy(self.files[os.path.relpath(str(name), self.dirp)])

        class Parser:
            def parse_args(self, *a):
                return "options"

        def setup(options):
            t.check("options", options == "options")
            return cfg, self.logger

        return dict(
            extract_header=header, create_params=params, extract_visibilities=visibilities, create_layout=layout, create_obs=obs, create_psf=psf, simple_deproject_w_term=deproject,
            vis_flag_basic=basic, vis_weights_update=update, vis_model_transfer=model, flag_model_visibilities=flag_model, calibrate=calibrate, calibrate_qu_mixing=mixing, vis_flag=flag,
            vis_noise_calc=noise, visibility_grid=grid, crosspol_reformat=cross, quickview=view, healpix_snapshot_cube_generate=cubes, save=save, load=load, pyfhd_parser=lambda: Parser(),
            pyfhd_setup=setup, write_collated_yaml_config=lambda *a, **kw: self.yaml.append(str(a[2]) if len(a) > 2 else ""),
        )

    def run(self, cfg):
        m = self.t.mod(PF)
        new = self.stages(cfg)
        old = {k: getattr(m, k) for k in new}
        for k, f in new.items():
            setattr(m, k, like(m, k, f))
        try:
            m.main()
        except SystemExit as e:
            self.quit = e.code
        finally:
            for k, f in old.items():
                setattr(m, k, f)

    # the run as it has to be

    def expected(self, cfg):
        np = self.t.np
        v, w = self.vis0.copy(), self.w0.copy()
        log, nf = ["obs"], 3
        if cfg["deproject_w_term"] is not None:
            v = v * 1j + 0.5
        if cfg["flag_basic"]:
            w = w * 0.5 + np.real(v) * 0.25
            log.append("basic")
        w, nf = w * 0.75 - 0.125, nf + 1
        log.append("update")
        m = self.m0.copy()
        if cfg["flag_model"]:
            m = m * 0.5 + 1.0
        cal, noise = None, None
        if cfg["calibrate_visibilities"]:
            cal = {"gain": np.sum(v + m * 0.5, axis=0) + np.sum(w)}
            v = v * 2.0 + m * 0.25 + w
            log.append("calibrate")
            if self.n_pol == 4:
                cal["stokes_mix_phase"] = np.sum(np.real(v)) + 2.0 * np.sum(np.real(m)) + np.sum(w)
            w, nf = w * 0.75 - 0.125, nf + 1
            log.append("update")
            if cfg["flag_visibilities"]:
                w = w * 0.25 + np.imag(v) * 0.5
                log.append("flag")
            noise = np.sum(np.real(v) * 0.5 + w)
        out = dict(vis=v, weights=w, model=m, cal=cal, log=log, noise=noise, nf_vis=[nf, nf])
        planes = {k: [] for k in ("image_uv", "weights_uv", "variance_uv", "model_uv")}
        for p in range(self.n_pol):
            x = w[p, 1, 2]
            planes["image_uv"].append(np.array([[1.0, 2.0], [0.5, -1.0]]) * (v[p, 0, 0] + v[p, 1, 2] * 3.0 + x))
            planes["weights_uv"].append(np.array([[0.5, 1.5], [1.0, -2.0]]) * (w[p, 0, 1] + x + 0j))
            planes["variance_uv"].append(np.array([[0.25, 1.0], [2.0, 3.0]]) * (w[p, 1, 1] - x))
            planes["model_uv"].append(np.array([[1.0, -1.0], [0.5, 2.0]]) * (m[p, 1, 2] + x * 0.5))
        if self.n_pol == 4:
            for k in ("image_uv", "weights_uv", "model_uv"):
                planes[k] = [planes[k][p] * 1.0 + planes[k][3 - p] * 0.5 for p in range(4)]
        out["planes"] = planes
        out["uniform"] = np.array([[1.0, 1.0], [2.0, 3.0]]) * (w[0, 0, 0] + w[0, 1, 2])
        return out


def _config(t, dirp, **over):
    cfg = {a.dest: a.default for a in t.mod("PyFHD.pyfhd_tools.pyfhd_setup").pyfhd_parser()._actions}
    cfg.update(output_dir=dirp, obs_id="106", description="", save_checkpoints=False, obs_checkpoint=None, calibrate_checkpoint=None, gridding_checkpoint=None, deproject_w_term=None, flag_basic=True, flag_model=True)
    cfg.update(flag_visibilities=False, calibrate_visibilities=True, cal_stop=False, recalculate_grid=True, export_images=True, snapshot_healpix_export=True, save_visibilities=True, save_weights=True)
    cfg.update(save_obs=True, save_params=True, save_cal=True, instrument="mwa", beam_file_path=Path("/none/beam.h5"))
    cfg.update(over)
    return cfg


def _check_run(t, run, cfg, want, gridded=True, cubes=True):
    """quickview and HEALPix export got the state the run has to lead to"""
    np = t.np
    grid = {"nf_vis": [40 + run.n_pol - 1, want["nf_vis"][1]]}
    t.check("images exported as asked", len(run.views) == (1 if cfg["export_images"] else 0))
    t.check("cubes exported as asked", len(run.cubes) == (1 if cfg["snapshot_healpix_export"] else 0))
    for kind, x in [("images", v) for v in run.views] + [("cubes", c) for c in run.cubes]:
        t.check("state of the " + kind, x["params"]["what"] == "params" and x["psf"]["what"] == "psf" and x["obs"]["log"] == want["log"])
        t.check("counts of the " + kind, [int(i) for i in x["obs"]["nf_vis"]] == grid["nf_vis"])
        t.eq("visibilities of the " + kind, x["vis"], want["vis"], 1e-9)
        t.eq("weights of the " + kind, x["weights"], want["weights"], 1e-9)
        t.check("calibration of the " + kind, (x["cal"] is None) == (want["cal"] is None))
        if want["cal"] is not None:
            t.check("entries of the calibration", sorted(x["cal"]) == sorted(want["cal"]))
            for k in want["cal"]:
                t.eq("calibration of the " + kind, x["cal"][k], want["cal"][k], 1e-9)
            t.eq("noise of the " + kind, x["obs"]["vis_noise"], want["noise"], 1e-9)
    for x in run.cubes:
        t.eq("model of the cubes", x["model"], want["model"], 1e-9)
    for x in run.views:
        for k, planes in want["planes"].items():
            t.check("planes", tuple(x[k].shape) == (run.n_pol, 2, 2))
            for p in range(run.n_pol):
                t.eq(k, x[k][p], planes[p], 1e-9)
        t.eq("uniform filter", x["uniform"], want["uniform"], 1e-9)
    t.check("configuration is kept", any("pyfhd_config" in k for k in run.files) and "-final" in run.yaml)


OPTIONS = [
    dict(),
    dict(flag_basic=False, flag_model=False),
    dict(deproject_w_term=0.5, flag_visibilities=True, description="name"),
    dict(calibrate_visibilities=False, save_cal=True),
    dict(flag_visibilities=True, export_images=False),
    dict(snapshot_healpix_export=False, flag_model=False, flag_visibilities=True),
]


@harness(quick=[dict(n_pol=2), dict(n_pol=4), dict(n_pol=1), dict(n_pol=3)], thorough=[dict(n_pol=2, full=True)], budget=60)
def whole(t, n_pol, full=False):
    """an uninterrupted run applies every stage once, in order, as configured"""
    hot = t.choice("hot", ["vis", "weight", "model"])
    over = t.choice("options", OPTIONS)
    keep = t.choice("saved", [(True, True), (False, True), (True, False), (False, False)])
    t.split_cases()
    files, dirp = {}, tempfile.mkdtemp(prefix="p01")
    try:
        cfg = _config(t, dirp, save_visibilities=keep[0], save_weights=keep[1], **over)
        run = _Pipe(t, n_pol, hot, files, dirp)
        want = run.expected(cfg)
        run.run(cfg)
    finally:
        shutil.rmtree(dirp)
    t.check("the run ends normally", run.quit in (None, 0))
    _check_run(t, run, cfg, want)
    raw = [k for k in files if "raw_vis" in k]
    t.check("raw data saved as asked", len([k for k in raw if "raw_vis_arr" in k]) == int(keep[0]) and len([k for k in raw if "raw_vis_weights" in k]) == int(keep[1]))
    for k in raw:
        t.eq("raw data", files[k], run.w0 if "weights" in k else run.vis0)
    t.check("no checkpoint unless asked for", not [k for k in files if "checkpoint" in k])


@harness(quick=[dict(n_pol=2), dict(n_pol=4)], thorough=[dict(n_pol=1)], budget=60)
def resume(t, n_pol):
    """a run resumed from any of its checkpoints ends as the run which wrote them"""
    hot = t.choice("hot", ["vis", "weight", "model"])
    over = t.choice("options", [o for o in OPTIONS if o.get("calibrate_visibilities", True)])
    used = t.choice("checkpoints", [("obs",), ("calibrate",), ("obs", "calibrate"), ("calibrate", "gridding"), ("obs", "gridding"), ("obs", "calibrate", "gridding"), ("gridding",)])
    t.split_cases()
    files, dirp = {}, tempfile.mkdtemp(prefix="p01")
    try:
        cfg = _config(t, dirp, save_checkpoints=True, **over)
        first = _Pipe(t, n_pol, hot, files, dirp)
        want = first.expected(cfg)
        first.run(cfg)
        _check_run(t, first, cfg, want)
        name = (over.get("description") or "106") + "_%s_checkpoint.h5"
        paths = {"obs": name % "obs", "calibrate": name % "calibration", "gridding": name % "gridding"}
        made = {k: os.path.join("checkpoints", p) for k, p in paths.items()}
        t.check("one checkpoint per step", all(p in files for p in made.values()))
        second = _Pipe(t, n_pol, hot, {made[k]: _copy(files[made[k]]) for k in used}, dirp)
        again = _config(t, dirp, **over)
        for k in used:
            again[k + "_checkpoint"] = os.path.join(dirp, made[k])
        second.run(again)
    finally:
        shutil.rmtree(dirp)
    t.check("the resumed run ends normally", second.quit in (None, 0))
    _check_run(t, second, again, want)
    if "calibrate" in used:
        t.check("nothing calibrated again", not {"header", "basic", "update", "model", "calibrate", "noise"} & set(second.seen))
    elif "obs" in used:
        t.check("nothing read again", not {"header", "visibilities", "obs"} & set(second.seen))
    if "gridding" in used:
        t.check("nothing gridded again", not [s for s in second.seen if s.startswith("grid")])


@harness(quick=[dict(n_pol=2), dict(n_pol=4)], budget=60)
def stop(t, n_pol):
    """a run which stops after the calibration saves its results and grids nothing, also from a checkpoint"""
    hot = t.choice("hot", ["vis", "weight", "model"])
    over = t.choice("options", [dict(), dict(save_obs=False, save_cal=False), dict(save_params=False, flag_visibilities=True), dict(save_weights=False), dict(save_visibilities=False)])
    again = t.choice("from", [False, True])
    t.split_cases()
    files, dirp = {}, tempfile.mkdtemp(prefix="p01")
    try:
        cfg = _config(t, dirp, cal_stop=True, save_checkpoints=True, **over)
        run = _Pipe(t, n_pol, hot, files, dirp)
        want = run.expected(cfg)
        run.run(cfg)
        if again:
            made = os.path.join("checkpoints", "106_calibration_checkpoint.h5")
            cfg = _config(t, dirp, cal_stop=True, calibrate_checkpoint=os.path.join(dirp, made), **over)
            files = {made: files[made]}
            run = _Pipe(t, n_pol, hot, files, dirp)
            run.run(cfg)
    finally:
        shutil.rmtree(dirp)
    t.check("the run stops", run.quit in (None, 0) and not run.views and not run.cubes and not [s for s in run.seen if s.startswith("grid")])
    names = {"obs": "metadata/106_obs.h5", "params": "metadata/106_params.h5", "cal": "calibration/106_cal.h5", "weights": "visibilities/106_calibrated_vis_weights.h5", "visibilities": "visibilities/106_calibrated_vis_arr.h5"}
    for k, f in names.items():
        t.check("saved as asked", (f in files) == cfg["save_" + k])
    if cfg["save_obs"]:
        t.check("saved observation", files[names["obs"]]["log"] == want["log"])
        t.eq("saved noise", files[names["obs"]]["vis_noise"], want["noise"], 1e-9)
    if cfg["save_cal"]:
        for k in want["cal"]:
            t.eq("saved calibration", files[names["cal"]][k], want["cal"][k], 1e-9)
    if cfg["save_weights"]:
        t.eq("saved weights", files[names["weights"]], want["weights"], 1e-9)
    if cfg["save_visibilities"]:
        t.eq("saved visibilities", files[names["visibilities"]], want["vis"], 1e-9)
    t.check("configuration is kept", any("pyfhd_config" in k for k in files) and "-final" in run.yaml)
