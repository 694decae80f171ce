"""pyfhd_setup."""
import argparse
import logging
import os
import shutil
import tempfile
from pathlib import Path

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the logger and the written copy of the configuration are replaced; files are real, in a scratch directory",
    "up to two options beside the defaults are set at a time, each of its flags either way and its numbers any in range",
    "the choice between the modes of the reflection fit and allow_sidelobe_model_sources are not checked",
]
ST = "PyFHD.pyfhd_tools.pyfhd_setup"
FILES = ("cal_bp_transfer", "diffuse_calibrate", "calibration_catalog_file_path", "transfer_calibration", "transfer_model_uv", "transfer_weights", "diffuse_model", "model_catalog_file_path", "in_situ_sim_input", "eor_vis_filepath", "sim_noise", "IDL_variables_file", "healpix_inds", "model_file_path")


def _defaults(m):
    return {a.dest: a.default for a in m.pyfhd_parser()._actions if a.dest not in ("help", "version")}


def _run(t, m, dirp, cfg):
    """the configuration of the run or None where it is refused"""
    written = []

    def logger(config):
        config["log_name"] = "log"
        return t.logger, dirp / "out"

    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    old = m.pyfhd_logger, m.write_collated_yaml_config
    m.pyfhd_logger, m.write_collated_yaml_config = like(m, "pyfhd_logger", logger), like(m, "write_collated_yaml_config", lambda c, path, *a: written.append((c, str(path))))
    try:
        config, _ = m.pyfhd_setup(argparse.Namespace(**cfg))
        t.check("the configuration is written once it is complete", len(written) == 1 and written[0][0] is config and written[0][1] == str(dirp / "out" / "config") and (dirp / "out" / "config").is_dir())
        return config
    except SystemExit:
        t.check("no configuration of a refused run", not written)
        return None
    finally:
        m.pyfhd_logger, m.write_collated_yaml_config = old
        logging.disable(level)


# options which say nothing about the files of others
BESIDE = [
    {},
    {"obs_checkpoint": "x"},
    {"gridding_checkpoint": "x"},
    {"calibrate_visibilities": False},
    {"snapshot_healpix_export": False, "export_images": False},
    {"save_checkpoints": True, "recalculate_all": False},
    {"instrument": "hera", "description": "a run"},
]


def _beside(t, cfg, dirp):
    """others among the options, of no meaning to what is tested"""
    for k, v in t.choice("beside", BESIDE).items():
        cfg[k] = dirp / "in" / "106.uvfits" if v == "x" else v


def _folder(files=("106.uvfits", "106.metafits")):
    dirp = Path(tempfile.mkdtemp(prefix="s03"))
    (dirp / "in").mkdir()
    (dirp / "out").mkdir()
    (dirp / "model").mkdir()
    for f in files:
        (dirp / "in" / f).write_text("")
    return dirp


def _base(t, m, dirp):
    cfg = _defaults(m)
    cfg.update(obs_id="106", input_path=dirp / "in", model_file_path=dirp / "in" / "106.uvfits", model_file_type="uvfits", output_path=str(dirp / "out"))
    return cfg


def _same(t, got, cfg, changed):
    """options are as given but for those which are to change"""
    extra = {"output_dir", "top_level_dir", "log_name", "ring_radius", "grid_psf_file_sav", "grid_psf_file_npz"}
    t.check("options of the run", set(cfg) <= set(got) and set(got) - set(cfg) <= extra)
    for k, v in cfg.items():
        if k in changed:
            want = changed[k]
        elif isinstance(v, Path) and k in FILES:
            want = Path(os.path.abspath(v))
        elif k == "cal_base_gain" and v is None:
            want = 0.75
        else:
            want = v
        if want is None or isinstance(want, (str, Path, list)):
            t.check("option " + k, got[k] == want)
        else:
            t.eq("option " + k, got[k], want)


OPTIONS = [
    ("recalculate_all", "recalculate_beam", "recalculate_grid"),
    ("recalculate_all", "recalculate_mapfn"),
    ("snapshot_healpix_export", "save_visibilities"),
    ("beam_per_baseline", "interpolate_kernel", "recalculate_all"),
    ("cal_reflection_hyperresolve", "cal_reflection_mode_file"),
    ("calibrate_visibilities", "flag_model", "cal_stop"),
    ("save_obs", "save_cal", "export_images"),
    ("restrict_healpix_inds", "split_ps_export"),
    ("calibration_polyfit", "cal_reflection_mode_delay"),
    ("filter_background", "run_simulation"),
]


@harness(quick=[dict(part=0), dict(part=1)], thorough=[dict(part=None)], budget=60)
def options(t, part):
    """options which depend on others follow them, all others stay"""
    m = t.mod(ST)
    flags = t.choice("flags", OPTIONS if part is None else OPTIONS[part::2])
    number = t.choice("number", [None, "beam_offset_time", "cal_base_gain", "pad_uv_image", "ring_radius_multi", "smooth_width"])
    dirp = _folder()
    cfg = _base(t, m, dirp)
    for k in flags:
        cfg[k] = t.flag(k)
    if number == "beam_offset_time":
        cfg[number] = t.real("x", None, -64, 64)
        t.near(cfg[number], 0, 1e-6)
    elif number == "cal_base_gain":
        cfg[number] = t.real("x", None, 0, 64)
        t.near(cfg[number], 0, 1e-6)
    elif number is not None:
        cfg[number] = t.real("x", None, 0.0625, 64)
    keep = dict(cfg)
    changed = {}
    if "recalculate_all" in flags:
        for k in ("recalculate_beam", "recalculate_grid", "recalculate_mapfn"):
            if bool(cfg["recalculate_all"]):
                changed[k] = True
                if k not in cfg:
                    keep[k] = True
            elif k not in cfg:
                changed[k] = cfg.get(k)
    if "snapshot_healpix_export" in flags and bool(cfg["snapshot_healpix_export"]):
        changed["save_visibilities"] = True
    if flags[0] == "beam_per_baseline" and bool(cfg["beam_per_baseline"]):
        changed["interpolate_kernel"] = False
    if flags[0] == "cal_reflection_hyperresolve" and bool(cfg["cal_reflection_mode_file"]):
        changed["cal_reflection_hyperresolve"] = False
    if number == "beam_offset_time" and bool(cfg[number] < 0):
        changed[number] = 0
    changed = {k: v for k, v in changed.items() if k in keep}
    try:
        got = _run(t, m, dirp, dict(cfg))
    finally:
        shutil.rmtree(dirp)
    t.check("the run starts", got is not None)
    if got is not None:
        _same(t, got, keep, changed)
        t.eq("radius of the ring", got["ring_radius"], keep["pad_uv_image"] * keep["ring_radius_multi"])
        t.check("folder of the run", got["output_dir"] == dirp / "out" and got["top_level_dir"] == "out")


@harness(quick=[dict()], budget=120)
def missing(t):
    """a file which is asked for has to be there"""
    m = t.mod(ST)
    key = t.choice("option", list(FILES) + ["grid_psf_file"])
    where = t.choice("where", ["there", "missing", "relative", "folder"])
    restrict = t.choice("restrict", [True, False]) if key == "healpix_inds" else False
    run = t.flag("run_simulation")
    dirp = _folder()
    here = os.getcwd()
    cfg = _base(t, m, dirp)
    suffix = t.choice("suffix", [".sav", ".npz", ".txt"]) if key == "grid_psf_file" else ".h5"
    if where in ("there", "relative"):
        (dirp / "model" / ("a" + suffix)).write_text("")
    if where == "folder":
        (dirp / "model" / ("a" + suffix)).mkdir()
    path = dirp / "model" / ("a" + suffix)
    try:
        os.chdir(dirp)
        value = Path("model/a" + suffix) if where == "relative" else path
        _beside(t, cfg, dirp)
        cfg["restrict_healpix_inds"] = restrict
        cfg["run_simulation"] = run
        cfg[key] = [str(value)] if key == "grid_psf_file" else value
        keep = dict(cfg)
        refused = where == "missing" and (key != "healpix_inds" or restrict)
        if key in ("in_situ_sim_input", "eor_vis_filepath", "sim_noise") and not bool(run):
            refused = True
        if key == "grid_psf_file" and suffix == ".txt":
            refused = True
        got = _run(t, m, dirp, dict(cfg))
        full = Path(os.path.abspath(value))
    finally:
        os.chdir(here)
        shutil.rmtree(dirp)
    t.check("refused if the file is missing", (got is None) == refused)
    if got is not None:
        if key == "grid_psf_file":
            t.check("file of the kernels", got["grid_psf_file_" + suffix[1:]] == full)
            _same(t, got, keep, {"grid_psf_file_" + suffix[1:]: full})
        else:
            _same(t, got, keep, {key: value if key == "healpix_inds" and not restrict else full})


@harness(quick=[dict()], budget=60)
def observation(t):
    """the observation has to be there"""
    m = t.mod(ST)
    files = t.choice("files", [("106.uvfits", "106.metafits"), ("106.uvfits",), ("106.metafits",), (), ("106.uvfits", "1061.metafits"), ("1061.uvfits", "106.metafits")])
    there = t.choice("folder", [True, False])
    enhance = t.real("enhance", None, 0, 4)
    eor = t.choice("eor", [True, False])
    t.near(enhance, 1, 1e-6)
    dirp = _folder(files)
    (dirp / "model" / "m").write_text("")
    cfg = _base(t, m, dirp)
    cfg["model_file_path"] = dirp / "model" / "m"
    cfg["run_simulation"] = True
    cfg["enhance_eor"] = enhance
    _beside(t, cfg, dirp)
    if eor:
        cfg["eor_vis_filepath"] = dirp / "model" / "m"
    if not there:
        cfg["input_path"] = dirp / "none"
    refused = not there or files != ("106.uvfits", "106.metafits")
    if bool(enhance > 1) and not eor:
        refused = True
    try:
        got = _run(t, m, dirp, dict(cfg))
    finally:
        shutil.rmtree(dirp)
    t.check("refused if the observation is missing or nothing is enhanced", (got is None) == refused)


@harness(quick=[dict()], budget=120)
def sav(t):
    """a model of sav files has to be complete unless the calibration is resumed"""
    m = t.mod(ST)
    n_pol = t.choice("n_pol", [0, 2, 4])
    have = t.choice("files", [("_params", "_vis_model_XX", "_vis_model_YY"), ("_params", "_vis_model_XX", "_vis_model_YY", "_vis_model_XY", "_vis_model_YX"), ("_params", "_vis_model_XX"), ("_vis_model_XX", "_vis_model_YY", "_vis_model_XY", "_vis_model_YX"), (), ("_params", "_vis_model_XX", "_vis_model_YY", "_vis_model_XY")])
    kind = t.choice("type", ["sav", "uvfits"])
    resumed = t.flag("resumed")
    stop = t.flag("stop")
    dirp = _folder()
    for f in have:
        (dirp / "model" / ("106" + f + ".sav")).write_text("")
    for f in ("107_params.sav", "106_params.txt"):
        (dirp / "model" / f).write_text("")
    cfg = _base(t, m, dirp)
    cfg.update(model_file_path=dirp / "model", model_file_type=kind, n_pol=n_pol, cal_stop=stop)
    _beside(t, cfg, dirp)
    keep = dict(cfg)
    if bool(resumed):
        keep["calibrate_checkpoint"] = dirp / "model" / "106_params.txt"
        cfg["calibrate_checkpoint"] = dirp / "model" / "106_params.txt"
    refused = kind == "sav" and not bool(resumed) and ("_params" not in have or len(have) < max(n_pol, 2) + 1)
    try:
        got = _run(t, m, dirp, dict(cfg))
    finally:
        shutil.rmtree(dirp)
    t.check("refused if the model is not complete", (got is None) == refused)
    if got is not None:
        _same(t, got, keep, {})
