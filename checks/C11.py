"""calibrate."""
from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the steps of the calibration (each decided by its own property) are replaced by functions of what they are given which change the gains in place as the real ones do; the resistant mean is M02's",
]
CA = "PyFHD.calibration.calibrate"
CU = "PyFHD.calibration.calibration_utils"
CS = "PyFHD.calibration.vis_calibrate_subroutine"
UT = "PyFHD.pyfhd_tools.pyfhd_utils"


class _Steps:
    """stand-ins for the steps, seen by the module itself and where they come from"""

    def __init__(self, t, base, cut, mean=True):
        self.t, self.base, self.cut, self.seen = t, base, cut, []
        np = t.np

        def autos(obs, vis, cfg, *a, **kw):
            self.seen.append("autos")
            return np.real(vis[: min(obs["n_pol"], 2), :, :2]).copy() + 4.0, np.array([0, 2])

        def init(obs, cal, vis, model, va, vm, ti, *a, **kw):
            self.seen.append("init")
            return self.start(cal["n_pol"], vis, model, va, vm)

        def solve(vis, model, w, obs, cal, params, cfg, logger, *a, **kw):
            self.seen.append("solve")
            cal["gain"] = self.solved(cal["gain"], vis, model, w, params)
            cal["n_vis_cal"] = 7
            return cal

        def flag(obs, cal, cfg, logger, *a, **kw):
            self.seen.append("flag")
            assert cal["n_vis_cal"] == 7
            obs["baseline_info"]["freq_use"][self.cut] = 0
            return obs

        def divide(obs, cal, va, ti, *a, **kw):
            self.seen.append("divide")
            r = 1.5 + va[:, :, :1] * 0 + np.ones(cal["gain"].shape)
            r[:, :, 2] = va[:, :, 1]
            for p in range(cal["n_pol"]):
                cal["gain"][p] = cal["gain"][p] / r[p]
            return cal, r

        def band(obs, cal, cfg, logger, *a, **kw):
            self.seen.append("band")
            b = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in cal.items()}
            r = dict(b)
            b["gain"] = self.band(cal["gain"], obs)
            r["gain"] = self.rest(cal["gain"], obs)
            return b, r

        def poly(obs, cal, ratio, cfg, logger, *a, **kw):
            self.seen.append("poly")
            for p in range(cal["n_pol"]):
                cal["gain"][p] = self.poly(cal["gain"][p], None if ratio is None else ratio[p], obs)
            cal["amp_params"], cal["phase_params"] = "amp", "phase"
            return cal

        def mult(cal, ratio, ti, *a, **kw):
            self.seen.append("mult")
            for p in range(cal["n_pol"]):
                for i in (int(ti[0]), int(ti[1])):
                    cal["gain"][p, :, i] = cal["gain"][p, :, i] * ratio[p, :, i]
            return cal

        def autofit(obs, cal, va, vm, ti, *a, **kw):
            self.seen.append("autofit")
            for p in range(cal["n_pol"]):
                cal["gain"][p] = self.auto(cal["gain"][p], va[p], vm[p])
            cal["auto_params"] = "auto"
            return cal

        def apply(vis, obs, cal, model, w, logger, *a, **kw):
            self.seen.append("apply")
            return self.applied(vis, cal["gain"], model, w), cal

        def hist(obs, params, vis, model, *a, **kw):
            self.seen.append("hist")
            return {"h": vis + 3 * model, "p": params["p"]}

        def rmean(a, dev, *x, **kw):
            a = a.ravel()
            return sum((a[i] for i in range(len(a))), 0.0) / len(a) * 1.25 * (dev - 1)

        self.new = {
            CU: dict(vis_extract_autocorr=autos, vis_cal_auto_init=init, vis_calibration_flag=flag, vis_cal_bandpass=band, vis_cal_polyfit=poly, vis_cal_auto_fit=autofit, vis_calibration_apply=apply, vis_baseline_hist=hist, cal_auto_ratio_divide=divide, cal_auto_ratio_remultiply=mult),
            CS: dict(vis_calibrate_subroutine=solve),
            UT: dict(resistant_mean=rmean) if mean else {},
        }

    def start(self, n_pol, vis, model, va, vm):
        return vis[:n_pol, :, :3] * 0.25 + model[:n_pol, :, :3] * 0.5 + va[:, :, :1] - 2 * vm[:, :, :1]

    def solved(self, g, vis, model, w, params):
        if self.base is not None:
            return g * 0 + self.base[: g.shape[0]]
        n = g.shape[0]
        return g * 2 + vis[:n, :, :3] + 1j * model[:n, :, :3] + w[:n, :, :3] * params["p"]

    def band(self, g, obs):
        return g * 0.5 + 3j + obs["baseline_info"]["freq_use"][:, None]

    def rest(self, g, obs):
        return g * 0.25 + 2

    def poly(self, g, ratio, obs):
        return g * 1j + (0 if ratio is None else ratio) + obs["baseline_info"]["freq_use"][:, None]

    def auto(self, g, va, vm):
        return g * 0.5 + va[:, :1] + 3 * vm[:, 1:2]

    def applied(self, vis, g, model, w):
        return vis * g[0, 0, 0] + model + w

    def __enter__(self):
        self.keep = []
        ms = [(self.t.mod(CA), sum([list(d.items()) for d in self.new.values()], []))]
        ms += [(self.t.mod(m), list(d.items())) for m, d in self.new.items()]
        for m, items in ms:
            for k, v in items:
                if hasattr(m, k):
                    self.keep.append((m, k, getattr(m, k)))
                    setattr(m, k, like(m, k, v))
        return self

    def __exit__(self, *a):
        for m, k, v in self.keep:
            setattr(m, k, v)


def _inputs(t, n_pol, n_freq, hot):
    np = t.np
    n_bl = 4
    arr = []
    for k in range(3):
        a = np.zeros((n_pol, n_freq, n_bl), dtype="complex128" if k < 2 else "float64")
        for p in range(n_pol):
            for f in range(n_freq):
                for b in range(n_bl):
                    x = 1.0 + 0.5 * ((5 * p + 3 * f + 2 * b + 7 * k) % 11)
                    a[p, f, b] = x + (0.5 * ((p + 2 * f + b + k) % 7) - 1) * 1j if k < 2 else x
        arr.append(a)
    vis, model, w = arr
    if hot is not None:
        which, p, f, b = hot
        arr[which][p, f, b] = t.complex("v", None, -4, 4) if which < 2 else t.real("v", None, -4, 4)
    return vis, model, w


def _obs(t, n_pol, freq_use, tile_use):
    return {
        "n_pol": n_pol,
        "n_freq": len(freq_use),
        "n_tile": len(tile_use),
        "baseline_info": {
            "freq_use": t.np.array(freq_use),
            "tile_use": t.np.array(tile_use),
            "tile_names": ["Tile011", "Tile012", "Tile013"],
        },
    }


def _cfg(**kw):
    c = {
        "cal_convergence_threshold": 1e-7,
        "calibration_auto_initialize": False,
        "cal_gain_init": 1.0,
        "flag_calibration": False,
        "bandpass_calibrate": False,
        "auto_ratio_calibration": False,
        "calibration_polyfit": False,
        "calibration_auto_fit": False,
        "calibration_plots": False,
    }
    c.update(kw)
    return c


@harness(
    quick=[dict(n_pol=2, auto=False), dict(n_pol=4, auto=True), dict(n_pol=1, auto=True)],
    thorough=[dict(n_pol=4, auto=False), dict(n_pol=2, auto=True)],
    budget=40,
)
def steps(t, n_pol, auto):
    """which steps run on what, under every combination of the options: one datum, model value or weight and the initial gain free"""
    np, c = t.np, t.mod(CA)
    nc = min(n_pol, 2)
    hot = t.choice("hot", [(0, 0, 0, 0), (1, nc - 1, 1, 1), (2, 0, 1, 2)])
    vis, model, w = _inputs(t, n_pol, 2, hot)
    init = t.real("g0", None, 0.25, 4)
    params = {"p": 2.5}
    cfg = _cfg(calibration_auto_initialize=t.flag("init"), cal_gain_init=init, flag_calibration=t.flag("flag"), bandpass_calibrate=t.flag("band"), auto_ratio_calibration=t.flag("ratio"), calibration_polyfit=t.flag("poly"), calibration_auto_fit=auto)
    on = {k: bool(v) for k, v in cfg.items() if k.startswith(("calibration_", "flag_", "band", "auto_"))}
    cfg.update(on)
    # no tile in use: the means (see statistics) are then zero and cost nothing
    obs = _obs(t, n_pol, (1, 1), (0, 0, 0))
    st = _Steps(t, None, 1)
    # what it has to be
    va, vm = np.real(vis[:nc, :, :2]) + 4.0, np.real(model[:nc, :, :2]) + 4.0
    g = st.start(nc, vis, model, va, vm) if on["calibration_auto_initialize"] else np.ones((nc, 2, 3)) * init + 0j
    g = st.solved(g, vis, model, w, params)
    solved = g.copy()
    o2 = _obs(t, n_pol, (1, 0) if on["flag_calibration"] else (1, 1), (0, 0, 0))
    ratio = None
    if on["bandpass_calibrate"]:
        if on["auto_ratio_calibration"]:
            ratio = np.ones(g.shape) * 2.5
            ratio[:, :, 2] = va[:, :, 1]
            g = g / ratio
        b, r = st.band(g, o2), st.rest(g, o2)
        if on["calibration_polyfit"]:
            g = b * np.stack([st.poly(r[p], None if ratio is None else ratio[p], o2) for p in range(nc)])
        else:
            g = b
        if ratio is not None:
            ratio[:, :, 1] = 1.0
            g = g * ratio
    elif on["calibration_polyfit"]:
        g = np.stack([st.poly(g[p], None, o2) for p in range(nc)])
    if auto:
        g = np.stack([st.auto(g[p], va[p], vm[p]) for p in range(nc)])
    keep = [vis.copy(), model.copy(), w.copy()]
    with st:
        out, cal, obs = c.calibrate(obs, params, vis, w, model, cfg, t.logger)
    t.eq("final gain", cal["gain"], g, 1e-9)
    t.eq("gain residual", cal["gain_residual"], solved - g, 1e-9)
    want = st.applied(keep[0], g, keep[1], keep[2])
    t.eq("calibrated visibilities", out, want, 1e-9)
    t.eq("baseline histogram", cal["vis_baseline_hist"]["h"], want + 3 * keep[1], 1e-9)
    t.eq("model untouched", model, keep[1])
    t.eq("weights untouched", w, keep[2])
    t.eq("used frequencies", obs["baseline_info"]["freq_use"], o2["baseline_info"]["freq_use"])
    t.check("polarisations and threshold", cal["n_pol"] == nc and cal["conv_thresh"] == 1e-7)
    t.check("solver's report", cal["n_vis_cal"] == 7)
    t.check("fit's report", ("amp_params" in cal) == on["calibration_polyfit"] and ("phase_params" in cal) == on["calibration_polyfit"])
    t.check("auto fit's report", ("auto_params" in cal) == auto)
    t.check("reference tile", cal["ref_antenna_name"] == obs["baseline_info"]["tile_names"][cal["ref_antenna"]])


UNIT = (1, 1j, -1, 0.6 + 0.8j, 0.8 - 0.6j)


@harness(
    quick=[
        dict(n_pol=2, freq_use=(1, 1, 0), tile_use=(1, 0, 1), flag=False),
        dict(n_pol=4, freq_use=(0, 1, 1), tile_use=(0, 1, 1), flag=True),
        dict(n_pol=1, freq_use=(1, 1, 1), tile_use=(0, 0, 0), flag=False),
        dict(n_pol=2, freq_use=(0, 0, 0), tile_use=(1, 1, 1), flag=False),
    ],
    thorough=[dict(n_pol=2, freq_use=(1, 0, 1, 1), tile_use=(1, 1, 1), flag=True)],
    budget=60,
)
def statistics(t, n_pol, freq_use, tile_use, flag):
    """mean, residual, robust residual and spread over used frequencies and tiles: any solved gain or fitted difference of one tile"""
    np, c = t.np, t.mod(CA)
    nc, nf, nt = min(n_pol, 2), len(freq_use), len(tile_use)
    vis, model, w = _inputs(t, n_pol, nf, None)
    final, res = {}, {}
    for p in range(nc):
        for f in range(nf):
            for i in range(nt):
                final[p, f, i] = 1.0 + 0.25 * ((3 * p + 5 * f + 2 * i) % 7)
                res[p, f, i] = 0.125 * ((p + 3 * f + 4 * i) % 5)
    hp, hf, hi = t.choice("hot", [(p, f, i) for p in {0, nc - 1} for f in (1, nf - 1) for i in (1, nt - 1)])
    which = t.choice("which", [final, res])
    which[hp, hf, hi] = t.real("a", None, 0, 4)
    t.split_cases()
    gf = np.zeros((nc, nf, nt), dtype="complex128")
    gs = np.zeros((nc, nf, nt), dtype="complex128")
    for p, f, i in final:
        gf[p, f, i] = final[p, f, i] * UNIT[(p + f + i) % 5]
        gs[p, f, i] = gf[p, f, i] + res[p, f, i] * UNIT[(p + 2 * f + i) % 5]
    st = _Steps(t, gs, nf - 1)
    st.auto = lambda g, va, vm: g * 0 + gf[st.pol()]
    count = []
    st.pol = lambda: (count.append(1), len(count) - 1)[1]
    obs = _obs(t, n_pol, freq_use, tile_use)
    on = [f for f in range(nf) if freq_use[f] and not (flag and f == nf - 1)]
    tiles = [i for i in range(nt) if tile_use[i]]
    with st:
        _, cal, _ = c.calibrate(obs, {"p": 1.0}, vis, w, model, _cfg(calibration_auto_fit=True, flag_calibration=flag), t.logger)
    t.eq("residual", cal["gain_residual"], gs - gf, 1e-9)
    for p in range(nc):
        a = [final[p, f, i] for f in on for i in tiles]
        r = [res[p, f, i] for f in on for i in tiles]
        n = len(a)
        if not n:
            for k in ("mean_gain", "mean_gain_residual", "mean_gain_restrict", "stddev_gain_residual"):
                t.eq("nothing used", cal[k][p], 0)
            continue
        t.eq("mean gain", cal["mean_gain"][p], sum(a) / n, 1e-9)
        m = sum(r) / n
        t.eq("mean residual", cal["mean_gain_residual"][p], m, 1e-9)
        t.eq("robust residual", cal["mean_gain_restrict"][p], m * 1.25, 1e-9)
        sd = cal["stddev_gain_residual"][p]
        t.eq("residual spread", sd * sd, sum((x - m) * (x - m) for x in r) / n, 1e-9)
        t.check("residual spread is not negative", sd >= 0)
