"""plot_cals: what is drawn where; matplotlib is a stand-in which records it."""
import shutil
import tempfile
import types

import numpy

from symnp.spec import harness

ASSUMPTIONS = ["matplotlib draws what it is given in the panel it is given for", "gains away from zero, the tiles' names are distinct"]
PL = "PyFHD.plotting.calibration"
KINDS = {"cal_amp": (0, 0), "cal_phase": (0, 1), "cal_residual_amp": (1, 0), "cal_residual_phase": (1, 1), "cal_raw_amp": (2, 0), "cal_raw_phase": (2, 1)}


class _Any:
    """takes every call"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()


def _colour(c):
    """the letter of a colour or format"""
    return next((x for x in str(c) if x.isalpha()), "?")


class _Panel(_Any):
    def __init__(self):
        self.titles, self.lines, self.off, self.lim = [], [], False, None

    def set_title(self, label, *a, **k):
        self.titles.append(str(label))

    def plot(self, x, y, fmt=None, *a, **k):
        self.lines.append((x, y, _colour(k.get("color", k.get("c", fmt)))))
        return [_Any()]

    def set(self, **k):
        for name, v in k.items():
            if name == "title":
                self.set_title(v)
            elif name == "ylim":
                self.set_ylim(v)

    def set_axis_off(self):
        self.off = True

    def axis(self, arg=None, **k):
        if arg in ("off", False):
            self.off = True

    def set_ylim(self, bottom=None, top=None, **k):
        bottom, top = k.get("ymin", bottom), k.get("ymax", top)
        self.lim = tuple(bottom) if top is None else (bottom, top)


class _Figure(_Any):
    def __init__(self, panels, files, legends):
        self.panels, self.files, self.legends, self.mine = panels, files, legends, []

    def legend(self, *a, handles=(), **k):
        self.mine = [getattr(h, "key", None) if isinstance(h, _Any) else (_colour(h.get_color()), h.get_label()) for h in (handles or (a[0] if a else ()))]

    def subplots(self, nrows=1, ncols=1, **k):
        p = numpy.empty((nrows, ncols), dtype=object)
        for i in numpy.ndindex(nrows, ncols):
            p[i] = _Panel()
        self.panels = p
        return p

    def savefig(self, fname, *a, **k):
        self.files.append((str(fname), [p for p in self.panels.ravel()], self.mine))


class _Plt(_Any):
    def __init__(self):
        self.files = []

    def plot(self, *a, **k):
        h = _Any()
        h.key = (_colour(k.get("color", k.get("c", "?"))), k.get("label"))
        return [h]

    def figure(self, *a, **k):
        return _Figure(numpy.empty((0, 0), dtype=object), self.files, None)

    def subplots(self, nrows=1, ncols=1, **k):
        fig = self.figure()
        return fig, fig.subplots(nrows, ncols)


def _gains(t, n_pol, n_freq, n_tile, seed):
    """distinct gains of which the moduli are exact"""
    np = t.np
    g = np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for k in range(n_tile):
                s = (1 + (7 * p + 3 * f + k + seed) % 11) / 4
                g[p, f, k] = s * ((3 + 4j), (4 + 3j), (4 - 3j), (3 - 4j))[(p + f + 2 * k + seed) % 4]
    return g


@harness(
    quick=[
        dict(n_tile=3, fu=(1, 0, 1), n_pol=2),
        dict(n_tile=129, fu=(1, 1), n_pol=1),
        dict(n_tile=2, fu=(1, 1, 1), n_pol=1),
        dict(n_tile=130, fu=(0, 1), n_pol=2),
    ],
    thorough=[dict(n_tile=128, fu=(1, 0, 1), n_pol=2), dict(n_tile=256, fu=(1, 1), n_pol=1), dict(n_tile=260, fu=(1, 1), n_pol=1), dict(n_tile=17, fu=(1, 1, 0, 1), n_pol=2)],
    budget=60,
)
def plots(t, n_tile, fu, n_pol):
    """every used tile's solution, residual and raw solution in the panel of its name"""
    np = t.np
    m = t.mod(PL)
    n_freq = len(fu)
    gain, res = _gains(t, n_pol, n_freq, n_tile, 0), np.zeros((n_pol, n_freq, n_tile), dtype="complex128")
    for p in range(n_pol):
        for f in range(n_freq):
            for k in range(n_tile):
                res[p, f, k] = ((3 + f + k) % 5 - 2) / 16 + 1j * ((p + 2 * f + k) % 3 - 1) / 8
    hot_t, flagged, undefined = t.choice("tiles", [(0, n_tile - 1, None), (n_tile - 1, None, n_tile // 2), (n_tile // 2, 0, None)])
    hot_f = t.choice("freq", [i for i in range(n_freq) if fu[i]] if n_tile > 100 else list(range(n_freq)))
    hot_p = t.choice("pol", list(range(n_pol)))
    x = t.complex("x", None, 1, 4)
    if t.choice("which", ["gain", "residual"]) == "gain":
        gain[hot_p, hot_f, hot_t] = x
    else:
        res[hot_p, hot_f, hot_t] = x
    tu = np.ones(n_tile, dtype="int64")
    if flagged is not None:
        tu[flagged] = 0
    if undefined == hot_t:
        undefined = None
    if undefined is not None:
        gain[:, :, undefined] = float("nan")
    # a tile without a solution at one frequency is still drawn
    hole = None
    if sum(fu) > 1 and n_tile > 2:
        hole = next(i for i in range(n_tile) if i not in (hot_t, flagged, undefined))
        gain[:, fu.index(1), hole] = float("nan")
    freq = np.array([182e6 + 2e6 * i for i in range(n_freq)])
    names = numpy.array([f"Tile{1000 - 3 * i}" for i in range(n_tile)])
    obs = {"n_tile": n_tile, "n_freq": n_freq, "n_pol": n_pol, "pol_names": ["XX", "YY", "XY", "YX"],
           "baseline_info": {"freq": freq, "freq_use": np.array(list(fu)), "tile_use": tu, "tile_names": names}}
    cal = {"gain": gain.copy(), "gain_residual": res.copy(), "n_pol": n_pol}
    dirp = tempfile.mkdtemp(prefix="c13")
    plt = _Plt()
    m.plt = plt
    try:
        m.plot_cals(obs, cal, {"obs_id": "1061316296", "output_dir": dirp})
    finally:
        shutil.rmtree(dirp, ignore_errors=True)
    t.eq("gains untouched", cal["gain"][hot_p, :, hot_t], gain[hot_p, :, hot_t])
    t.eq("residuals untouched", cal["gain_residual"][hot_p, :, hot_t], res[hot_p, :, hot_t])

    use = [i for i in range(n_freq) if fu[i]]

    def amp(z):
        return np.abs(z)

    def phase(z):
        return np.arctan2(z.imag, z.real)

    shown = {}
    for path, panels, legend in plt.files:
        stem = path.rsplit("/", 1)[-1].removesuffix(".png")
        t.check("the files' place and name", path.startswith(dirp) and stem.startswith("1061316296_"))
        kind = stem.removeprefix("1061316296_").split("_page")[0]
        t.check("known kind of file", kind in KINDS)
        d = shown.setdefault(KINDS[kind], {})
        for k in legend:
            t.check("legend", dict(legend) == dict(zip("br", obs["pol_names"][:n_pol])))
        for panel in panels:
            if panel.lines or panel.titles:
                t.check("one title per panel, each once", len(panel.titles) == 1 and panel.titles[0] not in d)
                d[panel.titles[0]] = panel
    t.check("files do not replace each other", len({f[0] for f in plt.files}) == len(plt.files))
    t.check("all kinds are drawn", set(shown) == set(KINDS.values()))
    hot = [(k, i) for i in sorted({0, n_tile - 1, n_tile // 2, hot_t, n_tile - 2} - {hole}) for k in KINDS.values()]
    fx = np.array([182.0 + 2.0 * i for i in use])
    for kind, d in sorted(shown.items()):
        t.check("every tile has its panel", sorted(d) == sorted(names.tolist()))
        drawn = {n for n, p in d.items() if p.lines}
        t.check("exactly the used tiles are drawn", drawn == {str(names[i]) for i in range(n_tile) if i not in (flagged, undefined)})
    for kind, i in hot:
        if i in (flagged, undefined):
            continue
        panel = shown[kind][str(names[i])]
        t.check("the panel is visible", not panel.off)
        t.check("a line per polarisation", sorted(c for _, _, c in panel.lines) == sorted("br"[:n_pol]))
        for fx_got, y, c in panel.lines:
            p = "br".index(c)
            g, r = gain[p, :, i][use], gain[p, :, i][use] + res[p, :, i][use]
            what, part = kind
            if part == 0:
                want = amp(g) if what == 0 else amp(r) if what == 2 else amp(r) - amp(g)
            elif what == 1:
                want = np.unwrap(phase(r)) - np.unwrap(phase(g))
            else:
                want = phase(g) if what == 0 else phase(r)
            y = np.atleast_1d(y)
            t.eq("frequencies in MHz", np.atleast_1d(fx_got), fx)
            t.check("one value per used frequency", tuple(y.shape) == (len(use),))
            t.eq(f"drawn {what} {part}", y, want)
            if panel.lim is not None and i == hot_t:
                for j in range(len(use)):
                    t.check("within the axes", t.And(y[j] >= panel.lim[0] - 1e-6, y[j] <= panel.lim[1] + 1e-6))
    if hole is not None:
        for part in (0, 2):
            for _, y, c in shown[part, 0][str(names[hole])].lines:
                g = gain["br".index(c), :, hole][use]
                z = g + res["br".index(c), :, hole][use] if part else g
                t.eq("drawn where there is a solution", np.atleast_1d(y)[1:], amp(z)[1:])
