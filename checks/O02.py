"""read_metafits, project_slant_orthographic, parallactic_angle."""
import os
import shutil
import tempfile

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the metafits file is replaced by a table and a header of the same layout, transformations of celestial coordinates (astropy) by functions that record what they are given",
    "projection: the angle between two directions (astropy) is replaced by its definition, declinations of zenith and phase centre are among the listed ones",
]
OB = "PyFHD.data_setup.obs"
UT = "PyFHD.pyfhd_tools.pyfhd_utils"
NAMES = ["Tile011", "Tile012", "Tile013", "Tile014"]


class _Rec:
    """rows of a table: by column, or some of the rows"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, k):
        if isinstance(k, str):
            low = {n.lower(): n for n in self.cols}
            return self.cols[low[k.lower()]]
        return _Rec({n: c[k] for n, c in self.cols.items()})

    field = __getitem__

    def __len__(self):
        return len(self.cols["Antenna"])


def _table(t):
    class Table(_Rec):
        def __init__(self, data, *a, **kw):
            _Rec.__init__(self, dict(data.cols))

        def argsort(self, keys=None, kind=None, reverse=False):
            if isinstance(keys, (list, tuple)):
                (keys,) = keys
            return t.np.argsort(self.cols[keys], kind=kind or "stable")

        def sort(self, keys, kind=None):
            i = self.argsort(keys, kind)
            self.cols = {n: c[i] for n, c in self.cols.items()}

    return Table


class _Hdu:
    def __init__(self, header=None, data=None):
        self.header, self.data = header, data


class _File(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class _Fits:
    def __init__(self, hdus):
        self.hdus, self.path = hdus, None

    def open(self, path, *a, **kw):
        self.path = str(path)
        return _File(self.hdus)

    def getheader(self, path, ext=0, *a, **kw):
        return self.open(path)[ext].header

    def getdata(self, path, ext=1, *a, **kw):
        return self.open(path)[ext].data


class _Time:
    """julian date to other formats"""

    def __init__(self, jd, *a, format="jd", **kw):
        assert format == "jd"
        self.jd = jd

    def to_value(self, fmt):
        return {"decimalyear": 2000 + (self.jd - 2451544.5) / 365.25, "fits": "2013-08-23", "jd": self.jd}[fmt]

    def __getattr__(self, k):
        if k in ("decimalyear", "fits"):
            return self.to_value(k)
        raise AttributeError(k)


def _angle(t, name, lo=-150, hi=150):
    """an angle in degrees by the tangent of its half, which ties it to its sine and cosine"""
    import math

    u = t.real(name, None, math.tan(math.radians(lo) / 2), math.tan(math.radians(hi) / 2))
    return t.np.degrees(t.np.arctan2(2 * u, 1 - u * u))


class _Run:
    """read_metafits with everything outside of the repository replaced"""

    def __init__(self, t, hdus=None):
        self.t, self.fits, self.calls = t, _Fits(hdus), []
        self.has = hdus is not None

    def __call__(self, obs, head, params, cfg):
        t, m = self.t, self.t.mod(OB)
        dirp = tempfile.mkdtemp(prefix="o02")
        if self.has:
            open(os.path.join(dirp, cfg["obs_id"] + ".metafits"), "w").close()
        self.path = os.path.join(dirp, cfg["obs_id"] + ".metafits")
        rec = self.calls

        def zenith(alt, az, lat, lon, height, time, *a, **kw):
            rec.append(("zenith", alt, lat, lon, height, time))
            return 101.0, -26.0

        def altaz(ra, dec, lat, lon, height, time, *a, **kw):
            rec.append(("altaz", ra, dec, lat, lon, height, time))
            return 81.0, 12.0

        def project(meta, obs, *a, **kw):
            rec.append(("project", meta["phasera"], meta["phasedec"], meta["zenra"], meta["zendec"], meta["obsx"], meta["obsy"]))
            return {"a": "astr"}, 5.5, 6.5

        new = {"fits": self.fits, "Table": _table(t), "altaz_to_radec": zenith, "radec_to_altaz": altaz, "project_slant_orthographic": project, "Time": _Time}
        keep = {k: getattr(m, k) for k in new}
        for k, v in new.items():
            setattr(m, k, like(m, k, v))
        try:
            return m.read_metafits(obs, head, params, dict(cfg, input_path=dirp), t.logger)
        finally:
            for k, v in keep.items():
                setattr(m, k, v)
            shutil.rmtree(dirp, ignore_errors=True)


HEAD = {"lat": -26.5, "lon": 116.5, "alt": 377.0, "obsra": 10.5, "obsdec": -20.25}


def _cfg(**kw):
    d = {"obs_id": "1061316296", "run_simulation": False, "override_target_phasera": None, "override_target_phasedec": None}
    d.update(kw)
    return d


def _times(t, blocks):
    jd = t.real("jd", len(blocks), 2456000, 2457000)
    for i in range(1, len(blocks)):
        t.assume(jd[i] > jd[i - 1] + 1e-6)
    time = t.np.zeros(sum(blocks))
    k = 0
    for i, n in enumerate(blocks):
        for _ in range(n):
            time[k] = jd[i]
            k += 1
    return jd, time


@harness(
    quick=[dict(pols="XYXYXY"), dict(pols="YXXYYX"), dict(pols="XXX"), dict(pols="XY", all=True)],
    thorough=[dict(pols="XYYXXYXY")],
    budget=80,
)
def tiles(t, pols, all=False):
    """tiles in the order of their antennas: names, heights above the array, flags; the rest of the metadata; the phase centre to go to"""
    t.split_cases()
    n = len(pols)
    n_ant = max(pols.count(c) for c in set(pols))
    number = t.int("antenna", n_ant, 0, 200)
    for i in range(n_ant):
        for j in range(i):
            t.assume(number[i] != number[j])
    # every antenna has a row of each polarisation
    rows = {c: [i for i in range(n) if pols[i] == c] for c in set(pols)}
    first = rows[pols[0]]
    ant = t.np.zeros(n, dtype="int64")
    for c in rows:
        for i, r in enumerate(rows[c]):
            ant[r] = number[i]
    alt = t.real("alt", None, 0, 500)
    high = t.real("height", n_ant, 300, 400)
    height = t.np.zeros(n)
    flag = t.np.zeros(n, dtype="int64")
    fl = [t.flag("flagged") if i < 2 else False for i in range(n_ant)]
    if not all:
        t.assume(sum(fl) != n_ant - 1)
    name = t.np.zeros(n, dtype="int64")
    for c in rows:
        for i, r in enumerate(rows[c]):
            height[r], flag[r], name[r] = high[i], 1 if fl[i] else 0, 11 + i
    pol = t.np.array([ord(c) for c in pols])
    order = sorted(range(n_ant), key=_by(lambda i, j: bool(ant[first[i]] < ant[first[j]])))
    hdr = {"RA": 1.5, "DEC": 2.5, "RAPHASE": t.real("ra", None, 0, 360), "DECPHASE": -27.5, "INTTIME": 0.5, "DELAYS": "0,5,10", "HISTORY": ("a", "b"), "OBSERVER": "me"}
    rec = _Rec({"Antenna": ant, "Tile": name, "Height": height, "Flag": flag, "Pol": pol})
    over = t.choice("override", [(None, None), (15.25, None), (None, -30.5), (0.0, 0.0)])
    jd, time = _times(t, (2, 2) if t.flag("two") else (3,))
    run = _Run(t, [_Hdu(hdr), _Hdu(data=rec)])
    obs = {"dimension": 64, "elements": 33, "n_tile": n_ant}
    meta = run(obs, dict(HEAD, alt=alt), {"time": time}, _cfg(override_target_phasera=over[0], override_target_phasedec=over[1], run_simulation=all))
    t.check("the file of the observation", run.fits.path == run.path)
    t.check("number of tiles", meta["tile_names"].shape == (n_ant,) and meta["tile_height"].shape == (n_ant,) and meta["tile_flag"].shape == (n_ant,))
    for k, i in enumerate(order):
        t.eq("tile", meta["tile_names"][k], 11 + i)
        t.eq("height above the array", meta["tile_height"][k], high[i] - alt)
        t.eq("flag", meta["tile_flag"][k], 1 if fl[i] else 0)
    t.check("pointing and resolution", (meta["obsra"], meta["obsdec"], meta["time_res"]) == (1.5, 2.5, 0.5))
    t.eq("phase centre", meta["phasera"], hdr["RAPHASE"])
    t.check("phase centre", meta["phasedec"] == -27.5)
    t.check("delays", list(meta["delays"]) == ["0", "5", "10"])
    t.eq("phase centre to go to", meta["orig_phasera"], hdr["RAPHASE"] if over[0] is None else over[0])
    t.check("phase centre to go to", meta["orig_phasedec"] == (-27.5 if over[1] is None else over[1]))
    _rest(t, run, meta, obs, jd, alt)
    t.check("header is kept", meta["meta_hdr"]["OBSERVER"] == "me" and list(meta["meta_hdr"]["HISTORY"]) == ["a", "b"] and meta["meta_hdr"]["DELAYS"] == "0,5,10")
    d = meta["meta_data"]
    for k in range(1, n):
        t.check("table is kept in the order of antennas", d["Antenna"][k - 1] <= d["Antenna"][k])


def _by(less):
    import functools

    return functools.cmp_to_key(lambda i, j: -1 if less(i, j) else 1)


def _rest(t, run, meta, obs, jd, alt):
    t.check("number of times", meta["jdate"].shape == jd.shape)
    for i in range(jd.shape[0]):
        t.eq("times", meta["jdate"][i], jd[i])
    t.eq("first time", meta["jd0"], jd[0])
    t.check("centre of the grid", (meta["obsx"], meta["obsy"]) == (obs["dimension"] // 2, obs["elements"] // 2))
    t.eq("epoch", meta["epoch"], 2000 + (jd[0] - 2451544.5) / 365.25, 1e-6)
    calls = {}
    for c in run.calls:
        t.check("each transformation is done once", c[0] not in calls)
        calls[c[0]] = c[1:]
    t.check("all transformations are done", len(calls) == 3)
    z, a, p = calls["zenith"], calls["altaz"], calls["project"]
    t.check("zenith of the site", (z[0], z[1], z[2]) == (90, HEAD["lat"], HEAD["lon"]))
    t.eq("zenith: height of the site", z[3], alt)
    t.eq("zenith: time", z[4], jd[0])
    t.check("altitude from the site", (a[2], a[3]) == (HEAD["lat"], HEAD["lon"]))
    t.eq("altitude of the pointing", a[0], meta["obsra"])
    t.eq("altitude of the pointing", a[1], meta["obsdec"])
    t.eq("altitude: height of the site", a[4], alt)
    t.eq("altitude: time", a[5], jd[0])
    t.eq("projection around the phase centre", p[0], meta["phasera"])
    t.eq("projection around the phase centre", p[1], meta["phasedec"])
    t.check("projection: zenith and centre", (p[2], p[3], p[4], p[5]) == (101.0, -26.0, meta["obsx"], meta["obsy"]))
    t.check("results are kept", (meta["zenra"], meta["zendec"], meta["obsalt"], meta["obsaz"], meta["zenx"], meta["zeny"], meta["astr"]) == (101.0, -26.0, 81.0, 12.0, 5.5, 6.5, {"a": "astr"}))


@harness(quick=[dict(n=3, blocks=(3,)), dict(n=3, blocks=(1, 2)), dict(n=4, blocks=(1, 1, 1))], thorough=[dict(n=4, blocks=(2, 1), n_base=3)], budget=100)
def missing(t, n, blocks, n_base=2):
    """without the file: tiles without a baseline are flagged, the pointing is that of the data"""
    t.split_cases()
    a, b = t.int("a", n_base, 1, n), t.int("b", n_base, 1, n)
    used = [bool(t.Or(*[x == i + 1 for x in list(a) + list(b)])) for i in range(n)]
    jd, time = _times(t, blocks)
    over = t.choice("override", [(None, None), (15.25, 0.0)])
    run = _Run(t)
    obs = {"dimension": 64, "elements": 64, "n_tile": n}
    meta = run(obs, HEAD, {"time": time, "antenna1": a, "antenna2": b}, _cfg(override_target_phasera=over[0], override_target_phasedec=over[1]))
    t.check("number of tiles", meta["tile_names"].shape == (n,) and meta["tile_height"].shape == (n,) and meta["tile_flag"].shape == (n,))
    for i in range(n):
        t.eq("name", meta["tile_names"][i], i + 1)
        t.eq("height", meta["tile_height"][i], 0)
        t.eq("flag", meta["tile_flag"][i], 0 if used[i] else 1)
    t.eq("integration", meta["time_res"], (jd[1] - jd[0]) * 24 * 3600 if jd.shape[0] > 1 else 1)
    t.check("directions", (meta["obsra"], meta["obsdec"], meta["phasera"], meta["phasedec"]) == (10.5, -20.25, 10.5, -20.25))
    t.check("no delays", meta["delays"] is None)
    t.check("phase centre to go to", (meta["orig_phasera"], meta["orig_phasedec"]) == ((10.5, -20.25) if over[0] is None else over))
    _rest(t, run, meta, obs, jd, HEAD["alt"])


def _place(t, ra, dec, ra0, dec0):
    """direction cosines of a direction (degrees) around a centre"""
    np = t.np
    a, d, e = np.radians(ra - ra0), np.radians(dec), np.radians(dec0)
    return (
        np.cos(d) * np.sin(a),
        np.sin(d) * np.cos(e) - np.cos(d) * np.sin(e) * np.cos(a),
        np.sin(d) * np.sin(e) + np.cos(d) * np.cos(e) * np.cos(a),
    )


@harness(quick=[dict(lat=-26.7), dict(lat=0.0), dict(lat=50.0)], budget=60)
def parallactic(t, lat):
    """the direction to the zenith around a source, from north to east"""
    t.split_cases()
    m = t.mod(UT)
    dec = t.choice("dec", [-70.0, -27.5, -26.0, 10.0, 60.0])
    h = _angle(t, "hour_angle")
    l, mm, _ = _place(t, h, lat, 0.0, dec)
    t.assume(t.Or(l > 1e-4, l < -1e-4, mm > 1e-4, mm < -1e-4))
    q = t.np.radians(m.parallactic_angle(lat, h, dec))
    s, c = t.np.sin(q), t.np.cos(q)
    t.eq("on the line to the zenith", s * mm, c * l, 1e-9)
    t.check("towards the zenith", s * l + c * mm > 0)


@harness(quick=[dict(dec=-27.5), dict(dec=-26.0), dict(dec=10.0)], budget=60)
def projection(t, dec):
    """the slant orthographic projection around the phase centre has the zenith as its slant"""
    t.split_cases()
    m = t.mod(OB)
    zen = t.choice("zendec", [-26.7, -40.0])
    wrap = t.flag("wrap")
    zra = 350.0 if wrap else 100.0
    off = t.choice("side", [-1, 0, 1])
    if off:
        off = _angle(t, "offset", *((15, 60) if wrap else (2, 60) if off > 0 else (-60, -2)))
    ra = zra + off - (360 if wrap else 0)
    l, mm, n = _place(t, zra, zen, ra, dec)
    t.assume(n > 0.05)
    t.assume(n < 0.9999)
    sign = [1 if bool(c > 1e-3) else -1 if bool(c < -1e-3) else 0 for c in (l, mm)]
    jd = t.real("jd", None, 2456000, 2457000)
    out = []

    def difference(ra1, dec1, ra2, dec2, degree=False, nearest=False):
        t.check("degrees are given", bool(degree))
        _, _, c = _place(t, ra2, dec2, ra1, dec1)
        return t.np.degrees(t.np.arctan2(t.np.sqrt(1 - c * c), c))

    def pixel(ra, dec, astr):
        out.append((ra, dec, astr))
        return 12.5, 13.5

    keep = m.angle_difference, m.radec_to_pixel, m.Time
    m.angle_difference, m.radec_to_pixel, m.Time = like(m, "angle_difference", difference), like(m, "radec_to_pixel", pixel), _Time
    try:
        astr, x, y = m.project_slant_orthographic({"phasera": ra, "phasedec": dec, "zenra": zra, "zendec": zen, "jd0": jd, "obsx": 20, "obsy": 10}, {"dimension": 40, "elements": 20, "degpix": 0.25})
    finally:
        m.angle_difference, m.radec_to_pixel, m.Time = keep
    for k, c in enumerate([l, mm]):
        s = astr["pv2"][k] * n
        t.eq("slant towards the zenith", s * s, c * c, 1e-8)
        if sign[k]:
            t.check("direction of the slant", s * sign[k] > 0)
    t.eq("reference direction", astr["crval"][0], ra)
    t.eq("reference direction", astr["crval"][1], dec)
    for k, v in enumerate([(21, 40), (11, 20)]):
        t.eq("reference pixel", astr["crpix"][k], v[0])
        t.eq("pixel size", astr["cdelt"][k], 0.25)
        t.eq("size", astr["naxis"][k], v[1])
    t.check("axes", [str(c) for c in astr["ctype"]] == ["RA---SIN", "DEC--SIN"])
    t.check("native pole", [float(v) for v in astr["pv1"]] == [0, 0, 90, 180, 0])
    t.eq("time", astr["mjdobs"], jd - 2400000.5)
    t.check("pixel of the zenith", len(out) == 1 and (x, y) == (12.5, 13.5) and (out[0][0], out[0][1]) == (zra, zen))
