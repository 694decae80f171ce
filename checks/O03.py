"""extract_header, create_params, extract_visibilities."""
from symnp.spec import harness

ASSUMPTIONS = [
    "extract_header: the file is replaced by a table of header values; the site registry by one that knows two sites",
    "create_params from baseline numbers: the numbers are power-of-two encoded and the smallest belongs to the first tile with itself or its neighbour",
]
UV = "PyFHD.data_setup.uvfits"
EXIT = (SystemExit,)


class Header(dict):
    """header keywords are case insensitive"""

    def __init__(self, d):
        super().__init__({k.upper(): v for k, v in d.items()})

    def __getitem__(self, k):
        return dict.__getitem__(self, k.upper())

    def __contains__(self, k):
        return dict.__contains__(self, k.upper())

    def get(self, k, default=None):
        return dict.get(self, k.upper(), default)


class _Hdu:
    def __init__(self, header, data):
        self.header, self.data = header, data


class _File(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


class _Fits:
    def __init__(self, hdus):
        self.hdus, self.path = _File(hdus), None

    def open(self, path, *a, **kw):
        self.path = str(path)
        return self.hdus


class _Deg:
    def __init__(self, v):
        self.deg = self.value = v


class _Site:
    def __init__(self, lon, lat, height):
        self.lon, self.lat, self.height = _Deg(lon), _Deg(lat), _Deg(height)


def _sites(mod):
    class EarthLocation:
        @classmethod
        def of_site(cls, name):
            known = {"mwa": _Site(116.5, -26.5, 377.0), "paper": _Site(21.25, -30.5, 1050.0)}
            if name not in known:
                raise mod.astropy.coordinates.errors.UnknownSiteException(name, "site", "x")
            return known[name]

    return EarthLocation


class _Column:
    def __init__(self, bzero):
        self.bzero = bzero


class _Rows(dict):
    """data of which Astropy has added the zero points and the parts of the date"""

    def __init__(self, names, d):
        super().__init__(d)
        self.columns = [_Column(2456528.0 + i) for i in range(len(names))]


BASE = ["UU", "VV", "WW", "BASELINE", "DATE", "INTTIM"]


@harness(
    quick=[
        dict(names=BASE),
        dict(names=["DATE", "BASELINE", "UU", "VV", "WW"]),
        dict(names=["BASELINE", "UU", "VV", "DATE", "WW"]),
        dict(names=["UU", "VV", "WW", "DATE", "ANTENNA1", "ANTENNA2"]),
        dict(names=["UU", "VV", "WW", "DATE", "ANTENNA1"]),
        dict(names=["VV", "WW", "BASELINE", "DATE"]),
        dict(names=["UU", "WW", "BASELINE", "DATE"]),
        dict(names=["UU", "VV", "BASELINE", "DATE"]),
        dict(names=["UU", "VV", "WW", "BASELINE"]),
        dict(names=["UU", "VV", "WW", "DATE"]),
        dict(names=["UU", "VV", "WW", "BASELINE", "DATE", "DATE"]),
    ],
    budget=40,
)
def header(t, names):
    """frequencies, position, location and date of the header; files without the required parameters are refused"""
    m = t.mod(UV)
    n_freq = t.choice("n_freq", [1, 3])
    ref, res, pix = t.real("freq", None, 1e7, 1e9), t.real("width", None, 1e3, 1e6), t.real("pixel", None, -4, 8)
    model = t.flag("model")
    inst = t.choice("instrument", ["mwa", "paper", "unknown"])
    d = {"NAXIS": 6, "PCOUNT": len(names), "GCOUNT": 12, "NAXIS2": 3, "NAXIS3": 4, "NAXIS4": n_freq, "CRVAL4": ref, "CDELT4": res, "CRPIX4": pix}
    d["DATE-OBS" if t.flag("date-obs") else "DATEOBS"] = "2013-08-23T00:00:00"
    radec = t.flag("obsra")
    d.update({"OBSRA": 10.5, "OBSDEC": -20.25, "RA": 1.5, "DEC": 2.5} if radec else {"RA": 1.5, "DEC": 2.5})
    place = t.flag("location")
    if place:
        d.update(LON=5.5, LAT=6.5, ALT=7.5)
    # the date may be given in two parts
    data = "data"
    if names.count("DATE") > 1:
        data = _Rows(names, {"DATE": t.np.array([2456540.0 + t.choice("part", [0.0, 0.3125, 0.75]), 2456541.0])})
    for i, n in enumerate(names):
        d[f"PTYPE{i + 1}"] = n + "  "
        d[f"PZERO{i + 1}"] = 2456528.0 + i
    fits = _Fits([_Hdu(Header(d), data), _Hdu("layout header", "layout data")])
    cfg = {"model_file_path": "/x/model.uvfits", "input_path": "/in", "obs_id": "obs", "instrument": inst}
    keep = m.fits, m.EarthLocation
    m.fits, m.EarthLocation = fits, _sites(m)
    ok = all(k in names for k in ("UU", "VV", "WW", "DATE")) and ("BASELINE" in names or ("ANTENNA1" in names and "ANTENNA2" in names))
    try:
        h, rows, ah, ad = m.extract_header(cfg, t.logger, model_uvfits=True) if model else m.extract_header(cfg, t.logger)
    except KeyError:
        t.check("a complete file is read", not ok)
        return
    finally:
        m.fits, m.EarthLocation = keep
    t.check("a file without a required parameter is refused", ok)
    t.check("the requested file", fits.path == ("/x/model.uvfits" if model else "/in/obs.uvfits"))
    t.check("visibilities and antenna table are returned", rows is data and ah == "layout header" and ad == "layout data")
    t.check("sizes", (h["n_pol"], h["n_freq"], h["n_baselines"], h["n_params"]) == (4, n_freq, 12, len(names)))
    t.eq("frequency resolution", h["freq_res"], res)
    t.check("number of frequencies", h["frequency_array"].shape == (n_freq,))
    for f in range(n_freq):
        t.eq("frequency", h["frequency_array"][f], ref + (f - (pix - 1)) * res)
    t.check("direction", (h["obsra"], h["obsdec"]) == ((10.5, -20.25) if radec else (1.5, 2.5)))
    site = (5.5, 6.5, 7.5) if place else (21.25, -30.5, 1050.0) if inst == "paper" else (116.5, -26.5, 377.0)
    t.check("location", (h["lon"], h["lat"], h["alt"]) == site)
    if names.count("DATE") > 1:
        t.eq("julian date of both parts", h["jd0"], data["DATE"][0], 1e-12)
        return
    jd = 2456528.0 + names.index("DATE")
    t.eq("julian date", h["jd0"], jd)
    t.check("date", str(h["dateobs"]).startswith("2013-08-%02dT12" % (23 + names.index("DATE"))))
    t.check("antenna columns", bool(h["ant1_i"]) == ("ANTENNA1" in names) and bool(h["ant2_i"]) == ("ANTENNA2" in names))


@harness(quick=[dict(how="antennas"), dict(how="baselines", first=(1, 1)), dict(how="baselines", first=(1, 2)), dict(how="half", first=(1, 2))], budget=40)
def params(t, how, first=None):
    """coordinates, times and antennas; antennas are decoded from the baseline number if they are not given"""
    t.split_cases()
    m = t.mod(UV)
    n = 3
    data = {k: t.real(k, n, -1e-3, 1e-3) for k in ("UU", "VV", "WW")}
    data["DATE"] = t.real("DATE", n, 2.4e6, 2.5e6)
    keep = {k: v.copy() for k, v in data.items()}
    h = {"ant1_i": how != "baselines", "ant2_i": how == "antennas"}
    a1, a2 = t.int("a", n, 1, 128), t.int("b", n, 1, 128)
    if how == "antennas":
        data["ANTENNA1"], data["ANTENNA2"] = a1, a2
    else:
        if how == "half":
            data["ANTENNA1"] = t.np.array([7] * n)
        base = t.choice("base", [256, 2048])
        i = t.choice("first", [0, 2])
        a1[i], a2[i] = first
        bl = t.np.zeros(n)
        for k in range(n):
            if k != i:
                t.assume(base * a1[k] + a2[k] > base * first[0] + first[1])
            bl[k] = base * a1[k] + a2[k]
        data["BASELINE"] = bl
    p = m.create_params(h, data, t.logger)
    for k, q in (("uu", "UU"), ("vv", "VV"), ("ww", "WW"), ("time", "DATE")):
        t.eq(k, p[k], keep[q])
    for k in range(n):
        t.eq("first antenna", p["antenna1"][k], a1[k])
        t.eq("second antenna", p["antenna2"][k], a2[k])


@harness(
    quick=[
        dict(shape=(3, 1, 1, 2, 4, 3), n_pol=2),
        dict(shape=(2, 1, 1, 2, 2, 3), n_pol=0),
        dict(shape=(2, 1, 1, 1, 2, 3), n_pol=2),
        dict(shape=(2, 1, 1, 2, 1, 3), n_pol=1),
        dict(shape=(1, 1, 1, 2, 2, 3), n_pol=2),
        dict(shape=(2, 1, 1, 1, 3, 2, 3), n_pol=1),
        dict(shape=(2, 1, 1, 2, 3, 2, 3), n_pol=2),
    ],
    thorough=[dict(shape=(4, 1, 1, 3, 4, 3), n_pol=0), dict(shape=(1, 1, 1, 1, 1, 3), n_pol=0)],
    budget=40,
)
def visibilities(t, shape, n_pol):
    """real and imaginary part and weight of the first polarisations, per polarisation, frequency and baseline"""
    m = t.mod(UV)
    d = t.real("d", shape, -8, 8)
    k = d.copy()
    h = {"n_pol": shape[-2], "real_index": 0, "imaginary_index": 1, "weights_index": 2}
    many = any(x > 1 for x in shape[1:-3])
    try:
        v, w = m.extract_visibilities(h, {"DATA": d}, {"n_pol": n_pol}, t.logger)
    except SystemExit:
        t.check("only several spectral windows are refused", many)
        return
    t.check("several spectral windows are refused", not many)
    n, nf, npol = shape[0], shape[-3], n_pol or shape[-2]
    t.check("shapes", v.shape == (npol, nf, n) and w.shape == (npol, nf, n))
    t.check("types", v.dtype == t.np.complex128 and w.dtype == t.np.float64)
    t.eq("data untouched", d, k)
    k = k.reshape((n, nf, shape[-2], 3))
    for b in range(n):
        for f in range(nf):
            for p in range(npol):
                t.eq("visibility", v[p, f, b], k[b, f, p, 0] + 1j * k[b, f, p, 1])
                t.eq("weight", w[p, f, b], k[b, f, p, 2])
