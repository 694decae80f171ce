"""unit_conv: altaz_to_radec, radec_to_altaz, radec_to_pixel, pixel_to_radec: what they ask of Astropy and give back."""
from symnp.spec import harness

ASSUMPTIONS = ["Astropy's frames and world coordinate systems are replaced by invertible maps which weigh every value they are given (site, time, projection); concrete runs use Astropy itself"]
MOD = "PyFHD.pyfhd_tools.unit_conv"


class _Unit:
    __array_ufunc__ = None

    def __init__(self, name):
        self.name = name

    def __rmul__(self, v):
        return _Q(v, self.name)

    __rlshift__ = __rmul__


class _Q:
    def __init__(self, v, unit):
        self.v, self.unit = v, unit

    def _as(self, unit):
        if unit not in (None, self.unit):
            raise AssertionError(f"{self.unit} where {unit} is needed")
        return self.v

    def to_value(self, unit=None):
        return self._as(getattr(unit, "name", unit))

    def to(self, unit):
        self._as(getattr(unit, "name", unit))
        return self

    value = property(lambda self: self.v)
    deg = degree = property(lambda self: self._as("deg"))
    ndim = property(lambda self: getattr(self.v, "ndim", 0))
    shape = property(lambda self: getattr(self.v, "shape", ()))
    size = property(lambda self: getattr(self.v, "size", 1))


class _Units:
    deg = degree = _Unit("deg")
    m = meter = _Unit("m")


FORMATS = {"jd": 0.5, "mjd": 2.0}
FRAMES = {"icrs": 0.0, "fk5": 1.5}


def _deg(q):
    return q._as("deg")


def horizon(site, when, ra, dec):
    """the stand-in's altitude and azimuth: any invertible map which differs with every part of the site and time"""
    lon, lat, height = site
    return 2 * ra + dec + lon - 0.25 * when, ra + dec + 0.5 * lat + 0.125 * height + 0.5 * when


def sky(site, when, alt, az):
    lon, lat, height = site
    a, b = alt - lon + 0.25 * when, az - 0.5 * lat - 0.125 * height - 0.5 * when
    return a - b, 2 * b - a


class _Place:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class _Location:
    @staticmethod
    def from_geodetic(lon, lat, height=None):
        return _Place(lon=_deg(lon), lat=_deg(lat), height=0.0 if height is None else height._as("m"))


def _time(value, format="mjd"):
    return _Place(t=value + FORMATS[format])


class _ICRS:
    name = "icrs"


class _AltAz:
    def __init__(self, alt=None, az=None, location=None, obstime=None):
        self.site, self.when = (location.lon, location.lat, location.height), obstime.t
        if alt is not None:
            self.alt, self.az = alt, az

    def transform_to(self, frame):
        if getattr(frame, "name", frame) != "icrs":
            raise AssertionError("not the sky's frame")
        ra, dec = sky(self.site, self.when, _deg(self.alt), _deg(self.az))
        return _Sky(_Q(ra, "deg"), _Q(dec, "deg"))


class _Sky:
    def __init__(self, ra, dec, frame="icrs"):
        self.ra, self.dec, self.frame = ra, dec, getattr(frame, "name", frame)

    def transform_to(self, frame):
        if not isinstance(frame, _AltAz):
            raise AssertionError("not a frame of the horizon")
        alt, az = horizon(frame.site, frame.when, _deg(self.ra), _deg(self.dec))
        return _Place(alt=_Q(alt, "deg"), az=_Q(az, "deg"))


KEYS = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2)]


def offsets(w):
    pv = {(i, m): v for i, m, v in w["pv"]}
    if set(pv) - set(KEYS):
        raise AssertionError("a parameter of the projection which is not given")
    off = sum((0.5 + k) * pv.get(key, 0.0) for k, key in enumerate(KEYS))
    return off + 0.5 * w["equinox"] + 0.25 * w["mjdobs"] + {"": 0.0, "2013-08-23": 1.0}[w["dateobs"]] + 3 * FRAMES[w["radesys"].lower()] + sum((1.0 + i) * ("SIN" in c) + 5.0 * (c[:2] == ("RA", "DE")[i]) for i, c in enumerate(w["ctype"]))


def to_pixel(w, ra, dec):
    o = offsets(w)
    return (ra - w["crval"][0]) / w["cdelt"][0] + w["crpix"][0] - 1 + o, (dec - w["crval"][1]) / w["cdelt"][1] + w["crpix"][1] - 1 - 2 * o


def to_sky(w, x, y):
    o = offsets(w)
    return (x - o + 1 - w["crpix"][0]) * w["cdelt"][0] + w["crval"][0], (y + 2 * o + 1 - w["crpix"][1]) * w["cdelt"][1] + w["crval"][1]


class _WCS:
    def __init__(self, header=None, naxis=2):
        if header is not None or naxis != 2:
            raise AssertionError("a plane of the sky has two axes")
        self.wcs = _Place(pv=[], equinox=0.0, mjdobs=0.0, dateobs="", radesys="ICRS", ctype=["", ""], crpix=[0.0, 0.0], crval=[0.0, 0.0], cdelt=[1.0, 1.0])
        self.wcs.set_pv = lambda pv: self.wcs.__dict__.update(pv=list(pv))

    def world_to_pixel(self, where):
        if where.frame != self.wcs.radesys.lower():
            raise AssertionError("a position in another frame than the image's")
        return to_pixel(self.wcs.__dict__, _deg(where.ra), _deg(where.dec))

    def pixel_to_world(self, x, y):
        ra, dec = to_sky(self.wcs.__dict__, x, y)
        return _Sky(_Q(ra, "deg"), _Q(dec, "deg"), self.wcs.radesys.lower())


STAND_INS = dict(SkyCoord=_Sky, EarthLocation=_Location, AltAz=_AltAz, ICRS=_ICRS, WCS=_WCS, Time=_time, u=_Units)


class _installed:
    def __init__(self, t, m):
        self.m, self.on = m, t.sym

    def __enter__(self):
        if self.on:
            self.old = {k: getattr(self.m, k) for k in STAND_INS}
            for k, v in STAND_INS.items():
                setattr(self.m, k, v)

    def __exit__(self, *a):
        if self.on:
            for k, v in self.old.items():
                setattr(self.m, k, v)


def _deg_of(q):
    return getattr(q, "deg", q)


@harness(quick=[dict(n=0), dict(n=2)], thorough=[dict(n=4)], budget=60)
def altitude(t, n):
    """positions and their altitude and azimuth at the site and time given"""
    m = t.mod(MOD)
    shape = (n,) if n else None
    ra, dec = t.real("ra", shape, 20, 60), t.real("dec", shape, -60, -10)
    lon, lat, height = t.real("lon", None, 110, 120), t.real("lat", None, -40, -20), t.real("height", None, 0, 500)
    fmt = t.choice("format", ["jd", "mjd", None])
    when = t.choice("time", [2456528.25, 2456529.500732421875]) - (2400000.5 if fmt == "mjd" else 0.0)
    kw = {} if fmt is None else {"time_format": fmt}
    with _installed(t, m):
        alt, az = m.radec_to_altaz(ra, dec, lat, lon, height, when, **kw)
        back = m.altaz_to_radec(alt, az, lat, lon, height, when, **kw)
    if t.sym:
        want = horizon((lon, lat, height), when + FORMATS[fmt or "jd"], ra, dec)
    else:
        import astropy.units as u
        from astropy.coordinates import AltAz, EarthLocation, SkyCoord
        from astropy.time import Time

        there = AltAz(obstime=Time(when, format=fmt or "jd"), location=EarthLocation(lat=lat * u.deg, lon=lon * u.deg, height=height * u.m))
        p = SkyCoord(ra, dec, unit="deg").transform_to(there)
        want = p.alt.deg, p.az.deg
    for k in range(max(n, 1)):
        at = (lambda a: a[k]) if n else (lambda a: a)
        t.check("altitude", t.near(at(alt), at(want[0]), 1e-6))
        t.check("azimuth", t.near(at(az), at(want[1]), 1e-6))
        t.check("right ascension again", t.near(at(back[0]), at(ra), 1e-6))
        t.check("declination again", t.near(at(back[1]), at(dec), 1e-6))


@harness(quick=[dict(n=0), dict(n=1), dict(n=2)], thorough=[dict(n=4)], budget=60)
def pixels(t, n):
    """positions and their pixels in the projection given"""
    np, m = t.np, t.mod(MOD)
    shape = (n,) if n else None
    frame = t.choice("frame", ["FK5", "ICRS"])
    kind = t.choice("projection", [("RA---SIN", "DEC--SIN"), ("RA---TAN", "DEC--TAN")])
    d = [t.real("c0", None, -0.5, -0.125), t.real("c1", None, 0.125, 0.5)]
    astr = {
        "cdelt": np.array(d), "ctype": np.array(kind), "equinox": 2000.0, "mjdobs": t.real("mjd", None, 56528, 56530), "dateobs": t.choice("date", ["2013-08-23", ""]), "radecsys": frame,
        "crpix": np.array([t.real("p0", None, 20, 40), t.real("p1", None, 20, 40)]),
        "crval": np.array([t.real("v0", None, 40, 50), t.real("v1", None, -40, -20)]),
        "pv1": np.array([0.0, 0.0, 0.0, t.real("lonpole", None, 170, 180), t.real("latpole", None, -30, 30)]),
        "pv2": np.array([t.real("xi", None, 0, 0.125), t.real("eta", None, 0, 0.125)]) if kind[0] == "RA---SIN" else np.array([0.0, 0.0]),
    }
    x, y = t.real("x", shape, 16, 48), t.real("y", shape, 16, 48)
    with _installed(t, m):
        ra, dec = m.pixel_to_radec(x, y, astr)
        ra, dec = _deg_of(ra), _deg_of(dec)
        back = m.radec_to_pixel(ra, dec, astr)
    pv = [(i, k, astr["pv%d" % i][k - (i == 2)]) for i, k in KEYS]
    if t.sym:
        want = to_sky(dict(pv=pv, equinox=2000.0, mjdobs=astr["mjdobs"], dateobs=astr["dateobs"], radesys=frame, ctype=kind, crpix=astr["crpix"], crval=astr["crval"], cdelt=astr["cdelt"]), x, y)
    else:
        from astropy.io.fits import Header
        from astropy.wcs import WCS

        h = Header()
        for i in (0, 1):
            h["CTYPE%d" % (i + 1)], h["CDELT%d" % (i + 1)], h["CRPIX%d" % (i + 1)], h["CRVAL%d" % (i + 1)] = kind[i], float(astr["cdelt"][i]), float(astr["crpix"][i]), float(astr["crval"][i])
        for i, k, v in pv:
            h["PV%d_%d" % (i, k)] = float(v)
        want = WCS(h).all_pix2world(x, y, 0)
    for k in range(max(n, 1)):
        at = (lambda a: a[k]) if n else (lambda a: a)
        t.check("right ascension", t.near(at(ra), at(want[0]), 1e-6))
        t.check("declination", t.near(at(dec), at(want[1]), 1e-6))
        if n == 0:
            t.check("a single position as plain numbers", isinstance(back, tuple) and np.ndim(back[0]) == 0 and np.ndim(back[1]) == 0)
        t.check("pixel again", t.near(back[0] if np.ndim(back[0]) == 0 else back[0][k], at(x), 1e-6))
        t.check("pixel again", t.near(back[1] if np.ndim(back[1]) == 0 else back[1][k], at(y), 1e-6))
