"""healpix_cnv_generate, healpix_cnv_apply."""
import numpy
from healpy import ang2pix, pix2ang, pix2vec as _pix2vec, query_disc as _query_disc
from healpy.pixelfunc import ang2vec as _ang2vec, vec2ang as _vec2ang

from checks.common import like
from symnp.spec import harness

ASSUMPTIONS = [
    "the position of a HEALPix pixel in the image and its altitude (astropy) are replaced by functions of its right ascension and declination; healpy itself is the real one on concrete pixel numbers",
    "listed pixels (restrict_healpix_inds) lie within the image; at least two pixels are inside the image",
]
HU = "PyFHD.healpix.healpix_utils"


class _Val:
    """a quantity of astropy"""

    def __init__(self, v):
        self.value = v

    def to_value(self, unit=None):
        return self.value

    def __getattr__(self, k):
        if k in ("deg", "m"):
            return self.value
        raise AttributeError(k)


class _Site:
    lat, lon, height = _Val(-26.5), _Val(116.5), _Val(377.0)

    @classmethod
    def of_site(cls, name):
        assert name == "mwa"
        return cls()


class _Sky:
    """where the pixels of nside are in the image and in the sky"""

    def __init__(self, t, nside, place, height):
        self.t, self.nside, self.place, self.height = t, nside, place, height

    def look(self, ra, dec, table):
        np = self.t.np
        if numpy.ndim(ra) == 0:
            return table(self.pixel(ra, dec))
        out = np.zeros(len(ra))
        for i in range(len(ra)):
            out[i] = table(self.pixel(float(ra[i]), float(dec[i])))
        return out

    def pixel(self, ra, dec):
        p = int(ang2pix(self.nside, float(ra), float(dec), lonlat=True))
        a, d = pix2ang(self.nside, p, lonlat=True)
        ok = abs((a - float(ra) + 180) % 360 - 180) < 1e-6 and abs(d - float(dec)) < 1e-6
        if not ok:
            self.t.fail("a position is not that of a HEALPix pixel")
        return p

    def to_pixel(self, ra, dec, astr, *a, **kw):
        self.t.check("astrometry", astr["a"] == "astr")
        return self.look(ra, dec, lambda p: self.place[p][0]), self.look(ra, dec, lambda p: self.place[p][1])

    def to_altaz(self, ra, dec, lat, lon, height, time, *a, **kw):
        t = self.t
        t.check("place and time of the observation", abs(lat + 26.5) < 1e-9 and abs(lon - 116.5) < 1e-9 and abs(height - 377) < 1e-9 and abs(time - 2456528.5) < 1e-9)
        return self.look(ra, dec, lambda p: self.height.get(p, 40.0)), self.look(ra, dec, lambda p: 12.0)


class _Stand:
    def __init__(self, t, sky, files=None):
        m = self.m = t.mod(HU)
        np = t.np

        def real(f):
            def g(*a, **kw):
                a = [numpy.array(x.tolist()) if hasattr(x, "tolist") else x for x in a]
                r = f(*a, **kw)
                return tuple(np.array(x) for x in r) if isinstance(r, tuple) else np.array(r)

            return g

        self.new = dict(query_disc=real(_query_disc), ang2vec=real(_ang2vec), pix2vec=real(_pix2vec), vec2ang=real(_vec2ang), radec_to_pixel=sky.to_pixel, radec_to_altaz=sky.to_altaz, EarthLocation=_Site)
        if files is not None:
            self.new["load"] = files

    def __enter__(self):
        self.keep = {k: getattr(self.m, k) for k in self.new}
        for k, v in self.new.items():
            setattr(self.m, k, like(self.m, k, v))
        return self

    def __exit__(self, *a):
        for k, v in self.keep.items():
            setattr(self.m, k, v)


def _obs(dim):
    return {"obsra": 60.0, "obsdec": -30.0, "dimension": dim, "elements": dim, "instrument": "mwa", "jd0": 2456528.5, "freq_center": 182e6, "astr": {"a": "astr", "cdelt": [0.5, 0.5]}, "healpix": {"nside": 0, "n_pix": 0, "n_zero": 0}}


def _bilinear(np, img, x, y):
    """spec: the image, of rows y and columns x, between its pixels"""
    x0, y0 = int(np.floor(x)), int(np.floor(y))
    a, b = x - x0, y - y0
    rows, dim = img.shape
    s = 0.0
    for j, wy in ((0, 1 - b), (1, b)):
        for i, wx in ((0, 1 - a), (1, a)):
            if y0 + j < rows and x0 + i < dim:
                s = s + wx * wy * img[y0 + j, x0 + i]
    return s


def _image(t, name, dim, sym, rows=None):
    img = t.np.zeros((rows or dim, dim))
    for y in range(rows or dim):
        for x in range(dim):
            img[y, x] = t.real("%s%d%d" % (name, y, x), None, -8, 8) if sym else 1.0 + 0.5 * ((5 * y + 3 * x) % 11)
    return img


SPOTS = [(1.25, 0.5), (2.5, 1.75), (0.5, 2.25), (1.0, 1.5), (2.75, 0.75), (1.5, 2.0), (2.0, 1.0)]


@harness(
    quick=[dict(dim=4, kind="list"), dict(dim=4, kind="dict"), dict(dim=3, kind="list", sym=True)],
    thorough=[dict(dim=4, kind="list", full=True), dict(dim=5, kind="dict", full=True), dict(dim=4, kind="dict", sym=True)],
    budget=60,
)
def listed(t, dim, kind, sym=False, full=False):
    """listed pixels: the map is the image between its pixels at any position of one of them, those below the horizon are cut"""
    np, m = t.np, t.mod(HU)
    nside = 4
    inds = [70, 71, 85, 86, 87, 101, 102]
    if sym:
        combos = [((1, 0), 85, None), ((0, 1), 85, None)]
    else:
        combos = [((0, 0), 85, None), ((1, dim - 2), 102, "row"), ((dim - 2, 1), 85, "row"), ((dim - 2, dim - 2), 102, None)]
        if full:
            combos = [(c, h, k) for c in [(0, 0), (1, 2), (2, 1), (dim - 2, dim - 2), (dim - 1, 1)] for h in (70, 85, 102) for k in (None, "row")]
    (ix, iy), hot, zero = t.choice("case", combos)
    fx, fy = t.real("fx", None, 0, 0.984375), t.real("fy", None, 0, 0.984375)
    if sym:
        fx = 0.25
    t.split_cases()
    place = {p: SPOTS[k] for k, p in enumerate(inds)}
    if dim == 3:
        place = {p: (min(x, 1.75), min(y, 1.5)) for p, (x, y) in place.items()}
    place[hot] = (ix + fx, iy + fy)
    up = t.real("alt", None, -5, 5)
    height = {71: up, 101: -3.0} if kind == "list" else {71: up}
    for g in (fx, fy):
        t.assume(t.Or(g == 0, g >= 1 / 64))
    t.assume(t.Or(up >= 1 / 64, up <= 0))
    on = [p for p in inds if p not in height or bool(up > 0) and p == 71]
    sky = _Sky(t, nside, place, height)
    given = np.array(inds)
    seen = []

    def load(path, *a, **kw):
        seen.append(str(path))
        return given.copy() if kind == "list" else {"hpx_inds": given.copy(), "nside": nside}

    obs = _obs(dim)
    mask = np.ones((dim, dim))
    if zero:
        mask[: 2 if dim > 3 else 1, :] = 0
    km = mask.copy()
    cfg = {"restrict_healpix_inds": True, "healpix_inds": "/some/list.h5"}
    with _Stand(t, sky, load):
        cnv, obs = m.healpix_cnv_generate(obs, mask, 10.0, cfg, t.logger, nside=nside if kind == "list" else 64)
    t.check("the configured list", seen == ["/some/list.h5"])
    t.check("pixels above the horizon", [int(x) for x in cnv["inds"]] == on)
    t.check("nside", cnv["nside"] == nside and obs["healpix"]["nside"] == nside)
    t.check("number of pixels", obs["healpix"]["n_pix"] == len(on))
    t.check("no list of pixels", obs["healpix"]["ind_list"] is None)
    n0 = 0
    for p in on:
        if bool(_bilinear(np, km, *place[p]) == 0):
            n0 += 1
    t.eq("pixels outside of the mask", obs["healpix"]["n_zero"], n0)
    img = _image(t, "i", dim, sym)
    ki = img.copy()
    hmap = m.healpix_cnv_apply(img, cnv)
    t.check("one value per pixel", tuple(hmap.shape) == (len(on),))
    for k, p in enumerate(on):
        t.eq("map at pixel", hmap[k], _bilinear(np, ki, *place[p]), 1e-9)
    t.eq("image untouched", img, ki)
    t.eq("mask untouched", mask, km)


@harness(
    quick=[dict(dim=4, nside=4), dict(dim=4, nside=None), dict(dim=6, nside=4), dict(dim=4, nside=4, rows=6), dict(dim=5, nside=4, rows=4)],
    thorough=[dict(dim=4, nside=4, full=True), dict(dim=5, nside=4, full=True), dict(dim=6, nside=None, full=True)],
    budget=60,
)
def selected(t, dim, nside, full=False, rows=None):
    """without a list: the pixels within the radius, strictly inside of the image, with all neighbours in the mask, above the horizon"""
    np, m = t.np, t.mod(HU)
    n = 4
    rows = rows or dim
    obs = _obs(dim)
    obs["elements"] = rows
    if nside is None:
        # 12 nside^2 pixels of the size of the image's pixels: nside 4 is the next power of two
        obs["astr"]["cdelt"] = [-20.0, 16.0]
    if full:
        combos = [(r, h, c, f, k) for r in (33.0, 45.0) for h in (0, -1, None) for c in [(-1, 1), (0, 0), (1, dim - 2), (dim - 2, 1), (dim - 1, 1), (1, dim - 1)] for f in "xy" for k in (None, (1, 2), (2, 0))]
    else:
        combos = [(33.0, 0, (-1, 1), "x", None), (45.0, -1, (0, 0), "x", (1, 2)), (33.0, -1, (dim - 2, 1), "x", (2, 0)), (45.0, None, (1, 1), "x", None)]
        combos += [(45.0, 0, (1, -1), "y", (2, 0)), (33.0, 0, (1, dim - 2), "y", (1, 2)), (33.0, -1, (1, 0), "y", (1, 2)), (45.0, -1, (1, dim - 1), "y", None)]
        if rows != dim:
            combos = [(45.0, 0, (1, rows - 2), "y", (2, 0)), (45.0, 0, (1, rows - 1), "y", None), (33.0, -1, (dim - 1, 1), "x", None), (33.0, 0, (dim - 2, 2), "x", (1, 2)), (33.0, None, (0, 0), "x", None)]
    radius, hot, cell, f, out = t.choice("case", combos)
    cen = _ang2vec(60.0, -30.0, lonlat=True)
    disc = [p for p in range(12 * n * n) if numpy.dot(cen, _pix2vec(n, p)) >= numpy.cos(numpy.radians(radius))]
    place = {p: (0.25 + (0.75 * k + 0.5) % (dim - 1.5), 0.5 + (1.25 * k + 0.25) % (rows - 1.5)) for k, p in enumerate(range(12 * n * n))}
    place[disc[2]] = (dim - 1.0, 1.5)
    place[disc[3]] = (1.5, -0.5)
    place[disc[4]] = (float("nan"), float("nan"))
    hot = 5 if hot is None else disc[hot]
    f = (t.real("fx", None, 0, 0.984375), 0.5) if f == "x" else (0.25, t.real("fy", None, 0, 0.984375))
    t.split_cases()
    x, y = cell[0] + f[0], cell[1] + f[1]
    place[hot] = (x, y)
    for g in f:
        t.assume(t.Or(g == 0, g >= 1 / 64))
    up = t.real("alt", None, -5, 5)
    t.assume(t.Or(up >= 1 / 64, up <= 0))
    height = {disc[1]: -3.0, disc[6]: up}
    mask = np.ones((rows, dim))
    if out:
        mask[out] = 0
    km = mask.copy()
    on = []
    for p in disc:
        px, py = place[p]
        if not bool(t.And(px > 0, px < dim - 1, py > 0, py < rows - 1)):
            continue
        c = [int(np.floor(px)), int(np.floor(py)), int(np.ceil(px)), int(np.ceil(py))]
        if any(bool(km[j, i] == 0) for j in (c[1], c[3]) for i in (c[0], c[2])):
            continue
        if not bool(height.get(p, 40.0) > 0):
            continue
        on.append(p)
    sky = _Sky(t, n, place, height)
    cfg = {"restrict_healpix_inds": False, "healpix_inds": None}
    with _Stand(t, sky):
        cnv, obs = m.healpix_cnv_generate(obs, mask, radius, cfg, t.logger, nside=nside)
    t.check("pixels", [int(q) for q in cnv["inds"]] == on)
    t.check("nside", cnv["nside"] == n and obs["healpix"]["nside"] == n)
    t.check("reported pixels", [int(q) for q in obs["healpix"]["ind_list"]] == on and obs["healpix"]["n_pix"] == len(on))
    img = _image(t, "i", dim, False, rows)
    hmap = m.healpix_cnv_apply(img, cnv)
    for k, p in enumerate(on):
        t.eq("map at pixel", hmap[k], _bilinear(np, img, *place[p]), 1e-9)
    t.eq("mask untouched", mask, km)


@harness(
    quick=[dict(ra=60.0, dec=-30.0), dict(ra=2.0, dec=-29.0), dict(ra=40.0, dec=-10.0), dict(ra=350.0, dec=-45.0)],
    budget=30,
)
def which_list(t, ra, dec):
    """the list of the nearest field and band, at any centre frequency, unless one is configured"""
    np, m = t.np, t.mod(HU)
    place = {p: SPOTS[k] for k, p in enumerate((70, 71, 85))}
    seen = []

    def load(path, *a, **kw):
        seen.append(str(path))
        return {"hpx_inds": np.array([70, 71, 85]), "nside": 4}

    obs = _obs(4)
    obs["obsra"], obs["obsdec"] = ra, dec
    fc = t.real("fc", None, 120, 220)
    t.assume(t.Or(fc <= 166.5 - 1 / 64, fc >= 166.5 + 1 / 64))
    high = bool(fc > 166.5)
    obs["freq_center"] = fc * 1e6
    with _Stand(t, _Sky(t, 4, place, {}), load):
        m.healpix_cnv_generate(obs, np.ones((4, 4)), 10.0, {"restrict_healpix_inds": True, "healpix_inds": None}, t.logger)

    def sep(r, d):
        return numpy.dot(_ang2vec(ra, dec, lonlat=True), _ang2vec(r, d, lonlat=True))

    field = "EoR0" if sep(0.0, -30.0) > sep(60.0, -30.0) else "EoR1"
    want = "%s_%s_healpix_inds.h5" % (field, "high" if high else "low")
    t.check("list of the nearest field and band", len(seen) == 1 and seen[0].endswith(want))


@harness(
    quick=[dict(n=4, pix=5), dict(n=9, pix=4)],
    thorough=[dict(n=12, pix=8)],
    budget=30,
)
def apply(t, n, pix):
    """the map is the sum of the weights times the listed image pixels, repeated pixels add up"""
    np, m = t.np, t.mod(HU)
    shape = (2, n // 2) if n % 2 == 0 else (3, n // 3)
    img = t.real("i", shape, -8, 8)
    use = [0, n // 2, n - 1]
    ija, sa, want = [], [], [0.0] * pix
    t.split_cases()
    for k, u in enumerate(use):
        hits = [t.choice("j%d" % k, [0, 1]) + k, (2 * k + 1) % pix, k, pix - 1][: 2 + k % 3]
        w = [t.real("w%d%d" % (k, i), None, -2, 2) for i in range(len(hits))]
        ija.append(np.array(hits))
        a = np.zeros(len(hits))
        for i, x in enumerate(w):
            a[i] = x
            want[hits[i]] = want[hits[i]] + x * img[u // shape[1], u % shape[1]]
        sa.append(a)
    cnv = {"inds": np.arange(pix) + 30, "i_use": np.array(use), "ija": ija, "sa": sa}
    ki = img.copy()
    got = m.healpix_cnv_apply(img, cnv)
    t.check("one value per pixel", tuple(got.shape) == (pix,))
    for j in range(pix):
        t.eq("map", got[j], want[j], 1e-9)
    t.eq("image untouched", img, ki)


@harness(quick=[dict(n=300, dim=190)], thorough=[dict(n=70000, dim=300)], budget=60, validate=2)
def many(t, n, dim):
    """more pixels and larger images than small integers can count"""
    np, m = t.np, t.mod(HU)
    nside = 256
    inds = [400000 + 3 * k for k in range(n)]
    fx = t.real("fx", None, 0, 0.984375)
    t.assume(t.Or(fx == 0, fx >= 1 / 64))
    hot, low = inds[n - 20], inds[5]
    place = {p: (1.25 + (7.5 * k) % (dim - 4), dim - 6 + (k % 13) * 0.25) for k, p in enumerate(inds)}
    place[hot] = (dim - 2 + fx, dim - 3.5)
    up = t.real("alt", None, -5, 5)
    t.assume(t.Or(up >= 1 / 64, up <= 0))
    on = [p for p in inds if p != low or bool(up > 0)]
    sky = _Sky(t, nside, place, {low: up})
    given = np.array(inds)
    obs = _obs(dim)
    with _Stand(t, sky, lambda path, *a, **kw: given.copy()):
        cnv, obs = m.healpix_cnv_generate(obs, np.ones((dim, dim)), 10.0, {"restrict_healpix_inds": True, "healpix_inds": "/some/list.h5"}, t.logger, nside=nside)
    t.check("pixels above the horizon", [int(x) for x in cnv["inds"]] == on)
    img = np.array([[1.0 + 0.5 * ((5 * y + 3 * x) % 11) for x in range(dim)] for y in range(dim)])
    hmap = m.healpix_cnv_apply(img, cnv)
    t.check("one value per pixel", tuple(hmap.shape) == (len(on),))
    for k, p in enumerate(on):
        t.eq("map at pixel", hmap[k], _bilinear(np, img, *place[p]), 1e-9)
