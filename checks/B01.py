"""gaussian_decomp, beam_image, beam_image_cube."""
import math

from symnp.spec import harness

ASSUMPTIONS = [
    "square grids of even sides; the beam is centred in it and above the threshold there",
    "one parameter of the decomposition or one kernel value is free at a time",
]
BU = "PyFHD.beam_setup.beam_utils"


def _gauss(t, par, n, npix, res):
    """spec: the sum of the lobes on a grid of n pixels, from a grid of npix and the resolution it was made at"""
    np = t.np
    out = {}
    lobes = []
    for a, ox, sx, oy, sy in par:
        shift = 0 if npix is None else n / 2 - npix / 2
        ox, oy = ox + shift, oy + shift
        if res is not None:
            ox, oy = (ox - n / 2) * res + n / 2, (oy - n / 2) * res + n / 2
            sx, sy = sx * res, sy * res
        lobes.append((a, ox, sx, oy, sy))
    for j in range(n):
        for i in range(n):
            s = 0
            for a, ox, sx, oy, sy in lobes:
                s = s + a * np.exp(-((j - oy) * (j - oy)) / (2 * sy * sy)) * np.exp(-((i - ox) * (i - ox)) / (2 * sx * sx))
            out[j, i] = s
    return out


PAR = [[1.0, 2.25, 0.75, 1.5, 1.25], [0.5, 0.5, 1.0, 2.75, 0.5], [0.25, 1.75, 0.625, 0.25, 2.0]]


@harness(
    quick=[dict(n=4, npix=None, res=None, lobes=2), dict(n=4, npix=2.5, res=1.5, lobes=2), dict(n=4, npix=7.5, res=0.5, lobes=3), dict(n=2, npix=None, res=2.0, lobes=1), dict(n=4, npix=4.0, res=None, lobes=1)],
    thorough=[dict(n=6, npix=9.5, res=0.75, lobes=3), dict(n=6, npix=3.5, res=None, lobes=2)],
    budget=40,
)
def gaussian(t, n, npix, res, lobes):
    """sum of the lobes on the grid: any amplitude, offset or width of one of them"""
    np, b = t.np, t.mod(BU)
    par = [list(p) for p in PAR[:lobes]]
    lobe, k = t.choice("hot", [(l, k) for l in range(lobes) for k in range(5)])
    par[lobe][k] = t.real("p", None, -1, 6) if k in (0, 1, 3) else t.real("p", None, 0.25, 4)
    t.split_cases()
    want = _gauss(t, par, n, npix, res)
    p = np.zeros(5 * lobes)
    for l in range(lobes):
        for k in range(5):
            p[5 * l + k] = par[l][k]
    kw = {}
    if npix is not None:
        kw["model_npix"] = npix
    if res is not None:
        kw["model_res"] = res
    got = b.gaussian_decomp(np.arange(n), np.arange(n), p, **kw)[0]
    t.check("shape", tuple(got.shape) == (n, n))
    for j, i in want:
        t.eq("beam", got[j, i], want[j, i], 1e-9)


def _wave(k, n):
    """exp(2 pi i k / n), exact where n divides 4"""
    k %= n
    if 4 % n == 0:
        return (1, 1j, -1, -1j)[k * (4 // n)]
    a = 2 * math.pi * k / n
    return complex(math.cos(a), math.sin(a))


def _psf(t, kind, n_pol, n_bin, groups, n_bl, d, hot):
    """a beam, different in every polarisation and bin; the spec of its image in one of them"""
    np = t.np
    psf = {"dim": d, "fnorm": np.array([1.0 + 0.5 * b for b in range(n_bin)]), "pix_horizon": 3.0, "id": np.zeros((n_pol, 5, n_bl), dtype="int64")}
    for b in range(n_bl):
        psf["id"][:, :, b] = ((2 * b) % groups if groups % 2 else b % groups) if groups > 1 else 1
    if kind == "gauss":
        par = {}
        g = np.zeros((n_pol, n_bin, 10))
        for p in range(n_pol):
            for b in range(n_bin):
                par[p, b] = [[1.0 + 0.25 * p + 0.5 * b] + PAR[0][1:], [0.5 - 0.125 * p + 0.25 * b] + PAR[1][1:]]
                if (p, b) == hot:
                    par[p, b][1][0] = t.real("amp", None, -2, 2)
                for l in range(2):
                    for k in range(5):
                        g[p, b, 5 * l + k] = par[p, b][l][k]
        psf["beam_gaussian_params"] = g
        return psf, lambda p, b, n: _gauss(t, par[p, b], n, 3.0 * 1.3, n / 3.0)
    val = np.zeros((n_pol, n_bin, 2, 2, d * d), dtype="complex128")
    for p in range(n_pol):
        for b in range(n_bin):
            for i in range(2):
                for j in range(2):
                    for k in range(d * d):
                        val[p, b, i, j, k] = 0.25 * ((3 * k + 5 * p + 7 * b + 2 * i + j) % 11) + 0.125j * ((k + p + b) % 5) - 0.25j
    val[hot + (0, 0, 1)] = t.complex("k", None, -2, 2)
    psf["beam_ptr"] = val
    kv = val.copy()

    def image(p, b, n):
        out, lo = {}, n // 2 - d // 2 + 1
        for y in range(n):
            for x in range(n):
                s = 0
                for v in range(d):
                    for u in range(d):
                        s = s + kv[p, b, 0, 0, v * d + u] * (_wave((lo + v - n // 2) * (y - n // 2), n) * _wave((lo + u - n // 2) * (x - n // 2), n))
                out[y, x] = s / (n * n)
        return out

    return psf, image


@harness(
    quick=[
        dict(kind="gauss", square=True, n=4),
        dict(kind="gauss", square=False, n=4),
        dict(kind="uv", square=True, n=4),
        dict(kind="uv", square=False, n=4, groups=2),
        dict(kind="gauss", square=True, n=4, groups=3),
        dict(kind="gauss", square=False, n=4, groups=2),
    ],
    thorough=[dict(kind="uv", square=True, n=6, groups=3), dict(kind="uv", square=False, n=8, d=4), dict(kind="gauss", square=True, n=6)],
    budget=60,
)
def image(t, kind, square, n, groups=1, d=2):
    """the (squared) beam of a polarisation over the used frequencies or at one: any amplitude or kernel value"""
    np, b = t.np, t.mod(BU)
    n_pol, n_bin = 2, 3
    fbin = [0, 0, 1, 1, 2]
    use = t.choice("use", [(1, 1, 1, 1, 1), (0, 1, 1, 0, 0), (1, 1, 0, 1, 1)])
    one = t.choice("freq", [None, 0, 3])
    pol = t.choice("pol", [0, 1])
    hot = (pol, 1 if one != 0 else 0)
    t.split_cases()
    psf, img = _psf(t, kind, n_pol, n_bin, groups, 3, d, hot)
    obs = {"dimension": n, "elements": n, "kpix": 0.5, "n_pol": n_pol, "baseline_info": {"fbin_i": np.array(fbin), "freq_use": np.array(use)}}
    keep = {k: v.copy() for k, v in psf.items() if hasattr(v, "copy")}
    kw = {} if one is None else {"freq_i": one}
    got = b.beam_image(psf, obs, pol, square=square, **kw)
    fs = [f for f in range(5) if use[f]] if one is None else [one]
    beams = {q: img(pol, q, n) for q in {fbin[f] for f in fs}}
    norm = sum(1.0 + 0.5 * fbin[f] for f in fs)
    t.check("shape", tuple(got.shape) == (n, n))
    for y in range(n):
        for x in range(n):
            s = 0
            for f in fs:
                v = beams[fbin[f]][y, x]
                s = s + (np.real(v * np.conj(v)) if square else np.real(v))
            t.eq("beam", got[y, x], s / norm, 1e-9)
    for k in keep:
        t.eq("%s untouched" % k, psf[k], keep[k])
