"""shared by checks"""


def make_obs(t, freq, n_tile, dim, el, lo=0.0, hi=1e6, freq_use=None, ta=None, tb=None):
    return {
        "n_tile": n_tile,
        "n_freq": len(freq),
        "dimension": dim,
        "elements": el,
        "kpix": 1.0,
        "min_baseline": lo,
        "max_baseline": hi,
        "baseline_info": {
            "freq": t.np.array(freq),
            "freq_use": t.np.array(freq_use or [1] * len(freq)),
            "tile_a": t.np.array(ta or [1]),
            "tile_b": t.np.array(tb or [2]),
        },
    }


def locate(t, u, v, f, dim, el, psf):
    """spec: footprint corner, sub-pixel position; u, v already in the lower half"""
    x, y = u * f, v * f
    fx, fy = t.np.floor(x), t.np.floor(y)
    return fx + dim / 2 - (psf / 2 - 1), fy + el / 2 - (psf / 2 - 1), x - fx, y - fy


PLACES = [(0.5, -0.25), (-0.5, 0.25), (2.25, -1.5), (-1.75, 0.5), (0.5, -0.25), (3.75, -0.25)]


def like(module, name, fake):
    """the stand-in `fake` for module.name, callable the way the real function is: its keywords are put where its signature has them"""
    import functools
    import inspect

    orig = getattr(module, name, None)
    if not callable(orig) or isinstance(orig, type) or isinstance(fake, type) or not callable(fake):
        return fake
    try:
        order = [p.name for p in inspect.signature(orig).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
        own = list(inspect.signature(fake).parameters.values())
    except (TypeError, ValueError):
        return fake
    place = {p.name: i for i, p in enumerate(own) if p.kind == p.POSITIONAL_OR_KEYWORD}
    only = {p.name for p in own if p.kind == p.KEYWORD_ONLY}

    @functools.wraps(fake)
    def call(*a, **kw):
        a = list(a)
        for i in range(len(a), len(order)):
            p = order[i]
            if p not in kw or p in only or place.get(p, i) != i:
                break
            a.append(kw.pop(p))
        return fake(*a, **kw)

    return call
