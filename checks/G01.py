"""region_grow."""
from symnp.spec import harness

ASSUMPTIONS = ["region_grow: connectivity is up/down/left/right; border pixels never belong to the result"]


def _expect(inside, shape, roi):
    """flood fill over the in-threshold pixels, border removed afterwards"""
    rows, cols = shape
    lab = {}
    n = 0
    for s in sorted(inside):
        if s in lab:
            continue
        stack = [s]
        while stack:
            p = stack.pop()
            if p in lab or p not in inside:
                continue
            lab[p] = n
            r, c = divmod(p, cols)
            if rows > 1:
                if r > 0:
                    stack.append(p - cols)
                if r < rows - 1:
                    stack.append(p + cols)
            if c > 0:
                stack.append(p - 1)
            if c < cols - 1:
                stack.append(p + 1)
        n += 1

    def border(p):
        r, c = divmod(p, cols)
        return c in (0, cols - 1) or (rows > 1 and r in (0, rows - 1))

    want = {lab[p] for p in roi if p in lab and not border(p)}
    return sorted(p for p in lab if lab[p] in want and not border(p))


@harness(
    quick=[dict(shape=(1, 6), roi=(2,)), dict(shape=(1, 6), roi=(1, 3)), dict(shape=(1, 6), roi=(0, 4)), dict(shape=(3, 4), roi=(5,), free=(1, 4, 5, 6, 7, 10)), dict(shape=(3, 5), roi=(6, 8), free=(2, 6, 7, 8, 13)), dict(shape=(3, 5), roi=(6,), free=(2, 6, 7, 8, 13)), dict(shape=(4, 5), roi=(6,), free=(6, 7, 11, 12, 13))],
    thorough=[dict(shape=(1, 8), roi=(2, 5)), dict(shape=(3, 4), roi=(5,), free=tuple(range(12))), dict(shape=(4, 4), roi=(5, 10), free=(1, 2, 4, 5, 6, 8, 9, 10, 14)), dict(shape=(3, 5), roi=(6, 8), free=tuple(range(1, 14)))],
    budget=60,
)
def explicit_threshold(t, shape, roi, free=None):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    n = shape[0] * shape[1]
    free = range(n) if free is None else free
    v = t.real("v", len(free), -4, 4)
    img = t.np.zeros(n)
    for k, p in enumerate(free):
        img[p] = v[k]
    low, high = t.choice("limits", [(1, 2), (-1, 0.5)])
    nanpos = t.choice("nan", [None, free[0], next(p for p in range(n) if p in free and p not in roi and 0 < p % shape[1] < shape[1] - 1 and p // shape[1] == shape[0] // 2)])
    if nanpos is not None:
        img[nanpos] = float("nan")
    image = img.reshape(shape) if shape[0] > 1 else img
    ref = image.flatten()
    got = u.region_grow(image, t.np.array(roi), low=low, high=high)
    inside = {p for p in range(n) if p != nanpos and bool(t.And(ref[p] >= low, ref[p] <= high))}
    want = _expect(inside, shape, roi)
    if got is None:
        t.check("nothing to grow", not want)
    else:
        t.check("connected pixels inside the threshold", sorted(int(x) for x in got) == want)


@harness(quick=[dict(n=5, roi=(2, 3)), dict(n=5, roi=(1, 3)), dict(n=6, roi=(2, 4, 1))], thorough=[dict(n=7, roi=(2, 4))], budget=60)
def threshold_from_roi(t, n, roi):
    """without limits, the region's own extremes are the limits"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    img = t.real("v", n, -4, 4)
    ref = img.copy()
    given = t.choice("given", [None, "low", "high"])
    kw = {given: 0.25} if given else {}
    got = u.region_grow(img, t.np.array(roi), **kw)
    lo, hi = ref[roi[0]], ref[roi[0]]
    for p in roi[1:]:
        lo, hi = t.If(ref[p] < lo, ref[p], lo), t.If(ref[p] > hi, ref[p], hi)
    lo, hi = kw.get("low", lo), kw.get("high", hi)
    inside = {p for p in range(n) if bool(t.And(ref[p] >= lo, ref[p] <= hi))}
    want = _expect(inside, (1, n), roi)
    t.check("grown between the region's extremes", sorted(int(x) for x in got) == want if got is not None else not want)
