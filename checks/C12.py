"""calibrate_qu_mixing."""
from symnp.spec import harness

ASSUMPTIONS = [
    "one visibility or weight is free at a time, the fitted slopes are not zero and at least two pseudo U values of positive weight differ",
]
CA = "PyFHD.calibration.calibrate"


def _conj(z):
    return z.conjugate() if hasattr(z, "conjugate") else z


@harness(
    quick=[
        dict(n_freq=2, n_time=1, n_bl=2, what="data"),
        dict(n_freq=1, n_time=2, n_bl=3, what="data"),
        dict(n_freq=2, n_time=1, n_bl=2, what="model"),
        dict(n_freq=1, n_time=2, n_bl=3, what="weight"),
        dict(n_freq=2, n_time=2, n_bl=2, what="flag"),
    ],
    thorough=[dict(n_freq=2, n_time=2, n_bl=2, what="data"), dict(n_freq=3, n_time=1, n_bl=2, what="model"), dict(n_freq=2, n_time=2, n_bl=3, what="weight")],
    budget=60,
)
def mixing(t, n_freq, n_time, n_bl, what):
    """phase between the data's and the model's slope of pseudo Q over pseudo U: any one visibility or weight"""
    np, c = t.np, t.mod(CA)
    n = n_time * n_bl
    arr = []
    for k in range(2):
        a = np.zeros((4, n_freq, n), dtype="complex128")
        for p in range(4):
            for f in range(n_freq):
                for b in range(n):
                    a[p, f, b] = 0.5 * ((5 * p + 3 * f + (2 + k) * b + 3 * k) % 11) - 2 + (0.5 * ((3 * p + 2 * f + 5 * b + k) % 7) - 1) * 1j
        arr.append(a)
    w = np.zeros((2, n_freq, n))
    for f in range(n_freq):
        for b in range(n):
            w[0, f, b] = (1.0, 0.5, 2.0, 1.0, 0.25)[(f * n + b) % 5]
            w[1, f, b] = 0.75
    hot = t.choice("hot", [(0, 0), (n_freq - 1, n - 1), (n_freq - 1, n_bl - 1)])
    if what in ("data", "model"):
        p = t.choice("pol", [0, 1, 2, 3])
        t.split_cases()
        v = t.real("v", None, -3, 3)
        arr[what == "model"][(p,) + hot] = v + 0.5j if t.flag("real") else 0.25 + 1j * v
    elif what == "weight":
        w[(0,) + hot] = t.real("w", None, -1, 2)
    else:
        # a baseline without weight at any time, a negative weight counts as none
        f, b = hot[0], hot[1] % n_bl
        for k in range(n_time):
            w[0, f, k * n_bl + b] = (0.0, -1.0)[k % 2]
        v = t.real("v", None, -3, 3)
        arr[0][1, f, b] = v + 0.5j
        q = (f, (b + 1) % n_bl)
        arr[0][3, q[0], q[1]] = 1.25j + t.real("u", None, 1, 3)
    t.split_cases()
    slopes = []
    for a in arr:
        x, y = [], []
        for f in range(n_freq):
            for b in range(n_bl):
                ws, xs, ys = 0.0, 0j, 0j
                for k in range(n_time):
                    i = k * n_bl + b
                    ww = w[0, f, i]
                    ww = 0.0 if bool(ww <= 0) else (1.0 if bool(ww >= 1) else ww)
                    ws = ws + ww
                    xs = xs + ww * (a[3, f, i] + a[2, f, i])
                    ys = ys + ww * (a[1, f, i] - a[0, f, i])
                if bool(ws == 0):
                    continue
                x.append(xs)
                y.append(ys)
        m = len(x)
        mx, my = sum(x) / m, sum(y) / m
        s = sum((_conj(p - mx) * (q - my) for p, q in zip(x, y)), 0j)
        spread = sum((_conj(p - mx) * (p - mx) for p in x), 0j)
        t.assume(np.real(spread) >= 1 / 64)
        t.assume(np.real(s * _conj(s)) >= 1 / 64)
        slopes.append(s)
    obs = {"n_freq": n_freq, "n_time": n_time, "n_baselines": n_bl}
    keep = [x.copy() for x in arr + [w]]
    got = c.calibrate_qu_mixing(arr[0], arr[1], w, obs)
    for k, (x, y) in enumerate(zip(arr + [w], keep)):
        t.eq("input %d untouched" % k, x, y)
    z = slopes[1] * _conj(slopes[0])
    turn = np.exp(1j * got)
    r = turn * _conj(z)
    t.check("the angle is that of the model's slope over the data's", np.real(r) > 0)
    t.eq("angle", np.imag(r), 0, 1e-7)
