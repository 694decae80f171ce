"""calculate_adaptive_gain."""
from symnp.spec import harness

ASSUMPTIONS = ["the convergence metrics are positive and the measured one differs from its final estimate (the prediction is defined)"]
CU = "PyFHD.calibration.calibration_utils"


@harness(
    quick=[dict(i=0, known=True), dict(i=2, known=False), dict(i=3, known=True), dict(i=3, known=False), dict(i=4, known=False), dict(i=6, known=False)],
    thorough=[dict(i=5, known=False), dict(i=7, known=False), dict(i=8, known=True)],
    budget=60,
)
def gain(t, i, known):
    """a Kalman filter of the convergence; the first three iterations use the base gain"""
    c = t.mod(CU)
    t.split_cases()
    base = t.choice("base", [1.0, 0.75, 2.0])
    n = 10
    conv, gains = [0.0] * n, [0.0] * n
    free = [0, 1, 2] if known else [t.choice("free", [0, 1, 2])]
    hot = [i - 1 - q for q in free if q < 2]
    for k in range(i):
        conv[k] = t.real(f"c{k}", None, 1e-3, 2) if k in hot else 0.75 / 2**k + 0.0625 * (k % 2)
        gains[k] = 1.0 + 0.125 * (k % 3)
    if i and 2 in free:
        gains[i - 1] = t.real("g", None, 0.5, 2)
    ca, ga = t.np.zeros(n), t.np.zeros(n)
    for k in range(n):
        ca[k], ga[k] = conv[k], gains[k]
    if i > 2:
        if known:
            final = t.choice("final", [0, 0.0625])
        else:
            est = []
            for k in range(i - 1):
                x = ((1 + gains[k]) * conv[k + 1] - conv[k]) / gains[k]
                t.assume(t.Or(x > 1e-6, x < -1e-6))
                est.append(x if bool(x > 0) else 0.0)
            est = est[max(i - 5, 0) :]
            # median by selection
            order = []
            for x in est:
                k = 0
                while k < len(order) and bool(order[k] < x):
                    k += 1
                order.insert(k, x)
            h = len(order) // 2
            final = order[h] if len(order) % 2 else (order[h - 1] + order[h]) / 2
        last = gains[i - 1]
        t.assume(t.Or(conv[i - 2] - final > 1e-3, conv[i - 2] - final < -1e-3))
        pred = (final * last + conv[i - 2]) / (base + last)
        d = (pred - conv[i - 1]) * (base + last) / (conv[i - 2] - final)
        t.assume(t.Or(d > 1e-6, d < -1e-6))
        new = (1 - (d if bool(d > 0) else -d) + last) / 2
        t.assume(t.Or(new > base / 2 + 1e-6, new < base / 2 - 1e-6))
        want = new if bool(new > base / 2) else base / 2
    else:
        want = base
    args = {"final_convergence_estimate": final if i > 2 else 0} if known else {}
    got = c.calculate_adaptive_gain(ga, ca, i, base, **args)
    t.eq("gain", got, want, 1e-8)
    t.check("never below half the base gain", bool(got >= base / 2))
    for k in range(n):
        t.eq("convergence untouched", ca[k], conv[k])
        t.eq("gain is recorded" if k == i else "earlier gains untouched", ga[k], want if k == i else gains[k], 1e-8)
