"""weight_invert."""
from symnp.spec import harness

ASSUMPTIONS = ["weight_invert: real and complex weights (integer weights truncate and are outside the claim)"]


@harness(quick=[dict(n=3)], thorough=[dict(n=6)], budget=30)
def real_weights(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    w = t.real("w", n)
    keep = w.copy()
    inv = u.weight_invert(w, use_abs=t.flag("use_abs"))
    t.eq("input untouched", w, keep)
    for i in range(n):
        z = w[i] == 0
        t.check("zero weight gives zero", t.Implies(z, inv[i] == 0))
        t.check("otherwise the reciprocal", t.Or(z, t.near(inv[i] * w[i], 1)))
    back = u.weight_invert(inv)
    t.eq("inverting twice restores", back, w)


@harness(quick=[dict(n=3)], thorough=[dict(n=5)], budget=30)
def thresholded(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    w = t.real("w", n)
    th = t.real("th", None, -8, 8)
    ua = t.flag("use_abs")
    inv = u.weight_invert(w, threshold=th, use_abs=ua)
    for i in range(n):
        x = t.If(w[i] < 0, -w[i], w[i]) if ua else w[i]
        use = t.And(x >= th, w[i] != 0)
        t.check("below the threshold gives zero", t.Or(use, inv[i] == 0))
        t.check("otherwise the reciprocal", t.Or(t.Not(use), t.near(inv[i] * w[i], 1)))


@harness(quick=[dict(n=2)], thorough=[dict(n=4)], budget=30)
def complex_weights(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    w = t.complex("w", n, -8, 8)
    inv = u.weight_invert(w)
    for i in range(n):
        z = t.And(w[i].real == 0, w[i].imag == 0)
        t.check("zero weight gives zero", t.Implies(z, t.And(inv[i].real == 0, inv[i].imag == 0)))
        p = inv[i] * w[i]
        t.check("otherwise the reciprocal", t.Or(z, t.And(t.near(p.real, 1), t.near(p.imag, 0))))


@harness(quick=[dict(n=2)], thorough=[dict(n=3)], budget=30)
def complex_threshold(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    w = t.complex("w", n, -8, 8)
    th = t.choice("th", [1, 4])
    inv = u.weight_invert(w, threshold=th)
    for i in range(n):
        use = w[i].real * w[i].real + w[i].imag * w[i].imag >= th * th
        p = inv[i] * w[i]
        t.check("small modulus gives zero", t.Or(use, t.And(inv[i].real == 0, inv[i].imag == 0)))
        t.check("otherwise the reciprocal", t.Or(t.Not(use), t.And(t.near(p.real, 1), t.near(p.imag, 0))))


@harness(quick=[dict()], budget=30)
def not_finite(t):
    """nan and infinite weights come back as zero, their neighbours are not disturbed"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", None)
    bad = t.choice("bad", [float("nan"), float("inf"), float("-inf")])
    pos = t.choice("pos", [0, 1])
    w = t.arr([x, bad] if pos else [bad, x])
    inv = u.weight_invert(w)
    t.check("zero for a weight that is not finite", inv[pos] == 0)
    t.check("neighbour inverted", t.Or(t.And(x == 0, inv[1 - pos] == 0), t.near(inv[1 - pos] * x, 1)))


@harness(quick=[dict()], budget=30)
def scalars(t):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    x = t.real("x", None)
    a = u.weight_invert(x)
    b = u.weight_invert(t.arr([x]))
    m = u.weight_invert(t.arr([[x, x], [x, x]]))
    t.check("matrix shape kept", tuple(m.shape) == (2, 2))
    for v in (a, b, m[1, 0]):
        t.check("reciprocal or zero", t.Or(t.And(x == 0, v == 0), t.near(v * x, 1)))
