"""reshape_and_average_in_time."""
from symnp.spec import harness


@harness(quick=[dict(nf=2, nt=2, nb=2), dict(nf=1, nt=3, nb=2)], thorough=[dict(nf=2, nt=4, nb=3)], budget=30)
def weighted_sum(t, nf, nt, nb):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    v = t.complex("v", (nf, nt * nb), -8, 8)
    w = t.real("w", (nf, nt, nb), -2, 2)
    kv, kw = v.copy(), w.copy()
    out = u.reshape_and_average_in_time(v, nf, nt, nb, w)
    t.check("shape", tuple(out.shape) == (nf, nb))
    for f in range(nf):
        for b in range(nb):
            s = 0
            for k in range(nt):
                s = s + kv[f, k * nb + b] * kw[f, k, b]
            t.eq("sum over time of weight times visibility", out[f, b], s)
    t.eq("visibilities untouched", v, kv)
    t.eq("weights untouched", w, kw)


@harness(quick=[dict()], budget=30)
def wrong_weights_stop(t):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    v = t.complex("v", (2, 4))
    shape = t.choice("shape", [(2, 4), (2, 4, 1), (1, 2, 2), (2, 1, 4)])
    stopped = False
    try:
        u.reshape_and_average_in_time(v, 2, 2, 2, t.np.ones(shape))
    except SystemExit:
        stopped = True
    t.check("weights of another shape are refused", stopped)
