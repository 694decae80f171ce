"""split_vis_weights: even/odd time split with matched weights."""
from symnp.spec import harness

ASSUMPTIONS = ["split_vis_weights: baselines are ordered by time with the same number of baselines per time; at least one time step is used"]


def _obs(t, n_pol, n_time, per, use):
    return {"n_pol": n_pol, "n_time": n_time, "baseline_info": {"bin_offset": t.np.arange(n_time) * per, "time_use": use}}


def _pairs(use, n_time):
    """time steps paired from the first used one; a pair survives when both are used"""
    first = [k for k in range(n_time) if use[k]][0]
    out = []
    k = first
    while k + 1 < n_time:
        if use[k] and use[k + 1]:
            out.append((k, k + 1))
        k += 2
    return out


@harness(
    quick=[dict(n_time=2, per=2, n_freq=1, n_pol=2), dict(n_time=4, per=1, n_freq=1, n_pol=1), dict(n_time=4, per=2, n_freq=2, n_pol=1)],
    thorough=[dict(n_time=6, per=2, n_freq=1, n_pol=2), dict(n_time=8, per=1, n_freq=1, n_pol=1)],
    budget=50,
)
def even_number_of_times(t, n_time, per, n_freq, n_pol):
    """the first used time is even-numbered: pairs (0,1), (2,3), ..."""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    use = [int(bool(t.And(b))) for b in (t.bool("use", n_time)[k] for k in range(n_time))]
    t.assume(sum(use) > 0)
    first = use.index(1)
    t.assume(first % 2 == 0)
    w = t.real("w", (n_pol, n_freq, n_time * per), -2, 2)
    old = w.copy()
    obs = _obs(t, n_pol, n_time, per, t.np.array(use))
    out, bi = u.split_vis_weights(obs, w)
    even = [int(x) for x in bi[0]]
    odd = [int(x) for x in bi[1]]
    pairs = _pairs(use, n_time)
    t.check("even samples", even == [a * per + b for a, _ in pairs for b in range(per)])
    t.check("odd samples", odd == [c * per + b for _, c in pairs for b in range(per)])
    _weights(t, out, old, even, odd, n_pol, n_freq, n_time * per)


def _weights(t, out, old, even, odd, n_pol, n_freq, nb):
    partner = dict(zip(even, odd))
    partner.update(zip(odd, even))
    for p in range(n_pol):
        for f in range(n_freq):
            for b in range(nb):
                if b not in partner:
                    t.check("unpaired samples are flagged", out[p, f, b] == 0)
                    continue
                e, o = (b, partner[b]) if b in even else (partner[b], b)
                x, y = old[p, f, e], old[p, f, o]
                x = t.If(x > 0, x, 0)
                y = t.If(y < 1, y, 1)
                t.eq("both samples of a pair get the smaller clipped weight", out[p, f, b], t.If(x < y, x, y))


@harness(quick=[dict(n_time=3, per=1), dict(n_time=5, per=1)], thorough=[dict(n_time=5, per=2), dict(n_time=7, per=1)], budget=50)
def any_number_of_times(t, n_time, per):
    """every pair of consecutive used times, counted from the first used time, is kept and nothing else"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    use = [int(bool(t.And(b))) for b in (t.bool("use", n_time)[k] for k in range(n_time))]
    t.assume(sum(use) > 0)
    w = t.real("w", (1, 1, n_time * per), -2, 2)
    old = w.copy()
    out, bi = u.split_vis_weights(_obs(t, 1, n_time, per, t.np.array(use)), w)
    even = [int(x) for x in bi[0]]
    odd = [int(x) for x in bi[1]]
    pairs = _pairs(use, n_time)
    t.check("even times only", even == [k * per + b for k in sorted(k for p in pairs for k in p if k % 2 == 0) for b in range(per)])
    t.check("odd times only", odd == [k * per + b for k in sorted(k for p in pairs for k in p if k % 2 == 1) for b in range(per)])
    _weights(t, out, old, even, odd, 1, 1, n_time * per)


@harness(quick=[dict(per=300)], thorough=[dict(per=40000)], budget=40, validate=2)
def many(t, per):
    """more baselines than small integers can count"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    use = t.choice("use", [[1, 1, 1, 1], [0, 0, 1, 1]])
    w = t.np.array([[[0.25 + 0.5 * ((5 * b) % 7) / 4 for b in range(4 * per)]]])
    k = t.choice("one", [2 * per, 4 * per - 1])
    w[0, 0, k] = t.real("w", None, -1, 2)
    old = w.copy()
    out, bi = u.split_vis_weights(_obs(t, 1, 4, per, t.np.array(use)), w)
    even, odd = [int(x) for x in bi[0]], [int(x) for x in bi[1]]
    pairs = _pairs(use, 4)
    t.check("even samples", even == [a * per + b for a, _ in pairs for b in range(per)])
    t.check("odd samples", odd == [c * per + b for _, c in pairs for b in range(per)])
    _weights(t, out, old, even, odd, 1, 1, 4 * per)
