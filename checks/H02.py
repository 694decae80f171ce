"""array_match, idl_argunique, meshgrid, deriv_coefficients."""
from symnp.spec import harness

ASSUMPTIONS = ["array_match: integer labels, non-empty inputs; a value set that matches nothing is reported as -1"]


def _members(t, arrs, n, vals, m):
    out = []
    for i in range(n):
        out.append(t.Or(*[a[i] == vals[k] for a in arrs for k in range(m)]))
    return out


def _verify(t, got, want, n):
    if t.np.ndim(got) == 0:
        t.check("nothing matches exactly when -1", t.And(got == -1, *[t.Not(w) for w in want]))
        return
    idx = [int(x) for x in got]
    t.check("sorted, no duplicates", idx == sorted(set(idx)))
    for i in range(n):
        t.check("listed exactly when it matches", want[i] if i in idx else t.Not(want[i]))


@harness(quick=[dict(n=2, m=1, r=3), dict(n=1, m=2, r=3)], thorough=[dict(n=2, m=2, r=3), dict(n=3, m=1, r=5), dict(n=3, m=2, r=3)], budget=60)
def match_two_arrays(t, n, m, r):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a, b, v = t.int("a", n, 1, r), t.int("b", n, 1, r), t.int("v", m, 0, r + 1)
    _verify(t, u.array_match(a, v, b), _members(t, [a, b], n, v, m), n)


@harness(quick=[dict(n=3, m=1, r=3), dict(n=2, m=2, r=3)], thorough=[dict(n=4, m=2, r=4)], budget=60)
def match_one_array(t, n, m, r):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a, v = t.int("a", n, 1, r), t.int("v", m, 0, r + 1)
    _verify(t, u.array_match(a, v), _members(t, [a], n, v, m), n)


@harness(quick=[dict(n=4), dict(n=1)], thorough=[dict(n=6)], budget=40)
def last_of_each_run(t, n):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", n, -8, 8)
    for i in range(n - 1):
        t.assume(a[i] <= a[i + 1])
    got = u.idl_argunique(a)
    idx = [int(x) for x in got]
    t.check("strictly increasing", idx == sorted(set(idx)))
    for i in range(n):
        last = True if i == n - 1 else a[i] != a[i + 1]
        t.check("index kept exactly at the end of a run", last if i in idx else t.Not(last))


@harness(quick=[dict(r=4)], thorough=[dict(r=7)], budget=30)
def coordinate_grids(t, r):
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    d, e = t.choice("d", range(1, r)), t.choice("e", range(1, r))
    x, y = u.meshgrid(d, e, 1), u.meshgrid(d, e, 2)
    x1, y1 = u.meshgrid(d, 1), u.meshgrid(d, 2)
    xi = u.meshgrid(d, e, 1, return_integer=True)
    for j in range(e):
        for i in range(d):
            t.check("x is the column", t.And(x[j, i] == i, xi[j, i] == i))
            t.check("y is the row", y[j, i] == j)
    t.check("shape", tuple(x.shape) == (e, d) and tuple(y.shape) == (e, d))
    t.check("square shape", tuple(x1.shape) == (d, d) and tuple(y1.shape) == (d, d))
    t.eq("square x", x1, u.meshgrid(d, d, 1))
    t.eq("square y", y1, u.meshgrid(d, d, 2))


@harness(quick=[dict(n=k) for k in (1, 2, 3, 4)], thorough=[dict(n=k) for k in range(1, 8)], budget=30)
def derivative_coefficients(t, n):
    """n-th derivative of x^a: coefficient a (a-1) ... (a-n+1) for every a"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    a = t.real("a", None, -4, 4)
    c = u.deriv_coefficients(n)
    poly, want = 0, 1
    for k in range(n):
        poly = poly + c[k] * a ** (n - k)
        want = want * (a - k)
    t.check("falling factorial", t.near(poly, want))
    cd = u.deriv_coefficients(n, divide_factorial=True)
    f = 1
    for k in range(n):
        f *= k + 1
        t.check("divided by factorials", t.near(cd[k] * f, c[k]))


@harness(quick=[dict(n=12, big=300)], thorough=[dict(n=260, big=261), dict(n=12, big=2000), dict(n=12, big=40000)], budget=60)
def match_many(t, n, big, at=None):
    """more entries, and larger labels, than small integers can hold"""
    u = t.mod("PyFHD.pyfhd_tools.pyfhd_utils")
    rows = list(range(1, n)) + [big]
    a, b = t.np.array(rows), t.np.array([x + 1 for x in rows])
    at = t.choice("at", at or [0, n - 1])
    x = t.int("x", None, 0, 1) + (big - 1)
    a[at] = x
    v = t.np.array([3, n - 2, big])
    two = t.flag("two")
    own = [y in (3, n - 2, big) for y in rows]
    own[at] = bool(x == big)
    partner = [y + 1 in (3, n - 2, big) for y in rows] if two else [False] * n
    want = [i for i in range(n) if own[i] or partner[i]]
    got = u.array_match(a, v, b) if two else u.array_match(a, v)
    t.check("exactly the matching entries", [int(i) for i in got] == want)
    n = 700
    runs = t.np.array([min(i // 2, n // 2 - 2) * (big // n) for i in range(n)])
    ends = [i for i in range(n) if i == n - 1 or runs[i] != runs[i + 1]]
    t.check("last of each run", [int(i) for i in u.idl_argunique(runs)] == ends)
