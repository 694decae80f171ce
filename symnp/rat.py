"""Rational normal form of real terms: quotients of polynomials over the remaining (atomic) terms.

Terms with symbolic denominators are brought to P / Q, and comparisons of them to sign conditions on
polynomials, before the solver sees them. Every division was decided to have a nonzero denominator on the
path, so these are equivalences there.
"""
from __future__ import annotations

import math
import sys
from fractions import Fraction

import z3

sys.set_int_max_str_digits(0)  # exact quotients can have long numerators
sys.setrecursionlimit(10000)

ONE = Fraction(1)
CAP = 1500


class TooBig(Exception):
    pass


_div = {}  # ast id -> has a symbolic denominator
_keep = []


def has_div(e):
    r = _div.get(e.get_id())
    if r is not None:
        return r
    todo = [e]  # not recursive: sums can be thousands of terms deep
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i not in _div:
            if z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(x.arg(1)):
                _div[i] = True
            else:
                ch = x.children()
                ids = [c.get_id() for c in ch]
                if any(_div.get(k) for k in ids):
                    _div[i] = True
                else:
                    new = [c for c, k in zip(ch, ids) if k not in _div]
                    if new:
                        todo.append(new[0])
                        continue
                    _div[i] = False
            _keep.append(x)
        todo.pop()
    return _div[e.get_id()]


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const(p):
    return p.get((), Fraction(0))


class Rat:
    """normal forms for one path"""

    def __init__(self, path):
        self.path = path
        self.memo = {}
        self.leaf = {}
        self.bmemo = {}
        self.keep = []
        self.red = {}

    # -- polynomials
    def p_mul(self, a, b):
        if len(a) * len(b) > 40 * CAP:
            raise TooBig
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m_mul(m, n)
                r[k] = r.get(k, 0) + c * d
        r = {m: c for m, c in r.items() if c}
        r = self.reduce(r)
        if len(r) > CAP:
            raise TooBig
        return r

    def reduce(self, p):
        """square roots occur at most once in a monomial"""
        if not self.red:
            return p
        while True:
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.red:
                        hit = (m, v, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, v, e = hit
            c = p.pop(m)
            rest = tuple((x, y) for x, y in m if x != v)
            if e % 2:
                rest = m_mul(rest, ((v, 1),))
            t = {rest: c}
            for _ in range(e // 2):
                q = {}
                for a, x in t.items():
                    for b, y in self.red[v].items():
                        k = m_mul(a, b)
                        q[k] = q.get(k, 0) + x * y
                t = q
            p = p_add(p, {a: b for a, b in t.items() if b})
            if len(p) > CAP:
                raise TooBig

    def div_exact(self, a, b):
        """a / b if exact"""
        if is_const(b):
            return p_scale(a, 1 / const(b))
        if len(a) * len(b) > 20000:
            return None
        lead = max(b)
        lc = b[lead]
        ld = dict(lead)
        r, q = dict(a), {}
        for _ in range(200):
            if not r:
                return q
            m = max(r)
            d = dict(m)
            for v, e in ld.items():
                x = d.get(v, 0) - e
                if x < 0:
                    return None
                if x:
                    d[v] = x
                else:
                    d.pop(v, None)
            mm = tuple(sorted(d.items()))
            k = r[m] / lc
            q[mm] = q.get(mm, 0) + k
            for n, c in b.items():
                t = m_mul(mm, n)
                v = r.get(t, 0) - k * c
                if v:
                    r[t] = v
                else:
                    r.pop(t, None)
            if m in r:
                return None  # not a monomial order for this pair
        return None

    def simplify(self, p, q):
        if not p:
            return {}, {(): ONE}
        if is_const(q):
            return p_scale(p, 1 / const(q)), {(): ONE}
        # common monomial
        g = None
        for m in list(p) + list(q):
            d = dict(m)
            g = d if g is None else {v: min(e, d[v]) for v, e in g.items() if v in d}
            if not g:
                break
        if g:

            def cut(m):
                d = dict(m)
                for v, e in g.items():
                    d[v] -= e
                return tuple(sorted((v, e) for v, e in d.items() if e))

            p = {cut(m): c for m, c in p.items()}
            q = {cut(m): c for m, c in q.items()}
        if is_const(q):
            return p_scale(p, 1 / const(q)), {(): ONE}
        vs = {v for m in list(p) + list(q) for v, _ in m}
        if len(vs) == 1:
            p, q = self.uni_gcd(p, q, vs.pop())
        else:
            d = self.div_exact(p, q)
            if d is not None:
                return d, {(): ONE}
            if len(p) <= len(q):
                d = self.div_exact(q, p)
                if d is not None:
                    p, q = {(): ONE}, d
        if is_const(q):
            return p_scale(p, 1 / const(q)), {(): ONE}
        k = q[max(q)]
        return p_scale(p, 1 / k), p_scale(q, 1 / k)

    def uni_gcd(self, p, q, v):
        def vec(x):
            n = max(dict(m).get(v, 0) for m in x)
            r = [Fraction(0)] * (n + 1)
            for m, c in x.items():
                r[dict(m).get(v, 0)] += c
            return r

        def rem(a, b):
            a = a[:]
            quo = [Fraction(0)] * max(len(a) - len(b) + 1, 1)
            while len(a) >= len(b) and any(a):
                k = a[-1] / b[-1]
                s = len(a) - len(b)
                quo[s] = k
                for i, c in enumerate(b):
                    a[i + s] -= k * c
                while a and not a[-1]:
                    a.pop()
            return a, quo

        a, b = vec(p), vec(q)
        if len(a) > 40 or len(b) > 40:
            return p, q
        x, y = a, b
        while any(y):
            r, _ = rem(x, y)
            k = r[-1] if r else 1
            x, y = y, [c / k for c in r]
        if len(x) <= 1:
            return p, q
        pa, pb = rem(a, x)[1], rem(b, x)[1]
        back = lambda z: {(((v, i),) if i else ()): c for i, c in enumerate(z) if c}
        return back(pa), back(pb)

    def p_sqrt(self, p):
        """(k, r) with p = k r^2, k > 0 a constant, or None"""
        if is_const(p):
            c = const(p)
            return (c, {(): ONE}) if c > 0 else None
        if len(p) > 120 or len(p) < 3:
            if len(p) == 1:
                ((m, c),) = p.items()
                if c > 0 and all(e % 2 == 0 for _, e in m):
                    return c, {tuple((v, e // 2) for v, e in m): ONE}
            return None
        vs = sorted({v for m in p for v, _ in m})
        if any(v in self.red for v in vs):
            return None

        def vec(m):
            d = dict(m)
            return tuple(d.get(v, 0) for v in vs)

        def mono(e):
            return tuple((v, x) for v, x in zip(vs, e) if x)

        a = {vec(m): c for m, c in p.items()}
        lead = max(a)
        k = a[lead]
        low = min(a)
        if k <= 0 or any(e % 2 for e in lead) or any(e % 2 for e in low) or a[low] <= 0:
            return None
        a = {m: c / k for m, c in a.items()}
        top = tuple(e // 2 for e in lead)
        q = {top: ONE}
        a.pop(lead)
        for _ in range(60):
            if not a:
                return k, {mono(e): c for e, c in q.items()}
            m = max(a)
            e = tuple(x - y for x, y in zip(m, top))
            if min(e) < 0 or e >= top:
                return None
            c = a[m] / 2
            # a -= (q + c e)^2 - q^2
            for f, d in list(q.items()) + [(e, c / 2)]:
                g = tuple(x + y for x, y in zip(e, f))
                v = a.get(g, 0) - 2 * c * d
                if v:
                    a[g] = v
                else:
                    a.pop(g, None)
            q[e] = c
        return None

    # -- terms
    def form(self, e):
        i = e.get_id()
        r = self.memo.get(i, 0)
        if r == 0:
            r = self._form(e)
            self.memo[i] = r
            self.keep.append(e)
        return r

    def circle(self, c, s):
        """the squares of sine and cosine add up to one"""
        (m, _), (n, _) = self._leaf(s), self._leaf(c)
        ((i, _),) = next(iter(n))
        ((j, _),) = next(iter(m))
        self.red[j] = {(): ONE, ((i, 2),): -ONE}
        self.memo.clear()

    def _leaf(self, e):
        i = e.get_id()
        if i not in self.leaf:
            self.leaf[i] = e
            self.keep.append(e)
            x = self.path.sqrt_of.get(i)
            if x is not None:
                f = self.form(x)
                if is_const(f[1]) and len(f[0]) <= 12:
                    self.red[i] = p_scale(f[0], 1 / const(f[1]))
        return {((i, 1),): ONE}, {(): ONE}

    def _form(self, e):
        if z3.is_rational_value(e):
            c = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): c} if c else {}), {(): ONE}
        if z3.is_int_value(e):
            c = Fraction(e.as_long())
            return ({(): c} if c else {}), {(): ONE}
        if z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_SUB):
            s = -1 if z3.is_app_of(e, z3.Z3_OP_SUB) else 1
            p, q = self.form(e.arg(0))
            for c in e.children()[1:]:
                a, b = self.form(c)
                if q == b:
                    p = p_add(p, a, s)
                else:
                    d = self.div_exact(b, q) if not is_const(b) and not is_const(q) else None
                    if d is not None:
                        p, q = p_add(self.p_mul(p, d), a, s), b
                    else:
                        p, q = p_add(self.p_mul(p, b), self.p_mul(a, q), s), self.p_mul(q, b)
                p, q = self.simplify(p, q)
            return p, q
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            p, q = self.form(e.arg(0))
            return p_scale(p, -1), q
        if z3.is_app_of(e, z3.Z3_OP_MUL):
            p, q = self.form(e.arg(0))
            for c in e.children()[1:]:
                a, b = self.form(c)
                # cancel across first
                p, b = self.simplify(p, b) if not is_const(b) else (p, b)
                a, q = self.simplify(a, q) if not is_const(q) else (a, q)
                p, q = self.simplify(self.p_mul(p, a), self.p_mul(q, b))
            return p, q
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            p, q = self.form(e.arg(0))
            a, b = self.form(e.arg(1))
            if not a:
                return self._leaf(e)
            return self.simplify(self.p_mul(p, b), self.p_mul(q, a))
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 <= e.arg(1).numerator_as_long() <= 8:
            p, q = self.form(e.arg(0))
            rp, rq = {(): ONE}, {(): ONE}
            for _ in range(e.arg(1).numerator_as_long()):
                rp, rq = self.p_mul(rp, p), self.p_mul(rq, q)
            return rp, rq
        return self._leaf(e)

    def poly(self, p):
        ts = []
        for m in sorted(p):
            t = [z3.RealVal(str(p[m]))] if p[m] != 1 or not m else []
            for v, e in m:
                x = self.leaf[v]
                if x.is_int():
                    x = z3.ToReal(x)
                t += [x] * e
            r = t[0]
            for x in t[1:]:
                r = r * x
            ts.append(r)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def normal(self, e):
        """normalised z3 term, or e if too large"""
        try:
            p, q = self.form(e)
        except TooBig:
            return e
        r = self.poly(p)
        return r if is_const(q) else r / self.poly(q)

    # -- signs
    def bound(self, p):
        from . import core

        lo = hi = Fraction(0)
        for m, c in p.items():
            a = b = c
            for v, e in m:
                x = self.leaf[v]
                l, h = core.interval(x)
                if v in self.red or x.get_id() in self.path.sqrt_of:
                    l = max(l, 0) if l is not None else Fraction(0)
                if l is not None and l >= 0:
                    l, h = l**e, None if h is None else h**e
                elif e % 2 == 0:
                    h = max(-l, h) ** e if l is not None and h is not None else None
                    l = Fraction(0)
                elif l is None or h is None:
                    return None, None
                else:
                    l, h = (l**e, h**e)
                a, b = self._imul(a, b, l, h)
                if a is None and b is None:
                    break
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
            if lo is None and hi is None:
                break
        return lo, hi

    @staticmethod
    def _imul(a, b, l, h):
        if None not in (a, b, l, h):
            v = [a * l, a * h, b * l, b * h]
            return min(v), max(v)
        # l >= 0 with an open end
        if l is not None and l >= 0 and h is None:
            if a is not None and a >= 0:
                return a * l, None
            if b is not None and b <= 0:
                return None, b * l
            return None, None
        if l is not None and l >= 0 and h is not None:
            if a is not None and a >= 0:
                return a * l, None
            if b is not None and b <= 0:
                return None, b * l
        return None, None

    def definite(self, p):
        """1 (-1) if the polynomial in one variable is positive (negative) over the whole range of the variable"""
        from . import core

        v, deg = None, 0
        for m in p:
            if m:
                if len(m) > 1 or (v is not None and m[0][0] != v):
                    return 0
                v, deg = m[0][0], max(deg, m[0][1])
        if v is None or deg > 24 or v in self.red:
            return 0
        l, h = core.interval(self.leaf[v])
        if l is None or h is None or l >= h:
            return 0
        l, h = Fraction(l), Fraction(h)
        c = [Fraction(0)] * (deg + 1)
        for m, x in p.items():
            c[m[0][1] if m else 0] += x
        # q(u) = p(l + (h - l) u), then Bernstein coefficients on [0, 1]
        q = [Fraction(0)] * (deg + 1)
        for i, x in enumerate(c):
            if x:
                for j in range(i + 1):
                    q[j] += x * math.comb(i, j) * l ** (i - j) * (h - l) ** j
        b = [sum((Fraction(math.comb(i, j), math.comb(deg, j)) * q[j] for j in range(i + 1)), Fraction(0)) for i in range(deg + 1)]

        def sub(b, depth):
            if all(x > 0 for x in b):
                return 1
            if all(x < 0 for x in b):
                return -1
            if depth == 0 or not b[0] or not b[-1] or (b[0] > 0) != (b[-1] > 0):
                return 0
            left, right, w = [], [], list(b)
            while w:
                left.append(w[0])
                right.append(w[-1])
                w = [(x + y) / 2 for x, y in zip(w, w[1:])]
            s = sub(left, depth - 1)
            return s if s and sub(right[::-1], depth - 1) == s else 0

        return sub(b, 5)

    def sign(self, p):
        """-1, 1 or None; a nonzero polynomial value is assumed"""
        lo, hi = self.bound(p)
        if lo is not None and lo >= 0:
            return 1
        if hi is not None and hi <= 0:
            return -1
        return self.definite(p) or None

    def nonzero(self, p):
        """known not to be zero by the ranges of the inputs"""
        lo, hi = self.bound(p)
        return (lo is not None and lo > 0) or (hi is not None and hi < 0) or self.definite(p) != 0

    def term_sign(self, e):
        """1 if known to be >= 0, -1 if known to be <= 0 by the ranges of the inputs"""
        try:
            p, q = self.form(e)
        except TooBig:
            return None
        if not p:
            return 1
        a, b = self.sign(p), self.sign(q)
        return a * b if a and b else None

    def cond(self, op, a, b):
        p, q = self.form(a - b)
        if not p:
            return op in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ)
        if op == z3.Z3_OP_EQ:
            if len(p) == 1 and () not in p:
                # a product: one of the factors, and a root only where its square is
                (m,) = p
                fs = []
                for v, _ in m:
                    x = self.path.sqrt_of.get(self.leaf[v].get_id())
                    f = self.red[v] if x is not None and v in self.red else {((v, 1),): ONE}
                    if not self.nonzero(f):
                        fs.append(self.poly(f) == 0)
                return False if not fs else fs[0] if len(fs) == 1 else z3.Or(*fs)
            if self.nonzero(p):
                return False
            return self.poly(p) == 0
        if not is_const(q):
            s = self.sign(q)
            if s is None:
                p = self.p_mul(p, q)
            elif s < 0:
                p = p_scale(p, -1)
        elif const(q) < 0:
            p = p_scale(p, -1)
        k = max(abs(c) for c in p.values())
        p = p_scale(p, 1 / k)
        lo, hi = self.bound(p)
        if not (lo is not None and lo > 0) and not (hi is not None and hi < 0):
            d = self.definite(p)
            if d:
                lo, hi = (1, None) if d > 0 else (None, -1)
        if lo is not None and lo > 0:
            return op in (z3.Z3_OP_GT, z3.Z3_OP_GE)
        if hi is not None and hi < 0:
            return op in (z3.Z3_OP_LT, z3.Z3_OP_LE)
        t = self.poly(p)
        return {z3.Z3_OP_LE: t <= 0, z3.Z3_OP_GE: t >= 0, z3.Z3_OP_LT: t < 0, z3.Z3_OP_GT: t > 0}[op]

    def bool(self, e):
        """equivalent condition without symbolic denominators"""
        if not isinstance(e, z3.BoolRef) or not has_div(e):
            return e
        i = e.get_id()
        r = self.bmemo.get(i, 0)
        if isinstance(r, int):
            r = self._bool(e)
            self.bmemo[i] = r
            self.keep.append(e)
        return r

    def _bool(self, e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k == z3.Z3_OP_EQ and z3.is_bool(e.arg(0))):
            cs = [self.bool(c) for c in e.children()]
            cs = [z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]
            return {z3.Z3_OP_AND: lambda: z3.And(*cs), z3.Z3_OP_OR: lambda: z3.Or(*cs), z3.Z3_OP_NOT: lambda: z3.Not(cs[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*cs), z3.Z3_OP_XOR: lambda: z3.Xor(*cs), z3.Z3_OP_EQ: lambda: cs[0] == cs[1]}[k]()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(e.arg(0)):
            try:
                r = self.cond(k, e.arg(0), e.arg(1))
            except TooBig:
                return e
            return z3.BoolVal(r) if isinstance(r, bool) else r
        return e
