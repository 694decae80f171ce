"""Symbolic payloads, path exploration and solver access.

A *payload* is what one array element (or scalar) holds:

  bool        python bool            or z3 BoolRef
  integer     python int             or z3 ArithRef of sort Int
  real        fractions.Fraction, float nan/+-inf ("specials"), or z3 ArithRef of sort Real
  complex     Cx(re, im) with real payloads
  object      anything else (strings, None, ...)

Floating point is modelled by exact real arithmetic plus explicit nan / inf specials.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

z3.set_param("model.completion", True)


class Unsupported(Exception):
    """An operation the symbolic executor does not model."""


class PathAbort(BaseException):
    """Stops the current path (infeasible, or assumption violated)."""


class Budget(BaseException):
    """Exploration budget for this harness used up."""


SLOW = float(__import__("os").environ.get("SYMNP_SLOW", 0))


from . import rat


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"Cx({self.re},{self.im})"

    def __deepcopy__(self, memo):
        return self


NAN = float("nan")
INF = float("inf")
ZERO = Fraction(0)
ONE = Fraction(1)
_ZR = z3.ArithRef
_ZB = z3.BoolRef


def is_z(v):
    return isinstance(v, (z3.ArithRef, z3.BoolRef))


def is_symbolic(v):
    if isinstance(v, Cx):
        return is_z(v.re) or is_z(v.im)
    return is_z(v)


def is_special(v):
    return type(v) is float


def kind_of(v):
    t = type(v)
    if t is bool:
        return "b"
    if t is int:
        return "i"
    if t is Fraction or t is float:
        return "f"
    if t is Cx:
        return "c"
    if isinstance(v, z3.BoolRef):
        return "b"
    if isinstance(v, z3.ArithRef):
        return "i" if v.is_int() else "f"
    return "O"


def from_float(x):
    """python/numpy float -> payload"""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return x
    return Fraction(x)


def zreal(v):
    """real-ish payload -> z3 Real expression"""
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        r = _consts.get(v)
        if r is None:
            if len(_consts) > 20000:
                _consts.clear()
            r = _consts[v] = z3.RealVal(f"{v.numerator}/{v.denominator}")
        return r
    raise Unsupported(f"zreal of {v!r}")


_consts = {}
z3.z3.Z3_DEBUG = False  # the bindings' own argument assertions


def zint(v):
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return v
        raise Unsupported("zint of real")
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    raise Unsupported(f"zint of {v!r}")


def zbool(v):
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


def fold(e):
    """z3 numeral -> python payload"""
    if isinstance(e, z3.IntNumRef):
        return e.as_long()
    if isinstance(e, z3.RatNumRef):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


# --------------------------------------------------------------------------
# path context


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.checks = 0
        self.concretised = 0
        self.concretised_ops = {}
        self.unsupported = {}
        self.aborted_paths = 0

    def merge(self, d):
        for k in ("queries", "solver_s", "unknown", "paths", "infeasible", "checks", "concretised", "aborted_paths"):
            setattr(self, k, getattr(self, k) + d[k])
        for key in ("concretised_ops", "unsupported"):
            for k, v in d[key].items():
                getattr(self, key)[k] = getattr(self, key).get(k, 0) + v


class Path:
    """State of one symbolic path; decisions are replayed from a prefix."""

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.trace = []
        self.ex = explorer
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.timeout_ms)
        self.known = {}
        self.fresh = 0
        self.atoms = {}
        self.sqrt_of = {}
        self.circle = []
        self.nonneg = set()
        self.fork_ite = False
        self.bounds = {}
        self.vars = {}
        self.pos = 0
        self.keep = []  # keep z3 refs alive so that ast ids stay unique
        self.last_model = None
        self.maybe_infeasible = False
        self.incomplete = 0
        self.rat = rat.Rat(self)

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        st = self.ex.stats
        if time.time() > self.ex.deadline:
            raise Budget()
        t = time.time()
        extra = [self.rat.bool(e) for e in extra]
        r = self.solver.check(*extra)
        st.queries += 1
        dt = time.time() - t
        st.solver_s += dt
        if SLOW and dt > SLOW:
            import sys, traceback

            fr = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in traceback.extract_stack() if "symnp" not in f.filename][-3:]
            print(f"slow {dt:.1f}s {r} {fr} {str(extra)[:300]!r}", file=sys.stderr, flush=True)
        if r == z3.sat:
            self.last_model = self.solver.model()
        elif r == z3.unknown:
            r = self._retry(extra)
        return r

    def _retry(self, extra):
        st = self.ex.stats
        for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "smt").solver()):
            try:
                s = mk()
                s.set("timeout", self.ex.timeout_ms)
                s.add(*self.solver.assertions())
                s.add(*extra)
                t = time.time()
                r = s.check()
                st.queries += 1
                st.solver_s += time.time() - t
                if r == z3.sat:
                    self.last_model = s.model()
                    return r
                if r == z3.unsat:
                    return r
            except z3.Z3Exception:
                pass
        st.unknown += 1
        return z3.unknown

    def _eval(self, c):
        """value under the last model; algebraic numbers are rounded (only ever a hint where to look)"""
        m = self.last_model
        if self.shadow is None or self.shadow[0] is not m:
            pairs = None
            if any(d.arity() == 0 and z3.is_algebraic_value(m[d]) for d in m.decls()):
                pairs = [(d(), v.approx(30) if z3.is_algebraic_value(v) else v) for d in m.decls() if d.arity() == 0 for v in [m[d]]]
            self.shadow = (m, pairs)
        if self.shadow[1] is None:
            return m.eval(c, model_completion=True)
        return z3.simplify(z3.substitute(c, self.shadow[1]))

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assumed False")
            return
        self.keep.append(c)
        c = self.rat.bool(c)
        self.solver.add(c)
        if self.model_valid:
            try:
                if not z3.is_true(self._eval(c)):
                    self.model_valid = False
            except z3.Z3Exception:
                self.model_valid = False

    def _next(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        return None

    def _push(self, d):
        self.trace.append(d)

    # -- branching --------------------------------------------------------
    def branch(self, cond):
        """Decide a symbolic boolean on this path."""
        if isinstance(cond, bool):
            return cond
        key = cond.get_id()
        if key in self.known:
            return self.known[key]
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key2 = s.get_id()
        if key2 in self.known:
            return self.known[key2]
        orig, cond = cond, self.rat.bool(s)
        self.keep.append(orig)
        if z3.is_true(cond) or z3.is_false(cond):
            val = z3.is_true(cond)
            self.known[key] = self.known[key2] = val
            self.keep.append(s)
            return val
        d = self._next()
        if d is not None:
            val = d[1]
            self._push(d)
            if d[0] == "B":
                self.add(cond if val else z3.Not(cond))
            # "F" forced decisions are implied, no need to add
        else:
            if time.time() > self.ex.deadline:
                raise Budget()
            # try to avoid a solver call: evaluate under last model
            can_t = can_f = None
            if self.last_model is not None and self.model_valid:
                try:
                    v = self._eval(cond)
                    if z3.is_true(v):
                        can_t = True
                    elif z3.is_false(v):
                        can_f = True
                except z3.Z3Exception:
                    pass
            m_t = self.last_model if can_t else None
            m_f = self.last_model if can_f else None
            if can_t is None:
                r = self._check(cond)
                can_t = r != z3.unsat
                if r == z3.unknown:
                    self.maybe_infeasible = True
                if r == z3.sat:
                    m_t = self.last_model
            if can_f is None:
                r = self._check(z3.Not(cond))
                can_f = r != z3.unsat
                if r == z3.unknown:
                    self.maybe_infeasible = True
                if r == z3.sat:
                    m_f = self.last_model
            if can_t and can_f:
                val = True
                self.ex.schedule(self.trace + [("B", False)])
                self._push(("B", True))
                self.add(cond)
                self.last_model, self.model_valid = m_t, m_t is not None
            elif can_t:
                val = True
                self._push(("F", True))
                self.last_model, self.model_valid = m_t, m_t is not None
            elif can_f:
                val = False
                self._push(("F", False))
                self.last_model, self.model_valid = m_f, m_f is not None
            else:
                raise PathAbort("infeasible")
        self.known[key] = val
        self.known[key2] = val
        self.keep.append(cond)
        self.keep.append(s)
        return val

    model_valid = False
    shadow = None

    def model(self):
        if self.last_model is not None and self.model_valid:
            return self.last_model
        r = self._check()
        if r == z3.unsat:
            raise PathAbort("infeasible")
        if r == z3.unknown:
            raise PathAbort("unknown feasibility")
        self.model_valid = True
        return self.last_model

    def pick(self, expr):
        """Enumerate the value of an integer/real expression (one value per path)."""
        e = z3.simplify(expr)
        f = fold(e)
        if not is_z(f):
            return f
        n = 0
        while True:
            d = self._next()
            if d is not None:
                assert d[0] == "V", d
                _, val, taken = d
                self._push(d)
                zv = z3.IntVal(val) if expr.is_int() else zreal(val)
                self.add(expr == zv if taken else expr != zv)
                if taken:
                    self.model_valid = False
                    return val
                continue
            m = self.model()
            val = fold(m.eval(expr, model_completion=True))
            if is_z(val):  # algebraic number
                val = Fraction(val.approx(20).as_fraction()) if hasattr(val, "approx") else ZERO
            zv = z3.IntVal(val) if expr.is_int() else zreal(val)
            r = self._check(expr != zv)
            if r != z3.unsat:
                nprev = 0
                for t in reversed(self.trace):
                    if t[0] == "V" and not t[2]:
                        nprev += 1
                    else:
                        break
                if nprev < self.ex.max_values:
                    self.ex.schedule(self.trace + [("V", val, False)])
                else:
                    self.ex.stats.concretised += 1
                    self.incomplete += 1
                    k = "value-cap"
                    self.ex.stats.concretised_ops[k] = self.ex.stats.concretised_ops.get(k, 0) + 1
            self._push(("V", val, True))
            self.add(expr == zv)
            self.model_valid = False
            return val

    def pin(self, expr, why):
        """Concretise without exploring the alternatives (recorded as incomplete)."""
        d = self._next()
        if d is not None:
            val = d[1]
            self._push(d)
        else:
            m = self.model()
            val = m.eval(expr, model_completion=True)
            if z3.is_bool(expr):
                val = z3.is_true(val)
            else:
                val = fold(val)
                if is_z(val):
                    val = Fraction(val.approx(20).as_fraction())
            self._push(("P", val))
        if z3.is_bool(expr):
            self.add(expr if val else z3.Not(expr))
        else:
            self.add(expr == (z3.IntVal(val) if expr.is_int() else zreal(val)))
        self.model_valid = False
        self.incomplete += 1
        self.ex.stats.concretised += 1
        self.ex.stats.concretised_ops[why] = self.ex.stats.concretised_ops.get(why, 0) + 1
        return val

    # -- fresh variables and atoms ----------------------------------------
    def fresh_real(self, name):
        self.fresh += 1
        return z3.Real(f"{name}!{self.fresh}")

    def fresh_int(self, name):
        self.fresh += 1
        return z3.Int(f"{name}!{self.fresh}")

    def fresh_bool(self, name):
        self.fresh += 1
        return z3.Bool(f"{name}!{self.fresh}")

    def atom(self, fn, args, build):
        """Memoised fresh constant per (function, canonical argument)."""
        cargs = tuple(canon(a) for a in args)
        key = (fn,) + tuple(a.get_id() if is_z(a) else a for a in cargs)
        if key not in self.atoms:
            self.keep.extend(a for a in cargs if is_z(a))
            self.atoms[key] = build()
            self.model_valid = False
        return self.atoms[key]


def canon(a):
    if is_z(a):
        if _path is not None and a.is_real() and rat.has_div(a):
            a = _path.rat.normal(a)
        s = z3.simplify(a, som=True, arith_lhs=False)
        return fold(s)
    return a


class Explorer:
    def __init__(self, deadline, timeout_ms=10000, max_paths=100000, max_values=64):
        self.stats = Stats()
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_values = max_values
        self.work = []

    def schedule(self, prefix):
        self.work.append(prefix)


_path: Path | None = None


def cur() -> Path:
    if _path is None:
        raise Unsupported("no symbolic path active")
    return _path


def set_path(p):
    global _path
    _path = p


# --------------------------------------------------------------------------
# payload arithmetic


def decide(b):
    """bool payload -> python bool (forks)"""
    if isinstance(b, z3.BoolRef):
        return cur().branch(b)
    return bool(b)


def conv(v, k):
    """convert payload to kind k (numpy casting rules, value semantic)"""
    kv = kind_of(v)
    if kv == k or k == "O" or kv == "O":
        return v
    if k == "c":
        return Cx(conv(v, "f"), ZERO)
    if kv == "c":
        return conv(v.re, k) if k != "b" else b_or(ne(v.re, ZERO), ne(v.im, ZERO))
    if k == "f":
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        return zreal(v)
    if k == "i":
        if kv == "b":
            return int(v) if isinstance(v, bool) else zint(v)
        return trunc(v)
    if k == "b":
        return ne(v, 0 if kv == "i" else ZERO)
    raise Unsupported(f"conv {kv}->{k}")


def _common(a, b):
    ka, kb = kind_of(a), kind_of(b)
    order = "bifcO"
    k = order[max(order.index(ka), order.index(kb))]
    return conv(a, k), conv(b, k), k


def r_add(a, b):
    if type(a) is float or type(b) is float:
        return special2("add", a, b)
    za, zb = is_z(a), is_z(b)
    if not za and not zb:
        return a + b
    if not za and a == 0:
        return b
    if not zb and b == 0:
        return a
    return z_(a, b) + z_(b, a)


def z_(a, other):
    if is_z(a):
        return a
    if isinstance(a, int):
        return z3.IntVal(a)
    return zreal(a)


def r_neg(a):
    return -a


def r_sub(a, b):
    if is_z(a) and is_z(b) and a.eq(b):
        return 0 if a.is_int() else ZERO
    if type(a) is float or type(b) is float:
        return special2("sub", a, b)
    za, zb = is_z(a), is_z(b)
    if not za and not zb:
        return a - b
    if not zb and b == 0:
        return a
    if not za and a == 0:
        return -b
    if za and zb and a.eq(b):
        return 0 if a.is_int() else ZERO
    return z_(a, b) - z_(b, a)


def r_mul(a, b):
    if type(a) is float or type(b) is float:
        return special2("mul", a, b)
    za, zb = is_z(a), is_z(b)
    if not za and not zb:
        return a * b
    if not za:
        if a == 0:
            return a
        if a == 1:
            return b
        if a == -1:
            return -b
    if not zb:
        if b == 0:
            return b
        if b == 1:
            return a
        if b == -1:
            return -a
    # 0/1 indicator products: keep them linear
    if za and zb:
        for x, y in ((a, b), (b, a)):
            ind = indicator(x)
            if ind is not None:
                zero = z3.IntVal(0) if y.is_int() else z3.RealVal(0)
                return z3.If(ind, y, zero)
        if a.eq(b) and not a.is_int() and _path is not None:
            sm = sqrt_mono(a)
            if sm is not None:
                return r_mul(sm[0] * sm[0], sm[1])
    return z_(a, b) * z_(b, a)


def sqrt_mono(e):
    """e == c * sqrt(X) with constant c -> (c, X)"""
    x = cur().sqrt_of.get(e.get_id())
    if x is not None:
        return ONE, x
    if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2:
        l, r = e.arg(0), e.arg(1)
        if z3.is_rational_value(r):
            l, r = r, l
        if z3.is_rational_value(l):
            s = sqrt_mono(r)
            return None if s is None else (s[0] * fold(l), s[1])
    if z3.is_app_of(e, z3.Z3_OP_DIV) and z3.is_rational_value(e.arg(1)):
        s = sqrt_mono(e.arg(0))
        return None if s is None else (s[0] / fold(e.arg(1)), s[1])
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        s = sqrt_mono(e.arg(0))
        return None if s is None else (-s[0], s[1])
    return None


def _sq_side(v):
    """square of a comparison side known to be >= 0 (constant or c*sqrt(X)), else None"""
    if not is_z(v):
        return v * v if v >= 0 else None
    sm = sqrt_mono(v)
    if sm is None or sm[0] < 0:
        return None
    return r_mul(sm[0] * sm[0], sm[1])


def _sq_plain(v):
    """square of a value which is known to be >= 0: a modulus, or by its range"""
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, x, y = v.arg(0), v.arg(1), v.arg(2)
        if z3.is_app_of(c, z3.Z3_OP_GE) and c.arg(0).eq(x) and z3.is_rational_value(c.arg(1)) and fold(c.arg(1)) == 0 and y.eq(-x):
            return r_mul(x, x)
    lo, _ = interval(v)
    if lo is not None and lo >= 0:
        return r_mul(v, v)
    return None


def indicator(x):
    """x == If(c,1,0) (possibly under to_real) -> c"""
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        x = x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        t, f = fold(x.arg(1)), fold(x.arg(2))
        if not is_z(t) and not is_z(f) and t == 1 and f == 0:
            return x.arg(0)
    return None


def sgn_special(v):
    return 0 if v != v else (1 if v > 0 else -1)


def r_sign(v):
    """sign of a real payload as python int (forks)"""
    if type(v) is float:
        return sgn_special(v)
    if not is_z(v):
        return (v > 0) - (v < 0)
    if decide(v > 0):
        return 1
    if decide(v == 0):
        return 0
    return -1


def special2(op, a, b):
    fa = a if type(a) is float else None
    fb = b if type(b) is float else None
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return NAN
    if op == "add" or op == "sub":
        if op == "sub" and fb is not None:
            fb = -fb
        if fa is not None and fb is not None:
            return fa + fb
        return fa if fa is not None else fb
    if op == "mul":
        s = r_sign(a) * r_sign(b)
        return NAN if s == 0 else s * INF
    if op == "div":
        if fa is not None and fb is not None:
            return NAN
        if fb is not None:
            return ZERO
        s = r_sign(b)
        s = 1 if s == 0 else s
        return fa * s
    raise Unsupported(op)


def r_div(a, b):
    """true division of real payloads"""
    if type(a) is float or type(b) is float:
        return special2("div", a, b)
    if isinstance(a, int):
        a = Fraction(a)
    if isinstance(b, int):
        b = Fraction(b)
    if is_z(a) and a.is_int():
        a = z3.ToReal(a)
    if is_z(b) and b.is_int():
        b = z3.ToReal(b)
    if not is_z(b):
        if b == 0:
            s = r_sign(a)
            return NAN if s == 0 else s * INF
        if not is_z(a):
            return a / b
        if b == 1:
            return a
        return a * zreal(1 / b)
    if decide(b == 0):
        s = r_sign(a)
        return NAN if s == 0 else s * INF
    if not is_z(a) and a == 0:
        return ZERO
    if is_z(a) and a.eq(b):
        return ONE
    return zreal(a) / b


def add(a, b):
    a, b, k = _common(a, b)
    if k == "b":
        return b_or(a, b)
    if k == "c":
        return Cx(r_add(a.re, b.re), r_add(a.im, b.im))
    if k == "O":
        return a + b
    return r_add(a, b)


def sub(a, b):
    a, b, k = _common(a, b)
    if k == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` operator, or the logical_xor function instead.")
    if k == "c":
        return Cx(r_sub(a.re, b.re), r_sub(a.im, b.im))
    if k == "O":
        return a - b
    return r_sub(a, b)


def mul(a, b):
    a, b, k = _common(a, b)
    if k == "b":
        return b_and(a, b)
    if k == "c":
        return Cx(r_sub(r_mul(a.re, b.re), r_mul(a.im, b.im)), r_add(r_mul(a.re, b.im), r_mul(a.im, b.re)))
    if k == "O":
        return a * b
    return r_mul(a, b)


def neg(a):
    k = kind_of(a)
    if k == "b":
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported, use the `~` operator or the logical_not function instead.")
    if k == "c":
        return Cx(r_neg(a.re), r_neg(a.im))
    return r_neg(a)


def abs2(a):
    return r_add(r_mul(a.re, a.re), r_mul(a.im, a.im))


def div(a, b):
    a, b, k = _common(a, b)
    if k == "O":
        return a / b
    if k != "c":
        return r_div(conv(a, "f"), conv(b, "f"))
    # division by a real-valued complex number
    if not is_z(b.im) and b.im == 0:
        if not is_z(a.im) and a.im == 0:
            q = r_div(a.re, b.re)
            if type(q) is float:
                return Cx(q, NAN if q != q or True else ZERO)
            return Cx(q, ZERO)
        return Cx(r_div(a.re, b.re), r_div(a.im, b.re))
    if not is_z(b.re) and b.re == 0:
        # a / (i t) = (a.im - i a.re) / t
        return Cx(r_div(a.im, b.im), r_neg(r_div(a.re, b.im)))
    n = abs2(b)
    if is_z(n) and decide(z3.And(zreal(b.re) == 0, zreal(b.im) == 0)):
        return Cx(NAN, NAN)
    num = mul(a, Cx(b.re, r_neg(b.im)))
    if is_z(n):
        cur().known[(n == 0).get_id()] = False
        zero = n == 0
        cur().keep.append(zero)
        cur().known[zero.get_id()] = False
        if not cur().ex.__dict__.get("_noaxiom"):
            cur().add(n > 0)
    return Cx(r_div(num.re, n), r_div(num.im, n))


def floordiv(a, b):
    a, b, k = _common(a, b)
    if k == "b":
        a, b, k = conv(a, "i"), conv(b, "i"), "i"
    if k == "i":
        if not is_z(a) and not is_z(b):
            if b == 0:
                return 0  # numpy warns and returns 0
            return a // b
        if is_z(b):
            if decide(b == 0):
                return 0
            if decide(b < 0):
                a, b = r_neg(a), r_neg(b)
            return zint(a) / zint(b)
        if b == 0:
            return 0
        if b < 0:
            a, b = r_neg(a), -b
        if b == 1:
            return a
        return zint(a) / zint(b)
    if k == "f":
        q = r_div(a, b)
        return floor(q)
    raise TypeError("floor_divide on complex")


def mod(a, b):
    a, b, k = _common(a, b)
    if k == "b":
        a, b, k = conv(a, "i"), conv(b, "i"), "i"
    if k == "i":
        if not is_z(a) and not is_z(b):
            return a % b if b != 0 else 0
        if is_z(b):
            if decide(b == 0):
                return 0
            if decide(b < 0):
                return r_neg(zint(r_neg(a)) % zint(r_neg(b)))
            return zint(a) % zint(b)
        if b == 0:
            return 0
        if b < 0:
            return r_neg(zint(r_neg(a)) % zint(-b))
        return zint(a) % zint(b)
    if k == "f":
        q = r_div(a, b)
        if type(q) is float:
            return NAN
        return r_sub(a, r_mul(b, floor(q)))
    raise TypeError("mod on complex")


def power(a, b):
    if kind_of(b) in "bi" and not is_z(b):
        n = int(b)
        ka = kind_of(a)
        if n < 0:
            if ka == "i":
                raise ValueError("Integers to negative integer powers are not allowed.")
            return div(ONE, power(a, -n))
        if ka == "b":
            a, ka = conv(a, "i"), "i"
        r = 1 if ka == "i" else (ONE if ka == "f" else Cx(ONE, ZERO))
        for _ in range(n):
            r = mul(r, a)
        return r
    if kind_of(b) == "f" and not is_z(b) and not is_special(b):
        if kind_of(a) in "bi":
            a = conv(a, "f")
        if b.denominator == 1:
            return power(a, int(b))
        if b.denominator == 2 and kind_of(a) != "c":
            return power(sqrt(a), b.numerator)
    if not is_symbolic(a) and not is_symbolic(b) and kind_of(a) != "c" and kind_of(b) != "c":
        try:
            return from_float(float(a) ** float(b))
        except ZeroDivisionError:
            return INF
    if kind_of(a) != "c" and not is_symbolic(a) and kind_of(b) == "i":
        return power(a, cur().pick(b))
    if kind_of(a) != "c" and not is_symbolic(a) and is_z(b) and z3.is_app_of(b, z3.Z3_OP_TO_REAL):
        return power(a, Fraction(cur().pick(b.arg(0))))
    raise Unsupported("power")


# booleans


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    a, b, k = _common(a, b)
    if k == "O":
        return a if decide(c) else b
    if k == "c":
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if not is_z(a) and not is_z(b) and a == b:
        return a
    if type(a) is float or type(b) is float:
        return a if decide(c) else b
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    kk = c.get_id()
    kn = cur().known
    if kk in kn:
        return a if kn[kk] else b
    if cur().fork_ite and k == "f":
        return a if decide(c) else b
    if k == "b":
        return z3.If(c, zbool(a), zbool(b))
    if k == "i":
        return z3.If(c, zint(a), zint(b))
    return z3.If(c, zreal(a), zreal(b))


# comparisons


def _fcmp(op, a, b):
    # at least one special
    fa = a if type(a) is float else None
    fb = b if type(b) is float else None
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return op == "ne"
    va = fa if fa is not None else 0.0
    vb = fb if fb is not None else 0.0
    return {"lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb, "eq": va == vb, "ne": va != vb}[op]


def compare(op, a, b):
    a, b, k = _common(a, b)
    if k == "O":
        return bool({"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b}[op]())
    if k == "c":
        if op == "eq":
            return b_and(compare("eq", a.re, b.re), compare("eq", a.im, b.im))
        if op == "ne":
            return b_not(compare("eq", a, b))
        strict = {"lt": "lt", "le": "lt", "gt": "gt", "ge": "gt"}[op]
        return b_or(compare(strict, a.re, b.re), b_and(compare("eq", a.re, b.re), compare(op, a.im, b.im)))
    if type(a) is float or type(b) is float:
        return _fcmp(op, a, b)
    za, zb = is_z(a), is_z(b)
    if k == "b":
        if not za and not zb:
            pass
        elif op == "eq":
            return z3.simplify(zbool(a) == zbool(b))
        elif op == "ne":
            return z3.simplify(zbool(a) != zbool(b))
        else:
            a, b = conv(a, "i"), conv(b, "i")
            za, zb = is_z(a), is_z(b)
    if not za and not zb:
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    if za and zb and a.eq(b):
        return op in ("le", "ge", "eq")
    if za and not zb:
        r = _ite_cmp(op, a, b)
        if r is not None:
            return r
    elif zb and not za:
        r = _ite_cmp({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op), b, a)
        if r is not None:
            return r
    if k == "f" and _path is not None and _path.sqrt_of:
        qa, qb = _sq_side(a), _sq_side(b)
        if qa is None and qb is not None and is_z(b):
            qa = _sq_plain(a)
        elif qb is None and qa is not None and is_z(a):
            qb = _sq_plain(b)
        if qa is None:
            qb = None
        if qb is not None:
            if not is_z(qa) and not is_z(qb):
                return compare(op, qa, qb)
            a, b = qa, qb
    a, b = z_(a, b), z_(b, a)
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "gt":
        return a > b
    if op == "ge":
        return a >= b
    if op == "eq":
        return a == b
    return a != b


def _ite_cmp(op, a, b):
    """If(c, k1, k2) <op> k  with constants: fold to c / not c / constant"""
    x = a
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        x = x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        t, f = fold(x.arg(1)), fold(x.arg(2))
        if not is_z(t) and not is_z(f):
            r1, r2 = compare(op, t, b), compare(op, f, b)
            c = x.arg(0)
            if r1 is True and r2 is True:
                return True
            if r1 is False and r2 is False:
                return False
            return c if r1 else b_not(c)
    return None


def eq(a, b):
    return compare("eq", a, b)


def ne(a, b):
    return compare("ne", a, b)


def truth(v):
    """payload -> bool payload (bool(v) / np truthiness)"""
    k = kind_of(v)
    if k == "b":
        return v
    if k == "c":
        return b_or(truth(v.re), truth(v.im))
    if k == "i":
        return ne(v, 0)
    if k == "f":
        if type(v) is float:
            return True
        return ne(v, ZERO)
    return bool(v)


def isnan(v):
    if isinstance(v, Cx):
        return isnan(v.re) or isnan(v.im)
    return type(v) is float and v != v


def isinf(v):
    if isinstance(v, Cx):
        return isinf(v.re) or isinf(v.im)
    return type(v) is float and v in (INF, -INF)


# rounding


def _certain(v, f):
    """f(v) of a non-decreasing f if the declared ranges of the inputs leave one value, else None"""
    lo, hi = interval(v)
    if lo is None or hi is None:
        return None
    a = f(Fraction(lo))
    return a if a == f(Fraction(hi)) else None


def floor_i(v):
    """floor -> integer payload"""
    if kind_of(v) in "bi":
        return conv(v, "i")
    if isinstance(v, Fraction):
        return math.floor(v)
    if type(v) is float:
        raise OverflowError("cannot convert float infinity/nan to integer")
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    c = _certain(v, math.floor)
    return z3.ToInt(v) if c is None else c


def floor(v):
    if type(v) is float:
        return v
    return conv(floor_i(v), "f") if kind_of(v) == "f" else v


def ceil_i(v):
    if kind_of(v) in "bi":
        return conv(v, "i")
    if isinstance(v, Fraction):
        return math.ceil(v)
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    c = _certain(v, math.ceil)
    return -z3.ToInt(-v) if c is None else c


def ceil(v):
    if type(v) is float:
        return v
    return conv(ceil_i(v), "f") if kind_of(v) == "f" else v


INT_MIN = -(2**63)


def trunc(v):
    """real -> integer payload (C truncation); nan/inf give INT_MIN like x86"""
    if kind_of(v) in "bi":
        return conv(v, "i")
    if isinstance(v, Fraction):
        return math.trunc(v)
    if type(v) is float:
        return INT_MIN
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    c = _certain(v, math.trunc)
    if c is not None:
        return c
    # avoid ite when the sign is already decided on the path
    return ite(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def fix(v):
    if type(v) is float:
        return v
    return conv(trunc(v), "f") if kind_of(v) == "f" else v


def rint(v, decimals=0):
    if kind_of(v) == "c":
        return Cx(rint(v.re, decimals), rint(v.im, decimals))
    if type(v) is float:
        return v
    if kind_of(v) in "bi":
        if decimals >= 0:
            return v
        v = conv(v, "f")
    if decimals != 0:
        s = Fraction(10) ** decimals
        return r_div(rint(r_mul(v, s)), s)
    if isinstance(v, Fraction):
        return Fraction(round(v))
    c = _certain(v, round)
    if c is not None:
        return Fraction(c)
    f = z3.ToInt(v)
    d = v - z3.ToReal(f)
    h = z3.Q(1, 2)
    return z3.ToReal(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))


# max / min


def maximum(a, b):
    a, b, k = _common(a, b)
    if k == "c":
        return ite(compare("ge", a, b), a, b)
    if isnan(a) or isnan(b):
        return NAN
    return ite(compare("ge", a, b), a, b)


def minimum(a, b):
    a, b, k = _common(a, b)
    if k == "c":
        return ite(compare("le", a, b), a, b)
    if isnan(a) or isnan(b):
        return NAN
    return ite(compare("le", a, b), a, b)


def absval(v):
    k = kind_of(v)
    if k == "b":
        return v
    if k == "c":
        if isnan(v):
            return NAN
        if isinf(v):
            return INF
        if not is_z(v.im) and v.im == 0:
            return absval(v.re)
        if not is_z(v.re) and v.re == 0:
            return absval(v.im)
        return sqrt(abs2(v))
    if type(v) is float:
        return abs(v)
    if not is_z(v):
        return abs(v)
    if v.is_real() and rat.has_div(v):
        v = canon(v)
        if not is_z(v):
            return abs(v)
        sg = cur().rat.term_sign(v)
        if sg:
            return v if sg > 0 else r_neg(v)
    lo, hi = interval(v)
    if lo is not None and lo >= 0:
        return v
    if hi is not None and hi <= 0:
        return r_neg(v) if kind_of(v) == "f" else -v
    return ite(v >= 0, v, -v)


def interval(e, depth=40):
    """(lower, upper) from the declared ranges of the inputs, None where unknown; sums and constant multiples only"""
    if not is_z(e):
        return (None, None) if type(e) is float else (e, e)
    p = cur()
    b = p.bounds.get(e.get_id())
    if b is not None:
        return b
    if depth == 0:
        return None, None
    r = None, None
    if z3.is_rational_value(e) or z3.is_int_value(e):
        c = fold(e)
        r = c, c
    elif z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        r = interval(e.arg(0), depth - 1)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        a, b = interval(e.arg(0), depth - 1)
        r = None if b is None else -b, None if a is None else -a
    elif z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_SUB):
        lo = hi = 0
        sub = z3.is_app_of(e, z3.Z3_OP_SUB)
        for k, c in enumerate(e.children()):
            a, b = interval(c, depth - 1)
            if sub and k:
                a, b = None if b is None else -b, None if a is None else -a
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        r = lo, hi
    elif (z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2) or z3.is_app_of(e, z3.Z3_OP_DIV):
        x, y = e.arg(0), e.arg(1)
        if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_rational_value(y):
            x, y = y, x
        k = None
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            if z3.is_rational_value(y) and fold(y) != 0:
                k, y = 1 / Fraction(fold(y)), x
        elif z3.is_rational_value(x) or z3.is_int_value(x):
            k = fold(x)
        if k is not None:
            a, b = interval(y, depth - 1)
            if k < 0:
                a, b = b, a
            r = None if a is None else a * k, None if b is None else b * k
    p.bounds[e.get_id()] = r
    p.keep.append(e)
    return r


def conj(v):
    if isinstance(v, Cx):
        return Cx(v.re, r_neg(v.im))
    return v


def sign(v):
    if kind_of(v) == "c":
        raise Unsupported("sign complex")
    if isnan(v):
        return NAN
    one, zero = (1, 0) if kind_of(v) == "i" else (ONE, ZERO)
    return ite(compare("gt", v, zero), one, ite(compare("lt", v, zero), -one, zero))


def _isqrt_exact(fr):
    n, d = fr.numerator, fr.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def sqrt(v):
    k = kind_of(v)
    if k == "c":
        raise Unsupported("sqrt complex")
    v = conv(v, "f")
    if type(v) is float:
        return NAN if v != v or v < 0 else v
    if not is_z(v):
        if v < 0:
            return NAN
        e = _isqrt_exact(v)
        return e if e is not None else Fraction(math.sqrt(v))
    root = _perfect_square(v)
    if root is None and not sum_of_squares(v) and decide(v < 0):
        return NAN
    if root is not None:
        return absval(root)
    c = canon(v)
    if is_z(c) and cur().circle:
        c = canon(cur().rat.normal(c))
    if not is_z(c):
        return sqrt(c)
    root = _perfect_square(c)
    if root is not None:
        return absval(root)
    r = _polynomial_root(c)
    if r is not None:
        return r

    def build():
        p = cur()
        y = p.fresh_real("sqrt")
        p.add(y >= 0)
        p.add(y * y == v)
        p.sqrt_of[y.get_id()] = v
        p.nonneg.add(v.get_id())
        p.keep.append(v)
        p.keep.append(y)
        return y

    return cur().atom("sqrt", (v,), build)


def _polynomial_root(c):
    """root of the square of a polynomial; roots of quotients by a square are taken of the numerator only"""
    from . import rat

    R = cur().rat
    try:
        p, q = R.form(c)
    except rat.TooBig:
        return None
    if not p:
        return ZERO
    a = R.p_sqrt(p)
    if a is None and rat.is_const(q):
        return None
    b = R.p_sqrt(q)
    if b is None:
        return None

    def const(k):
        return _isqrt_exact(k) or Fraction(math.sqrt(k))

    if a is None:
        n = sqrt(canon(R.poly(rat.p_scale(p, 1 / b[0]))))
    else:
        n = r_mul(const(a[0] / b[0]), _abs_poly(a[1]))
    return n if rat.is_const(q) else r_div(n, _abs_poly(b[1]))


def _abs_poly(p):
    R = cur().rat
    from . import rat

    if rat.is_const(p):
        return abs(rat.const(p))
    lo, hi = R.bound(p)
    e = canon(R.poly(p))
    d = R.definite(p)
    if d > 0 or (lo is not None and lo >= 0):
        return e
    if d < 0 or (hi is not None and hi <= 0):
        return r_neg(e)
    return absval(e)


def _perfect_square(c):
    if z3.is_app_of(c, z3.Z3_OP_MUL):
        args = c.children()
        k = ONE
        if z3.is_rational_value(args[0]):
            k = fold(args[0])
            args = args[1:]
            if k < 0:
                return None
            k = _isqrt_exact(k) or Fraction(math.sqrt(k))
        if len(args) == 1:
            r = _perfect_square(args[0])
            return None if r is None else r_mul(k, r)
        if len(args) == 2 and args[0].eq(args[1]):
            return r_mul(k, args[0])
    if z3.is_app_of(c, z3.Z3_OP_POWER) and z3.is_rational_value(c.arg(1)) and fold(c.arg(1)) == 2:
        return c.arg(0)
    return None


def sum_of_squares(v):
    def sq(e):
        if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
            return True
        if z3.is_rational_value(e):
            return fold(e) >= 0
        if _path is not None and e.get_id() in _path.nonneg:
            return True
        if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2:
            return sq(e.arg(0)) and sq(e.arg(1))
        if z3.is_app_of(e, z3.Z3_OP_ADD):
            return all(sq(a) for a in e.children())
        if z3.is_app_of(e, z3.Z3_OP_DIV) and z3.is_rational_value(e.arg(1)):
            return fold(e.arg(1)) > 0 and sq(e.arg(0))
        return False

    if z3.is_app_of(v, z3.Z3_OP_ADD):
        return all(sq(a) for a in v.children())
    return sq(v)


# transcendental atoms ------------------------------------------------------


def _neg_lead(e):
    """canonical sign: returns (sgn, |e|) so that f(e) can be shared with f(-e)"""
    c = canon(e)
    n = canon(-e)
    if not is_z(c):
        return (-1, -c) if c < 0 else (1, c)
    return (1, c) if c.sexpr() <= n.sexpr() else (-1, n)


def _angle_sum(theta):
    from . import rat

    path = cur()
    if not any(type(k) is tuple and k[0] == "angle-of" for k in path.atoms):
        return None
    try:
        p, q = path.rat.form(zreal(theta))
    except rat.TooBig:
        return None
    if not rat.is_const(q):
        return None
    q = rat.const(q)
    k, parts = Fraction(0), []
    for m, c in p.items():
        c = c / q
        if not m:
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            return None
        at = path.atoms.get(("angle-of", canon(path.rat.leaf[m[0][0]]).get_id()))
        if at is None:
            return None
        parts.append((at[0], at[1] if c > 0 else r_neg(at[1])))
    if not parts:
        return None
    cs, sn = (Fraction(math.cos(k)), Fraction(math.sin(k))) if k else (ONE, ZERO)
    for a, b in parts:
        cs, sn = r_add(r_mul(cs, a), r_neg(r_mul(sn, b))), r_add(r_mul(sn, a), r_mul(cs, b))
    return cs, sn


def cossin(theta):
    """(cos, sin) payload pair of a real payload"""
    theta = conv(theta, "f")
    if type(theta) is float:
        return NAN, NAN
    theta = canon(theta)
    if not is_z(theta):
        if theta == 0:
            return ONE, ZERO
        return Fraction(math.cos(theta)), Fraction(math.sin(theta))
    s, a = _neg_lead(theta)
    # angle that came from arctan2: exact
    at = cur().atoms.get(("angle-of", a.get_id()))
    if at is not None:
        c_, s_ = at
        return c_, (s_ if s > 0 else r_neg(s_))
    if s < 0:
        at = cur().atoms.get(("angle-of", canon(-a).get_id()))
        if at is not None:
            return at[0], at[1]

    # sum of such angles and a constant
    at = _angle_sum(theta)
    if at is not None:
        return at

    def build():
        p = cur()
        c_, s_ = p.fresh_real("cos"), p.fresh_real("sin")
        p.add(c_ * c_ + s_ * s_ == 1)
        p.circle.append((c_, s_, a))
        p.rat.circle(c_, s_)
        return c_, s_

    c_, s_ = cur().atom("cossin", (a,), build)
    # special value theta = 0
    key = ("cossin0", a.get_id())
    if key not in cur().atoms:
        cur().atoms[key] = True
        cur().add(z3.Implies(a == 0, z3.And(c_ == 1, s_ == 0)))
    return c_, (s_ if s > 0 else -s_)


def exp(v):
    k = kind_of(v)
    if k == "c":
        r = exp(v.re)
        c_, s_ = cossin(v.im)
        return Cx(r_mul(r, c_), r_mul(r, s_))
    v = conv(v, "f")
    if type(v) is float:
        return from_float(math.exp(v))
    v = canon(v)
    if not is_z(v):
        if v == 0:
            return ONE
        try:
            return Fraction(math.exp(v))
        except OverflowError:
            return INF
    R = cur().rat
    try:
        p, q = R.form(v)
    except rat.TooBig:
        q = ()
    if len(q) == 1:
        # a constant summand is a factor, the rest is an expanded sum
        ((m, k),) = q.items()
        c = p.get(m, 0) / k
        p = {n: x for n, x in p.items() if n != m}
        if abs(c) > 200:
            c = 0
        else:
            v = canon(r_div(R.poly(p), R.poly(q)) if m else R.poly(rat.p_scale(p, 1 / k)))
            if not is_z(v):
                return Fraction(math.exp(c + v))
        if c:
            return r_mul(Fraction(math.exp(c)), exp(v))
    s, a = _neg_lead(v)

    def build():
        p = cur()
        e = p.fresh_real("exp")
        p.add(e > 0)
        p.add(z3.Implies(a >= 0, e >= 1 + a))
        p.add(z3.Implies(a <= 0, e <= 1))
        try:
            n, d = p.rat.form(a)
            lo, hi = p.rat.bound(n) if rat.is_const(d) and rat.const(d) > 0 else (None, None)
            if lo is not None and abs(lo / rat.const(d)) < 200:
                p.add(e >= Fraction(math.exp(lo / rat.const(d)) * (1 - 1e-12)))
            if hi is not None and abs(hi / rat.const(d)) < 200:
                p.add(e <= Fraction(math.exp(hi / rat.const(d)) * (1 + 1e-12)))
        except rat.TooBig:
            pass
        for key, val in list(p.atoms.items()):
            if key[0] == "exparg":
                p.add(z3.Implies(a <= val[0], e <= val[1]))
                p.add(z3.Implies(a >= val[0], e >= val[1]))
        p.atoms[("exparg", a.get_id())] = (a, e)
        return e

    e = cur().atom("exp", (a,), build)
    return e if s > 0 else r_div(ONE, e)


def monotone(fn, pyfn, v, axioms=None):
    """uninterpreted strictly increasing function of one real"""
    v = conv(v, "f")
    if type(v) is float:
        try:
            return from_float(pyfn(v))
        except (ValueError, OverflowError):
            return NAN
    v = canon(v)
    if not is_z(v):
        try:
            return from_float(pyfn(v))
        except (ValueError, OverflowError):
            return NAN

    def build():
        p = cur()
        e = p.fresh_real(fn)
        if axioms:
            for a in axioms(v, e):
                p.add(a)
        for key, val in list(p.atoms.items()):
            if key[0] == "mono-" + fn:
                p.add(z3.Implies(v < val[0], e < val[1]))
                p.add(z3.Implies(v > val[0], e > val[1]))
                p.add(z3.Implies(v == val[0], e == val[1]))
        p.atoms[("mono-" + fn, v.get_id())] = (v, e)
        return e

    return cur().atom(fn, (v,), build)


def log(v):
    v = conv(v, "f")
    if is_z(v):
        if decide(v < 0):
            return NAN
        if decide(v == 0):
            return -INF
    elif type(v) is not float and v == 0:
        return -INF
    return monotone("log", math.log, v, lambda x, e: [z3.Implies(x == 1, e == 0), z3.Implies(x > 1, e > 0), z3.Implies(x < 1, e < 0), e <= x - 1])


def log10(v):
    v = conv(v, "f")
    if is_z(v):
        if decide(v < 0):
            return NAN
        if decide(v == 0):
            return -INF
    elif type(v) is not float and v == 0:
        return -INF

    def ax(x, e):
        out = []
        for p in range(-6, 7):
            out.append((x > zreal(Fraction(10) ** p)) == (e > p))
            out.append((x == zreal(Fraction(10) ** p)) == (e == p))
        return out

    if not is_z(v) and type(v) is not float:
        return from_float(math.log10(v))
    return monotone("log10", math.log10, v, ax)


def arctan(v):
    if kind_of(v) == "c":
        raise Unsupported("arctan complex")
    return arctan2(v, ONE)


def _const_ratio(y, x):
    from . import rat

    try:
        p, q = cur().rat.form(zreal(y))
        a, b = cur().rat.form(zreal(x))
        u, v = cur().rat.p_mul(p, b), cur().rat.p_mul(a, q)
    except rat.TooBig:
        return None
    if not v or set(u) != set(v):
        return None
    k = None
    for m in u:
        r = u[m] / v[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def _whose_angle(y, x):
    """the angle of (k cos(a), k sin(a))"""
    path = cur()
    try:
        (p, q), (r, w) = path.rat.form(zreal(x)), path.rat.form(zreal(y))
    except rat.TooBig:
        return None
    if len(p) != 1 or len(r) != 1 or not rat.is_const(q) or not rat.is_const(w):
        return None
    (m, c), (n, d) = next(iter(p.items())), next(iter(r.items()))
    c, d = c / rat.const(q), d / rat.const(w)
    for cs, sn, a in path.circle:
        if m == ((cs.get_id(), 1),) and n == ((sn.get_id(), 1),) and abs(c) == abs(d):
            lo, hi = interval(a)
            pi = Fraction(math.pi)
            if c < 0 or lo is None or hi is None or lo <= -pi or hi >= pi:
                return None
            return a if d > 0 else r_neg(a)
    return None


def arctan2(y, x):
    y, x = conv(y, "f"), conv(x, "f")
    if isnan(x) or isnan(y):
        return NAN
    if not is_z(y) and not is_z(x):
        return from_float(math.atan2(y, x))
    y, x = canon(y), canon(x)

    if not is_z(y) and not is_z(x):
        return from_float(math.atan2(y, x))
    pi = Fraction(math.pi)
    if is_z(y) and is_z(x) and cur().circle:
        a = _whose_angle(y, x)
        if a is not None:
            return a
    # axis cases are decided so that the angle is exact there
    if decide(compare("eq", y, ZERO)):
        return pi if decide(compare("lt", x, ZERO)) else ZERO
    if not is_z(x) and x == 0:
        return pi / 2 if decide(compare("gt", y, ZERO)) else -pi / 2

    if is_z(x):
        # parts in a constant ratio: the angle is constant up to half a turn
        k = _const_ratio(y, x)
        if k is not None:
            neg = decide(compare("lt", x, ZERO))
            return from_float(math.atan2(float(-k), -1.0) if neg else math.atan2(float(k), 1.0))

    def build():
        p = cur()
        t = p.fresh_real("atan2")
        r = sqrt(r_add(r_mul(x, x), r_mul(y, y)))
        p.add(zreal(r) > 0)
        c_, s_ = r_div(x, r), r_div(y, r)
        p.add(t <= zreal(pi))
        p.add(t > zreal(-pi))
        p.add((zreal(y) > 0) == (t > 0))
        p.add(z3.Implies(zreal(x) > 0, z3.And(t < zreal(pi / 2), t > zreal(-pi / 2))))
        p.add(z3.Implies(zreal(x) < 0, z3.Or(t > zreal(pi / 2), t < zreal(-pi / 2))))
        ct = canon(t)
        p.atoms[("angle-of", ct.get_id())] = (c_, s_)
        p.keep.append(ct)
        return t

    return cur().atom("atan2", (y, x), build)


def tan(v):
    c_, s_ = cossin(v)
    if not is_z(c_) and not is_z(s_):
        return from_float(math.tan(conv(v, "f")))
    return r_div(s_, c_)


def generic(fn, pyfn, *args):
    """uninterpreted function by memoised fresh constant (congruence via canonical args)"""
    args = [canon(conv(a, "f")) for a in args]
    if not any(is_z(a) for a in args):
        try:
            return from_float(pyfn(*[float(a) for a in args]))
        except (ValueError, OverflowError):
            return NAN
    return cur().atom(fn, tuple(args), lambda: cur().fresh_real(fn))
