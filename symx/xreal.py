"""Extended-real model of floating point scalars.

A value is (val, nan, pinf, ninf): ``val`` a Fraction or a z3 Real term, the flags Python
bools or z3 Bools (mutually exclusive by construction).  Arithmetic is exact; rounding,
overflow, underflow and signed zero are outside the model.  NaN and the infinities follow
IEEE-754.  Nonlinear operations are exact by default; inside ``opaque_nonlinear()`` a product
or quotient of two symbolic values, and every sqrt, is an uninterpreted function instead.
"""
import math
from fractions import Fraction

from .core import b_and, b_eq, b_ite, b_not, b_or, ctx, is_sym, to_z3bool
from .z3boot import z3

OPAQUE = False
_UF = {}


def uf(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function(f"uf_{name}", *([z3.RealSort()] * (n + 1)))
    return _UF[k]


def zr(v):
    """val -> z3 Real term"""
    if isinstance(v, Fraction):
        return z3.RealVal(v) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
    return v


def v_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if isinstance(a, Fraction) and a == 0:
        return b
    if isinstance(b, Fraction) and b == 0:
        return a
    return zr(a) + zr(b)


def v_neg(a):
    if isinstance(a, Fraction):
        return -a
    return -a


def v_sub(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a - b
    if isinstance(b, Fraction) and b == 0:
        return a
    return zr(a) - zr(b)


def const_tree(v, limit=10):
    """v is an if-then-else tree with constant leaves"""
    if not z3.is_app_of(v, z3.Z3_OP_ITE):
        return False
    n = 0
    stack = [v]
    while stack:
        t = stack.pop()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            stack.append(t.arg(1))
            stack.append(t.arg(2))
            n += 1
            if n > limit:
                return False
        elif not z3.is_rational_value(t):
            return False
    return True


def map_tree(v, f):
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return v_ite(v.arg(0), map_tree(v.arg(1), f), map_tree(v.arg(2), f))
    return f(Fraction(v.numerator_as_long(), v.denominator_as_long()))


def v_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Fraction):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
            return zr(x) * y
    for x, y in ((a, b), (b, a)):
        if const_tree(x):
            return map_tree(x, lambda k: v_mul(k, y))
    if a.get_id() == b.get_id():
        r = v_square(a)
        if r is not None:
            return r
    if OPAQUE:
        if a.get_id() > b.get_id():
            a, b = b, a
        return uf("mul", 2)(a, b)
    return a * b


def v_square(a, depth=8):
    """square of a term that is (a choice between, or a multiple of) known square roots: the radicand; None otherwise"""
    if isinstance(a, Fraction):
        return a * a
    if z3.is_rational_value(a):
        return a.as_fraction() ** 2
    k = a.decl().kind()
    if k == z3.Z3_OP_ITE and depth:
        x, y = v_square(a.arg(1), depth - 1), v_square(a.arg(2), depth - 1)
        return None if x is None or y is None else v_ite(a.arg(0), x, y)
    if k == z3.Z3_OP_MUL and a.num_args() == 2 and z3.is_rational_value(a.arg(0)):
        x = v_square(a.arg(1), depth)
        return None if x is None else v_mul(a.arg(0).as_fraction() ** 2, x)
    if k == z3.Z3_OP_UNINTERPRETED:
        if a.num_args() == 1 and OPAQUE and a.decl().eq(uf("sqrt", 1)):
            return a.arg(0)
        if a.num_args() == 0:
            for v, r in ctx().__dict__.get(_SQRT_CACHE_ATTR, {}).values():
                if r.get_id() == a.get_id():
                    return v
    return None


def v_div(a, b):
    """b known (by flags) not to matter when zero"""
    if isinstance(b, Fraction):
        if b == 0:
            return Fraction(0)
        return v_mul(a, 1 / b)
    if isinstance(a, Fraction) and a == 0:
        return Fraction(0)
    if const_tree(b):
        return map_tree(b, lambda k: v_div(a, k))
    if OPAQUE:
        return uf("div", 2)(zr(a), b)
    return zr(a) / b


def v_lt(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    return zr(a) < zr(b)


def v_le(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    return zr(a) <= zr(b)


def v_eq(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if a is b:
        return True
    a, b = zr(a), zr(b)
    if a.eq(b):
        return True
    return a == b


def v_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        if a == b:
            return a
    elif not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
        return a
    return z3.If(c, zr(a), zr(b))


_SNAP = {}


def snap(f):
    """float -> the simple rational it stands for (1/3, 0.1), if within 2 ulp; otherwise its exact value"""
    r = _SNAP.get(f)
    if r is None:
        r = Fraction(f)
        if r.denominator > 1 << 20:
            q = r.limit_denominator(10000)
            if abs(q - r) <= abs(r) * Fraction(9, 2 * 10**16):
                r = q
        if len(_SNAP) < 200000:
            _SNAP[f] = r
    return r


class XR:
    __slots__ = ("val", "nan", "pinf", "ninf")

    def __init__(self, val=Fraction(0), nan=False, pinf=False, ninf=False):
        self.val = val
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    def __repr__(self):
        if self.is_concrete():
            return f"XR({self.to_float()})"
        return f"XR({self.val}, nan={self.nan}, +inf={self.pinf}, -inf={self.ninf})"

    # ---- construction
    @staticmethod
    def of(x):
        if isinstance(x, XR):
            return x
        if isinstance(x, Fraction):
            return XR(x)
        if isinstance(x, bool):
            return XR(Fraction(int(x)))
        if isinstance(x, int):
            return XR(Fraction(x))
        f = float(x)
        if math.isnan(f):
            return NAN
        if math.isinf(f):
            return PINF if f > 0 else NINF
        return XR(snap(f))

    def is_concrete(self):
        return (
            isinstance(self.val, Fraction)
            and isinstance(self.nan, bool)
            and isinstance(self.pinf, bool)
            and isinstance(self.ninf, bool)
        )

    def to_float(self):
        if self.nan is True:
            return math.nan
        if self.pinf is True:
            return math.inf
        if self.ninf is True:
            return -math.inf
        try:
            return self.val.numerator / self.val.denominator
        except OverflowError:
            return math.inf if self.val > 0 else -math.inf

    # ---- classification
    @property
    def special(self):
        return b_or(self.nan, self.pinf, self.ninf)

    @property
    def isinf(self):
        return b_or(self.pinf, self.ninf)

    @property
    def finite(self):
        return b_not(self.special)

    @property
    def noninf(self):
        return b_not(self.isinf)

    # ---- arithmetic
    def neg(self):
        return XR(v_neg(self.val), self.nan, self.ninf, self.pinf)

    def add(self, o):
        if self._fin() and o._fin():
            return XR(v_add(self.val, o.val))
        nan = b_or(self.nan, o.nan, b_and(self.pinf, o.ninf), b_and(self.ninf, o.pinf))
        nn = b_not(nan)
        return XR(
            v_add(self.val, o.val),
            nan,
            b_and(nn, b_or(self.pinf, o.pinf)),
            b_and(nn, b_or(self.ninf, o.ninf)),
        )

    def _fin(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def sub(self, o):
        if self._fin() and o._fin():
            return XR(v_sub(self.val, o.val))
        nan = b_or(self.nan, o.nan, b_and(self.pinf, o.pinf), b_and(self.ninf, o.ninf))
        nn = b_not(nan)
        return XR(
            v_sub(self.val, o.val),
            nan,
            b_and(nn, b_or(self.pinf, o.ninf)),
            b_and(nn, b_or(self.ninf, o.pinf)),
        )

    def _iszero(self):
        return b_and(self.finite, v_eq(self.val, Fraction(0)))

    def _pos(self):  # > 0 including +inf
        return b_or(self.pinf, b_and(self.finite, v_lt(Fraction(0), self.val)))

    def _negv(self):
        return b_or(self.ninf, b_and(self.finite, v_lt(self.val, Fraction(0))))

    def mul(self, o):
        if self._fin() and o._fin():
            return XR(v_mul(self.val, o.val))
        anyinf = b_or(self.isinf, o.isinf)
        if anyinf is False:
            return XR(v_mul(self.val, o.val), b_or(self.nan, o.nan))
        nan = b_or(
            self.nan, o.nan, b_and(self.isinf, o._iszero()), b_and(o.isinf, self._iszero())
        )
        nn = b_not(nan)
        pos = b_or(b_and(self._pos(), o._pos()), b_and(self._negv(), o._negv()))
        neg = b_or(b_and(self._pos(), o._negv()), b_and(self._negv(), o._pos()))
        return XR(v_mul(self.val, o.val), nan, b_and(nn, anyinf, pos), b_and(nn, anyinf, neg))

    def div(self, o):
        if isinstance(o.val, Fraction) and o.val != 0 and o._fin():
            if self._fin():
                return XR(v_div(self.val, o.val))
            if o.val > 0:
                return XR(v_div(self.val, o.val), self.nan, self.pinf, self.ninf)
            return XR(v_div(self.val, o.val), self.nan, self.ninf, self.pinf)
        ozero = o._iszero()
        nan = b_or(
            self.nan, o.nan, b_and(ozero, self._iszero()), b_and(self.isinf, o.isinf)
        )
        nn = b_not(nan)
        # division by zero: the sign of zero is not modelled, +0 assumed
        pinf = b_and(
            nn,
            b_or(
                b_and(ozero, self._pos()),
                b_and(self.pinf, b_or(o._pos(), ozero)),
                b_and(self.ninf, o._negv()),
            ),
        )
        ninf = b_and(
            nn,
            b_or(
                b_and(ozero, self._negv()),
                b_and(self.ninf, b_or(o._pos(), ozero)),
                b_and(self.pinf, o._negv()),
            ),
        )
        if o.isinf is False:
            val = v_div(self.val, o.val)
        else:
            val = v_ite(o.isinf, Fraction(0), v_div(self.val, o.val))
        return XR(val, nan, pinf, ninf)

    def abs(self):
        v = self.val
        if isinstance(v, Fraction):
            nv = abs(v)
        else:
            nv = z3.If(v < 0, -v, v)
        return XR(nv, self.nan, self.isinf, False)

    def sign(self):
        v = v_ite(self._pos(), Fraction(1), v_ite(self._negv(), Fraction(-1), Fraction(0)))
        return XR(v, self.nan)

    def sqrt(self):
        v = self.val
        neg = self._negv()
        nan = b_or(self.nan, neg)
        if isinstance(v, Fraction):
            if v <= 0:
                r = Fraction(0)
            else:
                r = _frac_sqrt(v)
        elif OPAQUE:
            r = uf("sqrt", 1)(v)
        elif (w := numeral(v)) is not None:
            r = _frac_sqrt(w) if w > 0 else Fraction(0)
        else:
            r = _sym_sqrt(v)
        return XR(r, nan, self.pinf, False)

    def pow_int(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return ONE.div(self.pow_int(-n))
        r = self
        for _ in range(n - 1):
            r = r.mul(self)
        return r

    # ---- comparison (python bool / z3 Bool)
    def lt(self, o):
        fin = b_and(self.finite, o.finite)
        notnan = b_and(b_not(self.nan), b_not(o.nan))
        return b_or(
            b_and(fin, v_lt(self.val, o.val)),
            b_and(notnan, self.ninf, b_not(o.ninf)),
            b_and(notnan, o.pinf, b_not(self.pinf)),
        )

    def le(self, o):
        fin = b_and(self.finite, o.finite)
        notnan = b_and(b_not(self.nan), b_not(o.nan))
        return b_or(
            b_and(fin, v_le(self.val, o.val)), b_and(notnan, b_or(self.ninf, o.pinf))
        )

    def eq(self, o):
        fin = b_and(self.finite, o.finite)
        return b_or(
            b_and(fin, v_eq(self.val, o.val)),
            b_and(self.pinf, o.pinf),
            b_and(self.ninf, o.ninf),
        )

    def same(self, o):
        """Identity of values: NaN is the same as NaN."""
        return b_or(b_and(self.nan, o.nan), self.eq(o))

    def close(self, o, rtol, atol):
        """Same class and |a-b| <= atol + rtol*|b|"""
        d = v_sub(self.val, o.val)
        tol = v_add(v_mul(Fraction(rtol), XR(o.val).abs().val), Fraction(atol))
        within = b_and(v_le(d, tol), v_le(v_neg(d), tol))
        return b_or(
            b_and(self.nan, o.nan),
            b_and(self.pinf, o.pinf),
            b_and(self.ninf, o.ninf),
            b_and(self.finite, o.finite, within),
        )

    def truth(self):
        return b_not(self._iszero())

    @staticmethod
    def ite(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        # the value field of a NaN or infinity is meaningless: keep the other side's so terms stay shared
        if a.nan is True or a.pinf is True or a.ninf is True:
            v = b.val
        elif b.nan is True or b.pinf is True or b.ninf is True:
            v = a.val
        else:
            v = v_ite(c, a.val, b.val)
        return XR(
            v,
            b_ite(c, a.nan, b.nan),
            b_ite(c, a.pinf, b.pinf),
            b_ite(c, a.ninf, b.ninf),
        )

    # ---- rounding to integers (Python int or z3 Int); caller ensures finiteness
    def floor_int(self):
        if isinstance(self.val, Fraction):
            return math.floor(self.val)
        return z3.ToInt(self.val)

    def trunc_int(self):
        if isinstance(self.val, Fraction):
            return math.trunc(self.val)
        v = self.val
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def ceil_int(self):
        if isinstance(self.val, Fraction):
            return math.ceil(self.val)
        return -z3.ToInt(-self.val)

    def round_int(self):
        """round half to even"""
        if isinstance(self.val, Fraction):
            return round(self.val)
        f = z3.ToInt(self.val)
        d = self.val - z3.ToReal(f)
        half = z3.Q(1, 2)
        return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))

    def with_int(self, i):
        v = Fraction(i) if isinstance(i, int) else z3.ToReal(i)
        return XR(v, self.nan, self.pinf, self.ninf)

    def apply_uf(self, name, *others):
        """Uninterpreted real function; NaN/inf inputs give NaN (declared outside the claim)."""
        args = (self,) + others
        nan = b_or(*[a.special for a in args])
        if not others and (w := numeral(self.val)) is not None and name in _PLAIN:
            x = float(w)
            if name not in ("log", "log10", "log2") or x > 0:
                return XR(Fraction(_PLAIN[name](x)), nan)
        r = uf(name, len(args))(*[zr(a.val) for a in args])
        if name == "log10":
            _log10_facts(zr(self.val), r)
        if name == "arctan":
            _arctan_facts(zr(self.val), r)
            half = Fraction(math.pi / 2)
            return XR.ite(self.pinf, XR.of(half), XR.ite(self.ninf, XR.of(-half), XR(r, self.nan)))
        return XR(r, nan)


def _arctan_facts(v, r):
    """the sign of the argument; between chord and tangent up to one, between the values at one and infinity beyond"""
    c = ctx()
    done = c.__dict__.setdefault("_arctan_done", {})
    if r.get_id() in done:
        return
    done[r.get_id()] = r
    low, high = z3.Q(785398, 1000000), z3.Q(1570797, 1000000)
    c.define(z3.Implies(z3.And(v >= 0, v <= 1), z3.And(r >= low * v, r <= v)))
    c.define(z3.Implies(z3.And(v <= 0, v >= -1), z3.And(r <= low * v, r >= v)))
    c.define(z3.Implies(v >= 1, z3.And(r >= low, r <= high)))
    c.define(z3.Implies(v <= -1, z3.And(r <= -low, r >= -high)))


def _log10_facts(v, r):
    """rising; exact at the powers of ten"""
    c = ctx()
    done = c.__dict__.setdefault("_log10_done", {})
    if r.get_id() in done:
        return
    done[r.get_id()] = r
    for k in range(5):
        c.define(z3.Implies(v >= 10**k, r >= k))
        c.define(z3.Implies(z3.And(v > 0, v <= 10**k), r <= k))


_PLAIN = {n: getattr(math, n) for n in ("exp", "log", "log10", "log2")}
_SQRT_CACHE_ATTR = "_sqrt_cache"


def _frac_sqrt(v):
    n, d = v.numerator, v.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    try:
        return Fraction(math.sqrt(v))
    except OverflowError:
        return Fraction(math.isqrt(n)) / Fraction(max(1, math.isqrt(d)))


def numeral(v):
    """the number a term simplifies to, if it does"""
    if isinstance(v, Fraction):
        return v
    k = z3.simplify(v)
    return k.as_fraction() if z3.is_rational_value(k) else None


def _sym_sqrt(v):
    c = ctx()
    cache = c.__dict__.setdefault(_SQRT_CACHE_ATTR, {})
    k = z3.simplify(v)
    kid = k.get_id()
    if kid in cache:
        return cache[kid][1]
    r = z3.Real(c.fresh("sqrt"))
    c.define(r >= 0)
    c.define(z3.Implies(v >= 0, r * r == v))
    for k2, r2 in list(cache.values())[-12:]:
        c.define(z3.Implies(k == k2, r == r2))
    c.define(z3.Implies(v < 0, r == 0))
    c.defs.append(("sqrt", k, r))
    cache[kid] = (k, r)
    return r


NAN = XR(Fraction(0), nan=True)
PINF = XR(Fraction(0), pinf=True)
NINF = XR(Fraction(0), ninf=True)
ZERO = XR(Fraction(0))
ONE = XR(Fraction(1))
