"""Scalar semantics per numpy dtype over (possibly symbolic) values.

Representation of one element, by dtype kind:
  b : Python bool | z3 Bool
  u : Python int  | z3 BitVec(width)            (wraps)
  i : Python int  | z3 Int | z3 BitVec(width)   (Int values: no overflow, declared)
  f : XR
anything else: the Python object itself (never symbolic)
"""
import math
from fractions import Fraction

import numpy as np

from . import xreal
from .core import Inconclusive, b_and, b_eq, b_ite, b_not, b_or, b_xor, ctx, is_sym, to_z3bool
from .xreal import NAN, XR
from .z3boot import z3

BOOL = np.dtype(bool)
I8 = np.dtype(np.int64)
F8 = np.dtype(np.float64)


def width(dt):
    return dt.itemsize * 8


def wrap_int(v, dt):
    w = width(dt)
    v &= (1 << w) - 1
    if dt.kind == "i" and v >= 1 << (w - 1):
        v -= 1 << w
    return v


def norm(v, dt):
    """Python/numpy scalar -> internal representation for dtype dt."""
    k = dt.kind
    if k == "f":
        return v if isinstance(v, XR) else XR.of(v)
    if k == "b":
        return v if is_sym(v) else bool(v)
    if k in "ui":
        if is_sym(v):
            return v
        return wrap_int(int(v), dt)
    return v


def concrete(v):
    if isinstance(v, XR):
        return v.is_concrete()
    return not is_sym(v)


def to_py(v, dt):
    """concrete internal -> Python scalar"""
    if isinstance(v, XR):
        return v.to_float()
    return v


# ---------------------------------------------------------------- int helpers

def map_leaves(v, leaf, limit=64):
    """rebuild an if-then-else tree of constants with leaf(python int); None if v is not one"""
    cache = {}
    count = [0]

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        count[0] += 1
        if count[0] > limit:
            return None
        if z3.is_int_value(t):
            r = leaf(t.as_long())
        elif z3.is_bv_value(t):
            r = leaf(t)
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = go(t.arg(1)), None
            if a is not None:
                b = go(t.arg(2))
            r = None if a is None or b is None else z3.If(t.arg(0), a, b)
        else:
            r = None
        cache[k] = r
        return r

    return go(v)


def _bvlong(t, dt):
    if isinstance(t, int):
        return t
    return t.as_signed_long() if dt.kind == "i" else t.as_long()


def as_int(v, dt):
    """-> Python int or z3 Int"""
    if isinstance(v, int):
        return int(v)
    if z3.is_bv(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        r = map_leaves(v, lambda t: z3.IntVal(_bvlong(t, dt)))
        if r is not None:
            return r
    if z3.is_bv(v):
        if dt.kind == "u":
            return z3.BV2Int(v, False)
        return z3.BV2Int(v, True)
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def as_bv(v, dt):
    w = width(dt)
    if isinstance(v, int):
        return z3.BitVecVal(int(v), w)
    if z3.is_bv(v):
        return v
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        r = map_leaves(v, lambda t: z3.BitVecVal(t, w))
        if r is not None:
            return r
    if z3.is_app_of(v, z3.Z3_OP_BV2INT) and v.arg(0).size() == w:
        return v.arg(0)
    return z3.Int2BV(v, w)


def i_pair(a, b, dt):
    """bring two int values of one dtype to a common symbolic sort"""
    if isinstance(a, int) and isinstance(b, int):
        return a, b, "c"
    if dt.kind == "u":
        return as_bv(a, dt), as_bv(b, dt), "v"
    abv = is_sym(a) and z3.is_bv(a)
    bbv = is_sym(b) and z3.is_bv(b)
    aint = is_sym(a) and not abv
    bint = is_sym(b) and not bbv
    if aint or bint:
        x, y = as_int(a, dt), as_int(b, dt)
        x = z3.IntVal(x) if isinstance(x, int) else x
        y = z3.IntVal(y) if isinstance(y, int) else y
        return x, y, "i"
    return as_bv(a, dt), as_bv(b, dt), "v"


def i_ite(c, a, b, dt):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if dt.kind == "u":
            return z3.If(c, as_bv(a, dt), as_bv(b, dt))
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    x, y, _ = i_pair(a, b, dt)
    if x.eq(y):
        return x
    return z3.If(c, x, y)


def ite(c, a, b, dt):
    k = dt.kind
    if c is True:
        return a
    if c is False:
        return b
    if k == "f":
        return XR.ite(c, a, b)
    if k == "b":
        return b_ite(c, a, b)
    if k in "ui":
        return i_ite(c, a, b, dt)
    if a is b or a == b:
        return a
    return a if ctx().branch(c) else b


def i_add(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return wrap_int(a + b, dt)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    x, y, _ = i_pair(a, b, dt)
    return x + y


def i_sub(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return wrap_int(a - b, dt)
    if isinstance(b, int) and b == 0:
        return a
    x, y, _ = i_pair(a, b, dt)
    return x - y


def i_mul(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return wrap_int(a * b, dt)
    for p, q in ((a, b), (b, a)):
        if isinstance(p, int):
            if p == 0:
                return 0
            if p == 1:
                return q
            if is_sym(q) and z3.is_app_of(q, z3.Z3_OP_ITE):
                # flag * bool pattern: If(c, 1, 0) * k
                if z3.is_bv(q):
                    r = map_leaves(q, lambda t: as_bv(wrap_int(_bvlong(t, dt) * p, dt), dt))
                else:
                    r = map_leaves(q, lambda t: z3.IntVal(wrap_int(t * p, dt)))
                if r is not None:
                    return r
    x, y, _ = i_pair(a, b, dt)
    return x * y


def i_cmp(op, a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    x, y, s = i_pair(a, b, dt)
    if op == "eq":
        if x.eq(y):
            return True
        return x == y
    if s == "v" and dt.kind == "u":
        return z3.ULT(x, y) if op == "lt" else z3.ULE(x, y)
    return x < y if op == "lt" else x <= y


def i_bit(op, a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return wrap_int({"and": a & b, "or": a | b, "xor": a ^ b}[op], dt)
    full = (1 << width(dt)) - 1
    for p, q in ((a, b), (b, a)):
        if isinstance(p, int):
            pm = p & full
            if op == "and":
                if pm == 0:
                    return 0
                if pm == full:
                    return q
            elif pm == 0:
                return q
    x, y = as_bv(a, dt), as_bv(b, dt)
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    return x ^ y


def i_neg(a, dt):
    if isinstance(a, int):
        return wrap_int(-a, dt)
    return -a


def i_abs(a, dt):
    if isinstance(a, int):
        return wrap_int(abs(a), dt)
    if dt.kind == "u":
        return a
    return i_ite(a < 0, -a, a, dt)


def i_floordiv(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return 0 if b == 0 else wrap_int(a // b, dt)
    if dt.kind == "u":
        x, y = as_bv(a, dt), as_bv(b, dt)
        return z3.If(y == 0, z3.BitVecVal(0, width(dt)), z3.UDiv(x, y))
    x, y = as_int(a, dt), as_int(b, dt)
    return py_floordiv(x, y, guard0=True)


def py_floordiv(x, y, guard0=False):
    """floor division on mathematical ints (z3 div is Euclidean)"""
    x = z3.IntVal(x) if isinstance(x, int) else x
    if isinstance(y, int):
        if y > 0:
            return x / z3.IntVal(y)
        if y == 0:
            return z3.IntVal(0)
        return (-x) / z3.IntVal(-y)
    r = z3.If(y > 0, x / y, (-x) / (-y))
    if guard0:
        r = z3.If(y == 0, z3.IntVal(0), r)
    return r


def i_mod(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return 0 if b == 0 else wrap_int(a % b, dt)
    if dt.kind == "u":
        x, y = as_bv(a, dt), as_bv(b, dt)
        return z3.If(y == 0, z3.BitVecVal(0, width(dt)), z3.URem(x, y))
    x, y = as_int(a, dt), as_int(b, dt)
    return x - y * py_floordiv(x, y, guard0=True)


def i_shl(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return 0 if b >= width(dt) else wrap_int(a << b, dt)
    if isinstance(b, int) and not (is_sym(a) and z3.is_bv(a)):
        return a * (1 << b)
    x, y = as_bv(a, dt), as_bv(b, dt)
    return x << y


def i_shr(a, b, dt):
    if isinstance(a, int) and isinstance(b, int):
        return wrap_int(a >> min(b, 4096), dt)
    if isinstance(b, int) and not (is_sym(a) and z3.is_bv(a)):
        return py_floordiv(as_int(a, dt), 1 << b)
    x, y = as_bv(a, dt), as_bv(b, dt)
    return z3.LShR(x, y) if dt.kind == "u" else x >> y


# ---------------------------------------------------------------- casts

def cast(v, src, dst):
    sk, dk = src.kind, dst.kind
    if src == dst or dk == "O":
        return v
    if dk == "f":
        if sk == "f":
            return v
        if sk == "b":
            if isinstance(v, bool):
                return XR(Fraction(int(v)))
            return XR(z3.If(v, z3.RealVal(1), z3.RealVal(0)))
        if sk in "ui":
            if isinstance(v, int):
                return XR(Fraction(v))
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                r = map_leaves(v, lambda t: z3.RealVal(_bvlong(t, src)))
                if r is not None:
                    return XR(r)
            return XR(z3.ToReal(as_int(v, src)))
        return norm(v, dst)
    if dk == "b":
        return truth(v, src)
    if dk in "ui":
        if sk == "b":
            if isinstance(v, bool):
                return int(v)
            if dk == "u":
                return as_bv(v, dst)
            return as_int(v, dst)
        if sk in "ui":
            if isinstance(v, int):
                return wrap_int(v, dst)
            ws, wd = width(src), width(dst)
            if z3.is_bv(v):
                if ws == wd:
                    return v
                if wd < ws:
                    return z3.Extract(wd - 1, 0, v)
                return z3.ZeroExt(wd - ws, v) if sk == "u" else z3.SignExt(wd - ws, v)
            if dk == "u":
                return as_bv(v, dst)
            return v
        if sk == "f":
            if v.is_concrete():
                if v.special:
                    return 0
                return wrap_int(math.trunc(v.val), dst)
            t = v.trunc_int()
            if dk == "u":
                return as_bv(t, dst)
            return t
        return norm(v, dst)
    return v


def truth(v, dt):
    k = dt.kind
    if k == "b":
        return v
    if k == "f":
        return v.truth()
    if k in "ui":
        if isinstance(v, int):
            return v != 0
        if z3.is_bv(v):
            return v != z3.BitVecVal(0, v.size())
        return v != 0
    return bool(v)


def same(a, b, dt):
    """value identity (NaN same as NaN)"""
    k = dt.kind
    if k == "f":
        return a.same(b)
    if k == "b":
        return b_eq(a, b)
    if k in "ui":
        return i_cmp("eq", a, b, dt)
    return a == b


def eq(a, b, dt):
    if dt.kind == "f":
        return a.eq(b)
    return same(a, b, dt)


def lt(a, b, dt):
    k = dt.kind
    if k == "f":
        return a.lt(b)
    if k == "b":
        return b_and(b_not(a), b)
    return i_cmp("lt", a, b, dt)


def le(a, b, dt):
    k = dt.kind
    if k == "f":
        return a.le(b)
    if k == "b":
        return b_or(b_not(a), b)
    return i_cmp("le", a, b, dt)


def add(a, b, dt):
    k = dt.kind
    if k == "f":
        return a.add(b)
    if k == "b":
        return b_or(a, b)
    return i_add(a, b, dt)


def sub(a, b, dt):
    if dt.kind == "f":
        return a.sub(b)
    return i_sub(a, b, dt)


def mul(a, b, dt):
    k = dt.kind
    if k == "f":
        return a.mul(b)
    if k == "b":
        return b_and(a, b)
    return i_mul(a, b, dt)


def maximum(a, b, dt):
    if dt.kind == "f":
        r = XR.ite(a.lt(b), b, a)
        nan = b_or(a.nan, b.nan)
        return XR.ite(nan, NAN, r)
    return ite(lt(a, b, dt), b, a, dt)


def minimum(a, b, dt):
    if dt.kind == "f":
        r = XR.ite(b.lt(a), b, a)
        nan = b_or(a.nan, b.nan)
        return XR.ite(nan, NAN, r)
    return ite(lt(b, a, dt), b, a, dt)


def fmax(a, b, dt):
    if dt.kind != "f":
        return maximum(a, b, dt)
    return XR.ite(a.nan, b, XR.ite(b.nan, a, XR.ite(a.lt(b), b, a)))


def fmin(a, b, dt):
    if dt.kind != "f":
        return minimum(a, b, dt)
    return XR.ite(a.nan, b, XR.ite(b.nan, a, XR.ite(b.lt(a), b, a)))


_MATH = {
    "exp": math.exp, "log": math.log, "log10": math.log10, "log2": math.log2, "sin": math.sin,
    "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos,
    "arctan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "expm1": math.expm1, "log1p": math.log1p, "cbrt": math.cbrt, "exp2": math.exp2,
}


def f_uf(name, x):
    if x.is_concrete():
        return XR.of(float(getattr(np, name)(x.to_float())))
    if name == "cbrt":
        pass
    r = x.apply_uf(name)
    c = ctx()
    seen = c.__dict__.setdefault("_uf_axioms", set())
    if name in ("sin", "cos"):
        k = ("trig", xreal.zr(x.val).get_id())
        if k not in seen:
            seen.add(k)
            c.__dict__.setdefault("_keep", []).append(x.val)
            s, co = xreal.uf("sin", 1)(xreal.zr(x.val)), xreal.uf("cos", 1)(xreal.zr(x.val))
            c.define(s * s + co * co == 1)
            c.define(z3.And(s <= 1, s >= -1, co <= 1, co >= -1))
    return r


def f_pow(a, b):
    if b.is_concrete() and b.finite:
        n = b.val
        if n.denominator == 1 and abs(n) <= 64:
            if a.is_concrete() and a.finite and n < 0 and a.val == 0:
                return xreal.PINF
            return a.pow_int(int(n))
        if n == Fraction(1, 2):
            return a.sqrt()
        if n == Fraction(-1, 2):
            return xreal.ONE.div(a.sqrt())
    if a.is_concrete() and b.is_concrete():
        with np.errstate(all="ignore"):
            return XR.of(float(np.float64(a.to_float()) ** np.float64(b.to_float())))
    # finite, non-negative base assumed for the uninterpreted case (declared)
    r = a.apply_uf("pow", b)
    return r


def f_int_part(kind):
    def f(x):
        i = {
            "floor": x.floor_int, "ceil": x.ceil_int, "trunc": x.trunc_int, "rint": x.round_int,
        }[kind]()
        return x.with_int(i)

    return f


def f_floordiv(a, b):
    q = a.div(b)
    return q.with_int(q.floor_int())


def f_mod(a, b):
    q = a.div(b)
    r = a.sub(b.mul(q.with_int(q.floor_int())))
    return XR.ite(b._iszero(), NAN, r)


def f_fmod(a, b):
    q = a.div(b)
    r = a.sub(b.mul(q.with_int(q.trunc_int())))
    return XR.ite(b._iszero(), NAN, r)


def _u(fn):
    return fn


UFUNC = {}


def reg(*names):
    def d(f):
        for n in names:
            UFUNC[n] = f
        return f

    return d


# each entry: f(loop_dtype_in, *vals)
reg("add")(lambda d, a, b: add(a, b, d))
reg("subtract")(lambda d, a, b: sub(a, b, d))
reg("multiply")(lambda d, a, b: mul(a, b, d))
reg("divide", "true_divide")(lambda d, a, b: a.div(b))
reg("floor_divide")(lambda d, a, b: f_floordiv(a, b) if d.kind == "f" else i_floordiv(a, b, d))
reg("remainder", "mod")(lambda d, a, b: f_mod(a, b) if d.kind == "f" else i_mod(a, b, d))
reg("fmod")(lambda d, a, b: f_fmod(a, b) if d.kind == "f" else i_mod(a, b, d))
reg("negative")(lambda d, a: a.neg() if d.kind == "f" else i_neg(a, d))
reg("positive")(lambda d, a: a)
reg("absolute", "abs", "fabs")(
    lambda d, a: a.abs() if d.kind == "f" else (a if d.kind == "b" else i_abs(a, d))
)
reg("sign")(
    lambda d, a: a.sign()
    if d.kind == "f"
    else i_ite(lt(0, a, d), 1, i_ite(lt(a, 0, d), -1, 0, d), d)
)
reg("sqrt")(lambda d, a: a.sqrt())
reg("square")(lambda d, a: mul(a, a, d))
reg("reciprocal")(lambda d, a: xreal.ONE.div(a) if d.kind == "f" else i_floordiv(1, a, d))
reg("less")(lambda d, a, b: lt(a, b, d))
reg("less_equal")(lambda d, a, b: le(a, b, d))
reg("greater")(lambda d, a, b: lt(b, a, d))
reg("greater_equal")(lambda d, a, b: le(b, a, d))
reg("equal")(lambda d, a, b: eq(a, b, d))
reg("not_equal")(lambda d, a, b: b_not(eq(a, b, d)))
reg("logical_and")(lambda d, a, b: b_and(truth(a, d), truth(b, d)))
reg("logical_or")(lambda d, a, b: b_or(truth(a, d), truth(b, d)))
reg("logical_xor")(lambda d, a, b: b_xor(truth(a, d), truth(b, d)))
reg("logical_not")(lambda d, a: b_not(truth(a, d)))
reg("bitwise_and")(lambda d, a, b: b_and(a, b) if d.kind == "b" else i_bit("and", a, b, d))
reg("bitwise_or")(lambda d, a, b: b_or(a, b) if d.kind == "b" else i_bit("or", a, b, d))
reg("bitwise_xor")(lambda d, a, b: b_xor(a, b) if d.kind == "b" else i_bit("xor", a, b, d))
reg("invert", "bitwise_not")(
    lambda d, a: b_not(a)
    if d.kind == "b"
    else (wrap_int(~a, d) if isinstance(a, int) else ~as_bv(a, d))
)
reg("left_shift")(lambda d, a, b: i_shl(a, b, d))
reg("right_shift")(lambda d, a, b: i_shr(a, b, d))
reg("isnan")(lambda d, a: a.nan if d.kind == "f" else False)
reg("isinf")(lambda d, a: a.isinf if d.kind == "f" else False)
reg("isfinite")(lambda d, a: a.finite if d.kind == "f" else True)
reg("signbit")(lambda d, a: a._negv() if d.kind == "f" else lt(a, 0, d))
reg("maximum")(lambda d, a, b: maximum(a, b, d))
reg("minimum")(lambda d, a, b: minimum(a, b, d))
reg("fmax")(lambda d, a, b: fmax(a, b, d))
reg("fmin")(lambda d, a, b: fmin(a, b, d))
reg("power", "float_power")(
    lambda d, a, b: f_pow(a, b) if d.kind == "f" else i_pow(a, b, d)
)
for _n in ("floor", "ceil", "trunc", "rint"):
    UFUNC[_n] = (lambda g: lambda d, a: g(a) if d.kind == "f" else a)(f_int_part(_n))
for _n in _MATH:
    UFUNC[_n] = (lambda nm: lambda d, a: f_uf(nm, a))(_n)
_PI = Fraction(math.pi)
for _n in ("deg2rad", "radians"):
    UFUNC[_n] = lambda d, a: a.mul(XR(_PI / 180))
for _n in ("rad2deg", "degrees"):
    UFUNC[_n] = lambda d, a: a.mul(XR(180 / _PI))


def i_pow(a, b, d):
    if isinstance(b, int):
        if isinstance(a, int):
            return wrap_int(a**b, d)
        r = 1
        for _ in range(b):
            r = i_mul(r, a, d)
        return r
    raise Inconclusive("integer power with symbolic exponent")


def _bin_uf(name):
    def f(d, a, b):
        if a.is_concrete() and b.is_concrete():
            return XR.of(float(getattr(np, name)(a.to_float(), b.to_float())))
        if name == "hypot":
            return a.mul(a).add(b.mul(b)).sqrt()
        return a.apply_uf(name, b)

    return f


for _n in ("arctan2", "hypot", "copysign", "logaddexp"):
    UFUNC[_n] = _bin_uf(_n)
