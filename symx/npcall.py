"""numpy ufuncs and functions over SymArrays."""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import arr as A
from . import scal
from .arr import (
    SymArray, SymScalar, SymSel, _mk, _np_arg, cast_obj, ctx_branch, from_np, lift, make_array,
    native, obj_from_iter, obj_full, pin_array, pyint, scalar, to_dtype,
)
from .core import Inconclusive, b_and, b_ite, b_not, b_or, ctx, has_ctx, is_sym
from .scal import BOOL, F8, I8, cast, concrete
from .xreal import NAN, ONE, XR, ZERO
from .z3boot import z3

_NOVALUE = np._NoValue


# ---------------------------------------------------------------- ufuncs

def _resolve(ufunc, ops):
    """loop dtypes for lifted operands"""
    d = []
    for o in ops:
        if o.weak in A.WEAK:
            d.append({"pyint": int, "pyfloat": float, "pybool": BOOL}[o.weak])
        else:
            d.append(native(o.dtype))
    try:
        if len(d) == 1 and d[0] in (int, float):
            d = [np.dtype("int64") if d[0] is int else F8]
        if builtins.all(isinstance(x, type) for x in d):
            # all weak: pure Python semantics
            d = [np.dtype("int64") if x is int else F8 for x in d]
        r = ufunc.resolve_dtypes(tuple(d) + (None,) * ufunc.nout)
        return r[: len(d)], r[len(d):]
    except Exception:
        zs = [
            (x(0) if isinstance(x, type) else np.empty(0, x)) for x in d
        ]
        with np.errstate(all="ignore"):
            r = ufunc(*zs)
        if ufunc.nout == 1:
            t = np.result_type(*[z for z in zs])
            return [t] * len(d), [r.dtype]
        raise


def _all_weak(ops):
    return builtins.all(o.weak for o in ops)


def call_ufunc(ufunc, method, args, kw):
    name = ufunc.__name__
    if method == "__call__":
        return _ufunc_call(ufunc, name, args, kw)
    if method == "reduce":
        return _ufunc_reduce(ufunc, name, args, kw)
    if method == "accumulate":
        return _accumulate(ufunc, name, lift(args[0]), kw.get("axis", args[1] if len(args) > 1 else 0))
    if method == "outer":
        a, b = lift(args[0]), lift(args[1])
        x = SymArray(a.o.reshape(a.shape + (1,) * b.ndim), a.dtype)
        return _ufunc_call(ufunc, name, (x, b), kw)
    if method == "at":
        a, idx = args[0], _np_arg(args[1])
        vals = args[2:] or ()
        if vals:
            v = lift(vals[0])
            ids = np.arange(a.size).reshape(a.shape)[idx]
            vb = np.broadcast_to(v.o, ids.shape) if v.ndim else obj_full(ids.shape, v.o[()])
            for ix in np.ndindex(*ids.shape):
                p = np.unravel_index(int(ids[ix]), a.shape)
                a[p] = ufunc(scalar(a.o[p], a.dtype), SymScalar(obj_full((), vb[ix]), v.dtype))
            return None
    raise Inconclusive(f"ufunc {name}.{method}")


def _ufunc_call(ufunc, name, args, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if len(args) > ufunc.nin:
        out = args[ufunc.nin:]
        args = args[: ufunc.nin]
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if out is None and where is True:
        for x in args:
            if isinstance(x, SymSel):
                i = [k for k, y in enumerate(args) if y is x][0]

                def f(*oth):
                    a2 = list(oth[:i]) + [x.data] + list(oth[i:])
                    return _ufunc_call(ufunc, name, tuple(a2), dict(kw, dtype=dtype))

                r = x.map(f, *[y for k, y in enumerate(args) if k != i])
                if r is not None:
                    return r
                break
    elif isinstance(out, SymSel):
        out = out.force()
    if name in ("matmul", "vecdot"):
        return np_matmul(*args)
    if name in ("modf", "divmod", "frexp"):
        if name == "divmod":
            return (_ufunc_call(np.floor_divide, "floor_divide", args, {}),
                    _ufunc_call(np.remainder, "remainder", args, {}))
        raise Inconclusive(name)
    ops = [lift(a) for a in args]
    if name not in scal.UFUNC:
        return _fallback(ufunc, args, dict(kw, out=out) if out is not None else kw)
    din, dout = _resolve(ufunc, ops)
    if dtype is not None:
        din = [to_dtype(dtype)] * len(din)
        dout = [to_dtype(dtype)]
    if din[0].kind == "O" or any(d.kind not in "buif" for d in din):
        if name in ("equal", "not_equal", "add", "multiply", "less", "greater", "less_equal", "greater_equal"):
            return _fallback(ufunc, args, kw)
    if out is not None:
        od = native(out.dtype)
        if not np.can_cast(dout[0], od, casting="same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", dout[0], od, 0) if hasattr(np._core, "_exceptions") else TypeError("cast")
    f = scal.UFUNC[name]
    objs = []
    for o, d in zip(ops, din):
        s = native(o.dtype)
        if o.weak == "pyint" and d.kind == "u" and isinstance(o.o[()], int) and o.o[()] < 0:
            if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
                pass
            else:
                raise OverflowError(f"Python integer {o.o[()]} out of bounds for {d}")
        if o.weak == "pyint" and d.kind in "ui" and isinstance(o.o[()], int) and name not in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            ii = np.iinfo(d)
            if not ii.min <= o.o[()] <= ii.max:
                raise OverflowError(f"Python integer {o.o[()]} out of bounds for {d}")
        objs.append(o.o if s == d else cast_obj(o.o, s, d))
    bs = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = bs[0].shape
    if out is not None and out.shape != shape:
        shape2 = np.broadcast_shapes(out.shape, shape)
        if shape2 != out.shape:
            raise ValueError(
                f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape {shape2}"
            )
        bs = [np.broadcast_to(b, out.shape) for b in bs]
        shape = out.shape
    res = np.empty(shape, dtype=object)
    d0 = din[0]
    wm = None
    if where is not True:
        w = lift(where)
        wm = np.broadcast_to(w.o, shape)
    if len(bs) == 1:
        for ix in np.ndindex(*shape):
            res[ix] = f(d0, bs[0][ix])
    elif len(bs) == 2:
        b0, b1 = bs
        if name in ("left_shift", "right_shift") or True:
            for ix in np.ndindex(*shape):
                res[ix] = f(d0, b0[ix], b1[ix])
    else:
        for ix in np.ndindex(*shape):
            res[ix] = f(d0, *[b[ix] for b in bs])
    rdt = dout[0]
    if out is not None:
        od = native(out.dtype)
        if od != rdt:
            res = cast_obj(res, rdt, od)
        if wm is not None:
            for ix in np.ndindex(*shape):
                res[ix] = scal.ite(wm[ix], res[ix], out.o[ix], od)
        out.o[...] = res
        return out
    if wm is not None:
        for ix in np.ndindex(*shape):
            if wm[ix] is not True:
                u = XR(z3.Real(ctx().fresh("uninit"))) if rdt.kind == "f" else scal.norm(0, rdt)
                res[ix] = scal.ite(wm[ix], res[ix], u, rdt)
    if _all_weak(ops) and res.ndim == 0:
        v = res[()]
        if rdt.kind == "b":
            return A.pybool(v)
        if rdt.kind == "f":
            return A.pyfloat(v)
        return pyint(v)
    return _mk(res, rdt)


_REDUCE = {
    "add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_or": "any",
    "logical_and": "all",
}


def _ufunc_reduce(ufunc, name, args, kw):
    kw = dict(kw)
    a = args[0]
    rest = args[1:]
    axis = kw.pop("axis", rest[0] if rest else 0)
    keepdims = kw.pop("keepdims", False)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    initial = kw.pop("initial", None)
    dtype = kw.pop("dtype", None)
    if initial is _NOVALUE:
        initial = None
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(a, SymSel):
        a = a.force()
    a = lift(a)
    if name in ("bitwise_or", "bitwise_and", "bitwise_xor", "fmax", "fmin"):
        r = reduce_axis(a, axis, keepdims, lambda vs, d: _fold(name, vs, d, initial), a.dtype, where)
    elif name in _REDUCE:
        fn = RED[_REDUCE[name]]
        r = fn(a, axis=axis, keepdims=keepdims, dtype=dtype, where=where, initial=initial)
    elif name in scal.UFUNC:
        r = reduce_axis(a, axis, keepdims, lambda vs, d: _fold(name, vs, d, initial), a.dtype, where)
    else:
        return _fallback(ufunc.reduce, args, kw)
    return _to_out(r, out)


def _fold(name, vs, d, initial=None):
    f = scal.UFUNC[name]
    vs = list(vs)
    if initial is not None:
        vs = [scal.norm(initial, d)] + vs
    if not vs:
        if name in ("bitwise_or", "bitwise_xor"):
            return scal.norm(0, d)
        raise ValueError("zero-size array to reduction operation")
    r = vs[0]
    for v in vs[1:]:
        r = f(d, r, v)
    return r


def _to_out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    out[...] = r
    return out


def _accumulate(ufunc, name, a, axis):
    f = scal.UFUNC[name]
    dt = native(a.dtype)
    if name in ("add", "multiply") and dt.kind in "bui":
        rd = np.add.reduce(np.zeros(1, dt)).dtype
        o = cast_obj(a.o, dt, rd)
    else:
        rd, o = dt, a.o.copy()
    if name.startswith("logical"):
        o, rd = cast_obj(a.o, dt, BOOL), BOOL
    m = np.moveaxis(o, axis, 0)
    for i in range(1, m.shape[0]):
        for ix in np.ndindex(*m.shape[1:]):
            m[(i,) + ix] = f(rd, m[(i - 1,) + ix], m[(i,) + ix])
    return SymArray(o, rd)


# ---------------------------------------------------------------- reductions

def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (SymArray, np.ndarray)) and axis.ndim == 1:
        axis = [int(x) for x in axis]
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % ndim for x in axis)
    axis = int(axis)
    if axis >= ndim or axis < -ndim:
        raise np.exceptions.AxisError(axis, ndim)
    return (axis % ndim,)


def reduce_axis(a, axis, keepdims, fn, rdt, where=True):
    """fn(list of values, dtype) -> value over the given axes"""
    if a.ndim == 0:
        a = SymArray(a.o.reshape(1), a.dtype)
        axis = None
        keepdims = False
    if keepdims is _NOVALUE:
        keepdims = False
    axes = _axes(_np_arg(axis), a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    m = a.o.transpose(keep + list(axes))
    kshape = tuple(a.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= a.shape[i]
    m = m.reshape(kshape + (n,))
    wm = None
    if where is not True and where is not _NOVALUE:
        w = np.broadcast_to(lift(where).o, a.shape).transpose(keep + list(axes)).reshape(kshape + (n,))
        wm = w
    res = np.empty(kshape, dtype=object)
    dt = native(a.dtype)
    for ix in np.ndindex(*kshape):
        if wm is None:
            res[ix] = fn(list(m[ix]), dt)
        else:
            res[ix] = fn(list(m[ix]), dt, list(wm[ix]))
    if keepdims:
        sh = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
        return SymArray(res.reshape(sh), rdt)
    return _mk(res, rdt)


def _sel(a):
    """(SymArray, where) for possibly masked-selection input"""
    if isinstance(a, SymSel):
        if a.caxis == 0:
            pres = obj_from_iter(a.present, (len(a.present),) + (1,) * (a.data.ndim - 1))
            return a.data, SymArray(np.broadcast_to(pres, a.data.shape), BOOL)
        return a.force(), True
    return lift(a), True


def _comb_where(w1, w2):
    if w1 is True or w1 is _NOVALUE or w1 is None:
        return w2
    if w2 is True:
        return w1
    return lift(w1) & lift(w2)


def _clean(kw):
    return {k: v for k, v in kw.items() if v is not _NOVALUE}


def _sumdt(a, dtype):
    if dtype is not None:
        return to_dtype(dtype)
    return np.add.reduce(np.zeros(1, native(a.dtype))).dtype


def red_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, _op="add"):
    a, w = _sel(a)
    where = _comb_where(where, w)
    if axis is not None and w is not True and _axes(axis, a.ndim) != (0,) and 0 not in _axes(axis, a.ndim):
        raise Inconclusive("reduction of masked selection over other axes")
    rd = _sumdt(a, dtype)
    z = scal.norm(0 if _op == "add" else 1, rd)
    op = scal.add if _op == "add" else scal.mul

    def fn(vs, d, ws=None):
        r = z if initial is None else cast(lift(initial).o[()], native(lift(initial).dtype), rd)
        for i, v in enumerate(vs):
            v = cast(v, d, rd)
            if ws is not None:
                v = scal.ite(ws[i], v, z, rd)
            r = op(r, v, rd)
        return r

    return _to_out(reduce_axis(a, axis, keepdims, fn, rd, where), out)


def red_prod(a, **kw):
    return red_sum(a, _op="mul", **kw)


def red_any(a, axis=None, out=None, keepdims=False, where=True, dtype=None, initial=None):
    a, w = _sel(a)
    where = _comb_where(where, w)

    def fn(vs, d, ws=None):
        ts = [scal.truth(v, d) for v in vs]
        if ws is not None:
            ts = [b_and(t, x) for t, x in zip(ts, ws)]
        return b_or(*ts)

    return _to_out(reduce_axis(a, axis, keepdims, fn, BOOL, where), out)


def red_all(a, axis=None, out=None, keepdims=False, where=True, dtype=None, initial=None):
    a, w = _sel(a)
    where = _comb_where(where, w)

    def fn(vs, d, ws=None):
        ts = [scal.truth(v, d) for v in vs]
        if ws is not None:
            ts = [b_or(t, b_not(x)) for t, x in zip(ts, ws)]
        return b_and(*ts)

    return _to_out(reduce_axis(a, axis, keepdims, fn, BOOL, where), out)


def _minmax(name, nanskip):
    opn = {"max": "maximum", "min": "minimum"}[name]
    if nanskip:
        opn = {"max": "fmax", "min": "fmin"}[name]

    def red(a, axis=None, out=None, keepdims=False, initial=None, where=True, dtype=None):
        a, w = _sel(a)
        where = _comb_where(where, w)

        def fn(vs, d, ws=None):
            f = scal.UFUNC[opn]
            if initial is not None and initial is not _NOVALUE:
                init = cast(lift(initial).o[()], native(lift(initial).dtype), d)
            else:
                init = None
            if ws is None:
                if init is not None:
                    vs = [init] + vs
                if not vs:
                    raise ValueError(
                        f"zero-size array to reduction operation {opn} which has no identity"
                    )
                r = vs[0]
                for v in vs[1:]:
                    r = f(d, r, v)
                return r
            if init is None:
                if not ctx_branch(b_or(*ws)):
                    raise ValueError(
                        f"zero-size array to reduction operation {opn} which has no identity"
                    )
            r, have = (init, True) if init is not None else (vs[0], ws[0])
            seq = list(zip(vs, ws)) if init is not None else list(zip(vs, ws))[1:]
            for v, p in seq:
                both = f(d, r, v)
                r = scal.ite(p, scal.ite(have, both, v, d), r, d)
                have = b_or(have, p)
            return r

        return _to_out(reduce_axis(a, axis, keepdims, fn, a.dtype, where), out)

    return red


def _count(vs, d, pred):
    n = 0
    for v in vs:
        n = scal.i_add(n, cast(pred(v), BOOL, I8), I8)
    return n


def red_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a, w = _sel(a)
    where = _comb_where(where, w)
    rd = np.mean(np.zeros(1, native(a.dtype))).dtype if dtype is None else to_dtype(dtype)

    def fn(vs, d, ws=None):
        s, n = ZERO, 0
        for i, v in enumerate(vs):
            v = cast(v, d, F8)
            if ws is not None:
                v = XR.ite(ws[i], v, ZERO)
                n = scal.i_add(n, cast(ws[i], BOOL, I8), I8)
            s = s.add(v)
        if ws is None:
            n = len(vs)
        return s.div(cast(n, I8, F8))

    return _to_out(reduce_axis(a, axis, keepdims, fn, rd, where), out)


def red_nansum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a, w = _sel(a)
    if a.dtype.kind == "f":
        a = SymArray(_map(a.o, lambda v: XR.ite(v.nan, ZERO, v)), a.dtype)
    where = _comb_where(where, w)
    return red_sum(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims, where=where)


def _map(o, f):
    r = np.empty(o.shape, dtype=object)
    rf, of = r.reshape(-1), o.reshape(-1)
    for i in range(rf.size):
        rf[i] = f(of[i])
    return r


def red_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a, w = _sel(a)
    where = _comb_where(where, w)
    if a.dtype.kind != "f":
        return red_mean(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims, where=where)

    def fn(vs, d, ws=None):
        s, n = ZERO, 0
        for i, v in enumerate(vs):
            ok = b_not(v.nan)
            if ws is not None:
                ok = b_and(ok, ws[i])
            s = s.add(XR.ite(ok, v, ZERO))
            n = scal.i_add(n, cast(ok, BOOL, I8), I8)
        return s.div(cast(n, I8, F8))

    return _to_out(reduce_axis(a, axis, keepdims, fn, a.dtype, where), out)


def sort_vals(vs, d):
    """sorting network (odd-even transposition); NaNs last, like numpy"""
    vs = list(vs)
    n = len(vs)

    def before(x, y):  # strict: y must come before x
        if d.kind == "f":
            return b_or(y.lt(x), b_and(x.nan, b_not(y.nan)))
        return scal.lt(y, x, d)

    if builtins.all(concrete(v) for v in vs):
        key = (lambda v: (v.nan, v.to_float() if not v._fin() else v.val)) if d.kind == "f" else (lambda v: v)
        if d.kind == "f" and any(v.pinf or v.ninf for v in vs):
            key = lambda v: (v.nan, v.to_float())  # noqa: E731
        return sorted(vs, key=key)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            x, y = vs[i], vs[i + 1]
            c = before(x, y)
            vs[i], vs[i + 1] = scal.ite(c, y, x, d), scal.ite(c, x, y, d)
    return vs


def name_val(v):
    """bind a big float term to a fresh variable (keeps terms small)"""
    if isinstance(v, XR) and not isinstance(v.val, Fraction) and not z3.is_const(v.val):
        c = ctx()
        r = z3.Real(c.fresh("v"))
        c.define(r == v.val)
        return XR(r, v.nan, v.pinf, v.ninf)
    return v


def _kth_half(vs, n_sym, half):
    """vs sorted; mean of the two middle entries of the first n (n symbolic or int)"""
    if isinstance(n_sym, int):
        n = n_sym
        if n == 0:
            return NAN
        lo, hi = (n - 1) // 2, n // 2
        if lo == hi:
            return vs[lo]
        return vs[lo].add(vs[hi]).mul(XR(Fraction(1, 2)))
    r = NAN
    for n in range(1, len(vs) + 1):
        r = XR.ite(n_sym == n, _kth_half(vs, n, half), r)
    return r


def red_median(a, axis=None, out=None, overwrite_input=False, keepdims=False, _nan=False):
    a, w = _sel(a)
    rd = np.mean(np.zeros(1, native(a.dtype))).dtype

    def fn(vs, d, ws=None):
        vs = [cast(v, d, F8) for v in vs]
        if ws is not None:
            # absent elements behave as NaN in nanmedian; a present NaN poisons plain median
            poison = b_or(*[b_and(p, v.nan) for v, p in zip(vs, ws)]) if not _nan else False
            vs = [XR.ite(p, v, NAN) for v, p in zip(vs, ws)]
            n = _count(vs, F8, lambda v: b_not(v.nan))
            s = sort_vals(vs, F8)
            r = _kth_half(s, n, None)
            return XR.ite(poison, NAN, r)
        anynan = b_or(*[v.nan for v in vs])
        if not vs:
            return NAN
        if anynan is False:
            return _kth_half(sort_vals(vs, F8), len(vs), None)
        if not _nan:
            # order ignoring NaN; result NaN if any NaN
            s = sort_vals(vs, F8)
            r = _kth_half(s, len(vs), None)
            return XR(r.val, anynan, b_and(b_not(anynan), r.pinf), b_and(b_not(anynan), r.ninf))
        n = _count(vs, F8, lambda v: b_not(v.nan))
        return _kth_half(sort_vals(vs, F8), n, None)

    return _to_out(reduce_axis(a, axis, keepdims, fn, rd, w), out)


def red_nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return red_median(a, axis=axis, out=out, keepdims=keepdims, _nan=True)


def red_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None,
            correction=None, _nan=False, _sqrt=False):
    a, w = _sel(a)
    where = _comb_where(where, w)
    rd = np.mean(np.zeros(1, native(a.dtype))).dtype if dtype is None else to_dtype(dtype)

    def fn(vs, d, ws=None):
        vs = [cast(v, d, F8) for v in vs]
        ok = [True] * len(vs)
        if ws is not None:
            ok = list(ws)
        if _nan:
            ok = [b_and(o, b_not(v.nan)) for o, v in zip(ok, vs)]
        n, s = 0, ZERO
        for v, o in zip(vs, ok):
            s = s.add(XR.ite(o, v, ZERO))
            n = scal.i_add(n, cast(o, BOOL, I8), I8)
        nf = cast(n, I8, F8)
        m = s.div(nf)
        q = ZERO
        for v, o in zip(vs, ok):
            dv = v.sub(m)
            q = q.add(XR.ite(o, dv.mul(dv), ZERO))
        r = q.div(nf.sub(XR.of(ddof)))
        return r.sqrt() if _sqrt else r

    return _to_out(reduce_axis(a, axis, keepdims, fn, rd, where), out)


def red_std(a, **kw):
    return red_var(a, _sqrt=True, **kw)


def red_nanvar(a, **kw):
    return red_var(a, _nan=True, **kw)


def red_nanstd(a, **kw):
    return red_var(a, _nan=True, _sqrt=True, **kw)


def red_count_nonzero(a, axis=None, keepdims=False):
    a, w = _sel(a)

    def fn(vs, d, ws=None):
        if ws is not None:
            return _count(list(zip(vs, ws)), d, lambda t: b_and(scal.truth(t[0], d), t[1]))
        return _count(vs, d, lambda v: scal.truth(v, d))

    r = reduce_axis(a, axis, keepdims, fn, I8, w)
    return r


def _argm(name, nanskip=False):
    mx = name == "argmax"

    def red(a, axis=None, out=None, keepdims=False):
        a = a.force() if isinstance(a, SymSel) else lift(a)

        def fn(vs, d, ws=None):
            if not vs:
                raise ValueError(f"attempt to get {name} of an empty sequence")
            if d.kind == "f" and nanskip:
                if ctx_branch(b_and(*[v.nan for v in vs])):
                    raise ValueError("All-NaN slice encountered")
            best, bi = vs[0], 0
            for i, v in enumerate(vs[1:], 1):
                if d.kind == "f":
                    if nanskip:
                        better = b_or(
                            b_and(best.nan, b_not(v.nan)),
                            best.lt(v) if mx else v.lt(best),
                        )
                    else:
                        better = b_and(
                            b_not(best.nan),
                            b_or(v.nan, best.lt(v) if mx else v.lt(best)),
                        )
                else:
                    better = scal.lt(best, v, d) if mx else scal.lt(v, best, d)
                best = scal.ite(better, v, best, d)
                bi = scal.i_ite(better, i, bi, I8)
            return bi

        return _to_out(reduce_axis(a, axis, keepdims, fn, I8), out)

    return red


RED = {
    "sum": red_sum, "prod": red_prod, "any": red_any, "all": red_all, "max": _minmax("max", False),
    "min": _minmax("min", False), "amax": _minmax("max", False), "amin": _minmax("min", False),
    "nanmax": _minmax("max", True), "nanmin": _minmax("min", True), "mean": red_mean,
    "nansum": red_nansum, "nanmean": red_nanmean, "median": red_median,
    "nanmedian": red_nanmedian, "var": red_var, "std": red_std, "nanvar": red_nanvar,
    "nanstd": red_nanstd, "count_nonzero": red_count_nonzero, "argmax": _argm("argmax"),
    "argmin": _argm("argmin"), "nanargmax": _argm("argmax", True), "nanargmin": _argm("argmin", True),
}


# ---------------------------------------------------------------- functions

FUNC = {}


def func(*names):
    def d(f):
        for n in names:
            FUNC[n] = f
        return f

    return d


for _n, _f in RED.items():
    def _mkred(g, nm):
        def h(a, *args, **kw):
            order = {
                "sum": ["axis", "dtype", "out", "keepdims"], "prod": ["axis", "dtype", "out", "keepdims"],
                "mean": ["axis", "dtype", "out", "keepdims"], "nanmean": ["axis", "dtype", "out", "keepdims"],
                "nansum": ["axis", "dtype", "out", "keepdims"],
                "std": ["axis", "dtype", "out", "ddof", "keepdims"],
                "var": ["axis", "dtype", "out", "ddof", "keepdims"],
                "median": ["axis", "out", "overwrite_input", "keepdims"],
                "nanmedian": ["axis", "out", "overwrite_input", "keepdims"],
                "count_nonzero": ["axis"],
            }.get(nm, ["axis", "out", "keepdims"])
            for k, v in zip(order, args):
                kw[k] = v
            kw = _clean(kw)
            if kw.get("where", True) is None:
                kw.pop("where")
            if "axis" in kw:
                kw["axis"] = _np_arg(kw["axis"])
            if kw.get("keepdims", 1) is None:
                kw.pop("keepdims")
            return g(a, **kw)

        return h

    FUNC[_n] = _mkred(_f, _n)


@func("where")
def np_where(c, x=None, y=None):
    if x is None and y is None:
        return np_nonzero(c)
    if isinstance(c, SymSel):
        c = c.force()
    c, x, y = lift(c), lift(x), lift(y)
    din = []
    for o in (x, y):
        if o.weak in ("pyint", "pyfloat"):
            din.append({"pyint": 0, "pyfloat": 0.0}[o.weak])
        else:
            din.append(np.empty(0, native(o.dtype)))
    rd = np.result_type(*din)
    if rd.kind not in "buif" or not c.is_concrete() and rd.kind == "O":
        return _fallback(np.where, (c, x, y), {})
    co = cast_obj(c.o, native(c.dtype), BOOL)
    xo, yo = cast_obj(x.o, native(x.dtype), rd), cast_obj(y.o, native(y.dtype), rd)
    cb, xb, yb = np.broadcast_arrays(co, xo, yo)
    r = np.empty(cb.shape, dtype=object)
    for ix in np.ndindex(*cb.shape):
        r[ix] = scal.ite(cb[ix], xb[ix], yb[ix], rd)
    return SymArray(r, rd) if r.ndim else scalar(r[()], rd)


@func("nonzero")
def np_nonzero(c):
    c = c.force() if isinstance(c, SymSel) else lift(c)
    m = A._fork_mask(SymArray(cast_obj(c.o, native(c.dtype), BOOL), BOOL))
    return tuple(from_np(x) for x in np.nonzero(m))


@func("flatnonzero")
def np_flatnonzero(c):
    return np_nonzero(lift(c).ravel())[0]


@func("argwhere")
def np_argwhere(c):
    c = lift(c)
    m = A._fork_mask(SymArray(cast_obj(c.o, native(c.dtype), BOOL), BOOL))
    return from_np(np.argwhere(m))


@func("isclose")
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = lift(a), lift(b)
    d = np.abs(a - b) <= (atol + rtol * np.abs(b))
    r = (np.isfinite(b) & d) | (a == b)
    if equal_nan:
        r = r | (np.isnan(a) & np.isnan(b))
    return r


@func("allclose")
def np_allclose(a, b, **k):
    return bool(red_all(np_isclose(a, b, **k)))


@func("array_equal")
def np_array_equal(a, b, equal_nan=False):
    a, b = lift(a), lift(b)
    if a.shape != b.shape:
        return False
    e = a == b
    if equal_nan:
        e = e | (np.isnan(a) & np.isnan(b))
    return bool(red_all(e))


@func("array_equiv")
def np_array_equiv(a, b):
    a, b = lift(a), lift(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return bool(red_all(a == b))


@func("clip")
def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None and a_min is not _NOVALUE else min
    hi = a_max if a_max is not None and a_max is not _NOVALUE else max
    r = a
    if lo is not None and lo is not _NOVALUE:
        r = call_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None and hi is not _NOVALUE:
        r = call_ufunc(np.minimum, "__call__", (r, hi), {})
    return _to_out(r, out)


@func("nan_to_num")
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = x.force() if isinstance(x, SymSel) else lift(x)
    if x.dtype.kind != "f":
        return x.copy() if copy else x
    big = float(np.finfo(native(x.dtype)).max)
    n = XR.of(nan)
    p = XR.of(big if posinf is None else posinf)
    m = XR.of(-big if neginf is None else neginf)
    r = _map(x.o, lambda v: XR.ite(v.nan, n, XR.ite(v.pinf, p, XR.ite(v.ninf, m, v))))
    if not copy:
        x.o[...] = r
        return x
    return _mk(r, x.dtype) if isinstance(x, SymScalar) else SymArray(r, x.dtype)


@func("round", "around", "round_")
def np_round(a, decimals=0, out=None):
    a = lift(a)
    if a.dtype.kind != "f":
        return a.copy()
    s = XR(Fraction(10) ** decimals)
    f = lambda v: (lambda q: q.with_int(q.round_int()).div(s))(v.mul(s))  # noqa: E731
    return _to_out(_mk(_map(a.o, f), a.dtype), out)


FUNC["fix"] = lambda a, out=None: call_ufunc(np.trunc, "__call__", (a,), {})


@func("iscomplexobj")
def _f_false(*a, **k):
    return False


@func("isrealobj")
def _f_true(*a, **k):
    return True


@func("ndim")
def np_ndim(a):
    return lift(a).ndim


@func("shape")
def np_shape(a):
    return lift(a).shape


@func("size")
def np_size(a, axis=None):
    if isinstance(a, SymSel) and axis is None:
        return a.size
    a = lift(a)
    return a.size if axis is None else a.shape[axis]


@func("copy")
def np_copy(a, order="K", subok=False):
    return SymArray(lift(a).o.copy(), lift(a).dtype)


@func("cumsum")
def np_cumsum(a, axis=None, dtype=None, out=None):
    a = lift(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _to_out(_accumulate(np.add, "add", a, axis), out)


@func("cumprod")
def np_cumprod(a, axis=None, dtype=None, out=None):
    a = lift(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _to_out(_accumulate(np.multiply, "multiply", a, axis), out)


@func("diff")
def np_diff(a, n=1, axis=-1, prepend=_NOVALUE, append=_NOVALUE):
    a = lift(a)
    parts = []
    if prepend is not _NOVALUE:
        p = lift(prepend)
        if p.ndim == 0:
            sh = list(a.shape)
            sh[axis] = 1
            p = SymArray(obj_full(sh, p.o[()]), p.dtype)
        parts.append(p)
    parts.append(a)
    if append is not _NOVALUE:
        p = lift(append)
        if p.ndim == 0:
            sh = list(a.shape)
            sh[axis] = 1
            p = SymArray(obj_full(sh, p.o[()]), p.dtype)
        parts.append(p)
    if len(parts) > 1:
        a = np.concatenate(parts, axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        if a.dtype.kind == "b":
            a = a[tuple(s1)] != a[tuple(s2)]
        else:
            a = a[tuple(s1)] - a[tuple(s2)]
    return a


@func("ediff1d")
def np_ediff1d(a):
    return np_diff(lift(a).ravel())


@func("sort")
def np_sort(a, axis=-1, kind=None, order=None, stable=None):
    a = a.force() if isinstance(a, SymSel) else lift(a)
    if axis is None:
        a, axis = a.ravel(), 0
    o = a.o.copy()
    m = np.moveaxis(o, axis, -1)
    for ix in np.ndindex(*m.shape[:-1]):
        v = sort_vals(list(m[ix]), native(a.dtype))
        for i, x in enumerate(v):
            m[ix + (i,)] = x
    return SymArray(o, a.dtype)


FUNC["partition"] = lambda a, kth, axis=-1, **k: np_sort(a, axis)


@func("argsort")
def np_argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = lift(a)
    if a.is_concrete():
        return from_np(np.argsort(a.to_np(), axis=axis, kind="stable"))
    if axis is None:
        a, axis = a.ravel(), 0
    d = native(a.dtype)
    m = np.moveaxis(a.o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape[:-1]):
        # stable insertion sort with forking (complete; for ties numpy's default order is unspecified)
        idx = []
        for i, v in enumerate(m[ix]):
            j = len(idx)
            while j > 0:
                w = m[ix][idx[j - 1]]
                if d.kind == "f":
                    less = b_or(v.lt(w), b_and(w.nan, b_not(v.nan)))
                else:
                    less = scal.lt(v, w, d)
                if ctx_branch(less):
                    j -= 1
                else:
                    break
            idx.insert(j, i)
        for k, v in enumerate(idx):
            out[ix + (k,)] = v
    return SymArray(np.moveaxis(out, -1, axis), I8)


def np_matmul(a, b, out=None, **k):
    a, b = lift(a), lift(b)
    sq0 = sq1 = False
    if a.ndim == 1:
        a, sq0 = SymArray(a.o[None, :], a.dtype), True
    if b.ndim == 1:
        b, sq1 = SymArray(b.o[:, None], b.dtype), True
    x = SymArray(a.o[..., :, :, None], a.dtype)
    y = SymArray(b.o[..., None, :, :], b.dtype)
    r = red_sum(x * y, axis=-2)
    if sq1:
        r = r[..., 0]
    if sq0:
        r = r[..., 0] if sq1 else r[..., 0, :]
    if isinstance(r, SymArray) and r.ndim == 0:
        r = scalar(r.o[()], r.dtype)
    return r


FUNC["matmul"] = np_matmul


@func("dot")
def np_dot(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return np_matmul(a, b)
    raise Inconclusive("np.dot with ndim > 2")


@func("vdot", "inner")
def np_inner(a, b):
    return red_sum(lift(a) * lift(b), axis=-1)


@func("outer")
def np_outer(a, b, out=None):
    a, b = lift(a).ravel(), lift(b).ravel()
    return SymArray(a.o[:, None], a.dtype) * SymArray(b.o[None, :], b.dtype)


@func("cross")
def np_cross(a, b):
    a, b = lift(a), lift(b)
    return np.stack([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


@func("trace")
def np_trace(a, offset=0, **k):
    return red_sum(lift(a).diagonal(offset))


@func("einsum")
def np_einsum(sub, *ops, **k):
    ins, _, outs = sub.replace(" ", "").partition("->")
    ins = ins.split(",")
    ops = [lift(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    if not _:
        from collections import Counter

        c = Counter("".join(ins))
        outs = "".join(sorted(ch for ch in c if c[ch] == 1))
    letters = list(dims)
    order = list(outs) + [c for c in letters if c not in outs]
    r = None
    for s, o in zip(ins, ops):
        perm = sorted(range(len(s)), key=lambda i: order.index(s[i]))
        x = o.o.transpose(perm)
        sh = [dims[c] if c in s else 1 for c in order]
        t = SymArray(x.reshape(sh), o.dtype)
        r = t if r is None else r * t
    n = len(order) - len(outs)
    if n:
        r = red_sum(r, axis=tuple(range(len(outs), len(order))))
    return r


@func("average")
def np_average(a, axis=None, weights=None, returned=False, keepdims=_NOVALUE):
    a = lift(a)
    if weights is None:
        r = red_mean(a, axis=axis)
        return r
    w = lift(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(*sh)
    return red_sum(a * w, axis=axis) / red_sum(w * np.ones(a.shape), axis=axis)


@func("ptp")
def np_ptp(a, axis=None, **k):
    return RED["max"](a, axis=axis) - RED["min"](a, axis=axis)


@func("interp")
def np_interp(x, xp, fp, left=None, right=None, period=None):
    return _fallback(np.interp, (x, xp, fp), {})


@func("searchsorted")
def np_searchsorted(a, v, side="left", sorter=None):
    a, v = lift(a), lift(v)
    d = np.result_type(native(a.dtype), native(v.dtype))
    ao, vo = cast_obj(a.o, native(a.dtype), d), cast_obj(v.o, native(v.dtype), d)

    def one(x):
        n = 0
        for y in ao:
            c = scal.lt(y, x, d) if side == "left" else scal.le(y, x, d)
            n = scal.i_add(n, cast(c, BOOL, I8), I8)
        return n

    return _mk(_map(vo, one), I8)


@func("unique")
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = lift(a)
    c = a.to_np() if a.is_concrete() else pin_int_or_fail(a)
    return _wrap_tree(np.unique(c, return_index=return_index, return_inverse=return_inverse,
                                return_counts=return_counts, axis=axis))


def pin_int_or_fail(a):
    if a.dtype.kind in "bui":
        out = np.empty(a.shape, dtype=native(a.dtype))
        for ix in np.ndindex(*a.shape):
            v = a.o[ix]
            if a.dtype.kind == "b":
                out[ix] = ctx_branch(v)
            else:
                out[ix] = v if isinstance(v, int) else ctx().concretise_int(v, signed=a.dtype.kind == "i")
        return out
    return pin_array(a)


@func("isin", "in1d")
def np_isin(el, test, assume_unique=False, invert=False, kind=None):
    el, t = lift(el), lift(test).ravel()
    r = None
    for i in range(t.size):
        e = el == t[i]
        r = e if r is None else (r | e)
    if r is None:
        r = from_np(np.zeros(el.shape, bool))
    return ~r if invert else r


@func("copyto")
def np_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        w = lift(where)
        r = np_where(w, A._cast_to(src, dst.dtype), dst)
        dst[...] = r


@func("putmask", "place")
def np_putmask(a, mask, values):
    v = lift(values)
    if v.size == 1:
        a[lift(mask)] = v.reshape(())[()] if v.ndim else v
        return
    np_copyto(a, v, where=mask)


@func("select")
def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    return r


@func("take_along_axis")
def np_take_along_axis(arr, indices, axis=-1):
    arr, ind = lift(arr), lift(indices)
    if ind.is_concrete():
        return SymArray(np.take_along_axis(arr.o, ind.to_np(), axis), arr.dtype)
    a = np.moveaxis(np.broadcast_to(arr.o, [max(x, y) if i != axis % arr.ndim else x for i, (x, y) in enumerate(zip(arr.shape, ind.shape))]), axis, -1)
    m = np.moveaxis(ind.o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for ix in np.ndindex(*m.shape):
        i = m[ix]
        line = SymArray(a[ix[:-1]], arr.dtype)
        r = line[i if isinstance(i, int) else SymScalar(obj_full((), i), I8)]
        out[ix] = lift(r).o[()]
    return SymArray(np.moveaxis(out, -1, axis), arr.dtype)


@func("percentile", "quantile", "nanpercentile", "nanquantile")
def np_percentile(*a, **k):
    raise Inconclusive("percentile")


@func("full_like")
def np_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    a = lift(a)
    dt = to_dtype(dtype) if dtype is not None else a.dtype
    v = lift(fill_value)
    sh = a.shape if shape is None else _np_arg(shape)
    vo = cast_obj(v.o, native(v.dtype), native(dt))
    if vo.ndim == 0:
        return SymArray(obj_full(sh, vo[()]), dt)
    return SymArray(np.broadcast_to(vo, sh).copy(), dt)


def _like_const(c):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        return np_full_like(a, c, dtype, shape=shape)

    return f


FUNC["zeros_like"] = _like_const(0)
FUNC["ones_like"] = _like_const(1)


@func("empty_like")
def np_empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    a = lift(a)
    return np_empty(a.shape if shape is None else shape, dtype if dtype is not None else a.dtype)


def np_empty(shape, dtype=float, order="C", **k):
    """uninitialised memory: arbitrary fresh values"""
    dt = to_dtype(dtype)
    shape = _np_arg(shape)
    if dt.kind not in "buif":
        return from_np(np.empty(shape, dt))
    o = np.empty(shape, dtype=object)
    if not has_ctx():
        o.fill(scal.norm(0, native(dt)))
        return SymArray(o, dt)
    c = ctx()
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = fresh_val(c, dt, "uninit")
    return SymArray(o, dt)


def fresh_val(c, dt, name):
    k = dt.kind
    n = c.fresh(name)
    if k == "f":
        return XR(z3.Real(n), z3.Bool(n + "_nan"))
    if k == "b":
        return z3.Bool(n)
    if k == "u":
        return z3.BitVec(n, scal.width(dt))
    return z3.Int(n)


# structural functions applied to the object arrays directly
_STRUCT = {
    "reshape", "ravel", "transpose", "permute_dims", "swapaxes", "moveaxis", "rollaxis", "squeeze", "expand_dims",
    "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "split", "array_split",
    "hsplit", "vsplit", "dsplit", "roll", "flip", "fliplr", "flipud", "rot90", "repeat", "tile",
    "broadcast_to", "broadcast_arrays", "take", "delete", "insert", "append", "atleast_1d",
    "atleast_2d", "atleast_3d", "diagonal", "diag", "compress", "resize", "concat", "unstack", "block", "meshgrid",
    "matrix_transpose",
}


def _struct(fn, args, kw):
    name = fn.__name__
    dts = []

    def conv(x, top=True):
        if isinstance(x, SymSel):
            x = x.force()
        if isinstance(x, SymArray):
            dts.append(x.dtype)
            return x
        if isinstance(x, np.ndarray) and x.dtype != object:
            dts.append(x.dtype)
            return from_np(x)
        if isinstance(x, (list, tuple)) and _has_arr(x):
            return type(x)(conv(e) for e in x) if isinstance(x, list) else tuple(conv(e) for e in x)
        return x

    # which args are data
    data_n = {"insert": (0, 2), "append": (0, 1), "meshgrid": None, "broadcast_arrays": None,
              "atleast_1d": None, "atleast_2d": None, "atleast_3d": None}.get(name, (0,))
    args = list(args)
    if name in ("compress",):
        data_n = (1,)
    for i in range(len(args)):
        if data_n is None or i in data_n:
            if name in ("insert", "append") and not isinstance(args[i], (SymArray, SymSel)):
                args[i] = lift(args[i])
            if isinstance(args[i], (list, tuple)) and not _has_arr(args[i]):
                if name in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"):
                    args[i] = [lift(e) for e in args[i]]
                else:
                    args[i] = lift(args[i])
            elif isinstance(args[i], (list, tuple)) and data_n == (0,) and name not in (
                    "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "concat", "block"):
                args[i] = A.make_array(args[i])
            elif isinstance(args[i], (list, tuple)):
                args[i] = [lift(e) if not isinstance(e, (list, tuple)) or True else e for e in args[i]]
            args[i] = conv(args[i])
        else:
            args[i] = _np_arg(args[i])
    kw = {k: _np_arg(v) for k, v in kw.items() if v is not None and k not in ("dtype", "out")} | (
        {"dtype": kw["dtype"]} if kw.get("dtype") is not None else {}
    )
    rdt = np.result_type(*[native(d) for d in dts]) if dts else F8
    if name in ("meshgrid", "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d"):
        rdt = None
    if kw.get("dtype") is not None:
        rdt = to_dtype(kw.pop("dtype"))
    if name in ("insert",):
        rdt = native(dts[0])
    if len(dts) == 1:
        rdt = dts[0] if rdt is None or rdt == native(dts[0]) else rdt

    def raw(x):
        if isinstance(x, SymArray):
            return x.o if rdt is None else (x.o if x.dtype == rdt else cast_obj(x.o, native(x.dtype), native(rdt)))
        if isinstance(x, (list, tuple)) and _has_arr(x):
            return [raw(e) for e in x]
        return x

    rargs = [raw(a) for a in args]
    r = fn(*rargs, **kw)
    if rdt is None:
        if isinstance(r, (list, tuple)):
            return type(r)(SymArray(x, d) for x, d in zip(r, dts)) if type(r) in (list, tuple) else [SymArray(x, d) for x, d in zip(r, dts)]
        return SymArray(r, dts[0])
    return _wrap(r, rdt)


def _wrap(r, dt):
    if isinstance(r, (list, tuple)):
        return type(r)(_wrap(x, dt) for x in r)
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return scalar(r[()], dt)
        return SymArray(r, dt)
    return scalar(r, dt)


def _has_arr(x):
    return builtins.any(
        isinstance(e, (SymArray, SymSel, np.ndarray, np.generic)) or (isinstance(e, (list, tuple)) and _has_arr(e))
        for e in x
    )


@func("pad")
def np_pad(a, pad_width, mode="constant", **kw):
    a = lift(a)
    idx = np.arange(a.size).reshape(a.shape)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        p = np.pad(idx, _np_arg(pad_width), mode="constant", constant_values=-1)
        v = cast(lift(cv).o[()], native(lift(cv).dtype), native(a.dtype))
    else:
        p = np.pad(idx, _np_arg(pad_width), mode=mode, **kw)
        v = None
    o = np.empty(p.shape, dtype=object)
    af = a.o.reshape(-1)
    for ix in np.ndindex(*p.shape):
        o[ix] = v if p[ix] < 0 else af[p[ix]]
    return SymArray(o, a.dtype)


def _tri(nm):
    def f(m, k=0):
        m = lift(m)
        mask = getattr(np, nm)(np.ones(m.shape, bool), k)
        return np_where(from_np(mask), m, SymScalar(obj_full((), scal.norm(0, native(m.dtype))), m.dtype))

    return f


FUNC["triu"] = _tri("triu")
FUNC["tril"] = _tri("tril")
for _n in ("can_cast", "result_type", "min_scalar_type", "common_type"):
    def _mkrt(nm):
        def f(*a, **k):
            return getattr(np, nm)(*[x.dtype if isinstance(x, SymArray) else x for x in a], **k)

        return f

    FUNC[_n] = _mkrt(_n)
FUNC["may_share_memory"] = lambda a, b, **k: np.shares_memory(lift(a).o, lift(b).o)
FUNC["shares_memory"] = FUNC["may_share_memory"]
FUNC["real_if_close"] = lambda a, **k: a
FUNC["real"] = lambda a: a
FUNC["array_repr"] = lambda a, *r, **k: repr(a)
FUNC["array_str"] = lambda a, *r, **k: repr(a)
FUNC["array2string"] = lambda a, *r, **k: repr(a)
FUNC["isscalar"] = lambda a: isinstance(a, SymScalar) or np.isscalar(a)


@func("apply_along_axis")
def np_apply_along_axis(f, axis, a, *args, **kw):
    a = lift(a)
    m = np.moveaxis(a.o, axis, -1)
    outs = {}
    for ix in np.ndindex(*m.shape[:-1]):
        outs[ix] = lift(f(SymArray(m[ix], a.dtype), *args, **kw))
    first = next(iter(outs.values()))
    o = np.empty(m.shape[:-1] + first.shape, dtype=object)
    for ix, v in outs.items():
        o[ix] = v.o if v.ndim else v.o[()]
    if first.ndim:
        o = np.moveaxis(o, -1, axis)
    return SymArray(o, first.dtype)


@func("convolve")
def np_convolve(a, v, mode="full"):
    a, v = lift(a), lift(v)
    n, m = a.size, v.size
    d = np.result_type(native(a.dtype), native(v.dtype))
    full = []
    for k in range(n + m - 1):
        s = scal.norm(0, d)
        for i in range(n):
            j = k - i
            if 0 <= j < m:
                s = scal.add(s, scal.mul(cast(a.o[i], native(a.dtype), d), cast(v.o[j], native(v.dtype), d), d), d)
        full.append(s)
    if mode == "full":
        r = full
    elif mode == "same":
        L = max(n, m)
        st = (n + m - 1 - L) // 2
        r = full[st:st + L]
    else:
        L = max(n, m) - min(n, m) + 1
        st = min(n, m) - 1
        r = full[st:st + L]
    return SymArray(obj_from_iter(r, (len(r),)), d)


@func("linspace")
def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    start, stop = lift(start), lift(stop)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if div == 0:
            out.append(start * 1.0)
        elif endpoint and i == num - 1 and num > 1:
            out.append(stop * 1.0)
        else:
            out.append(start + (stop - start) * Fraction(i, div))
    r = make_array(out, dtype=dtype or F8) if out else from_np(np.empty(0))
    if retstep:
        return r, (stop - start) / div
    return r


@func("gradient")
def np_gradient(*a, **k):
    raise Inconclusive("np.gradient")


def _wrap_tree(r):
    if isinstance(r, np.ndarray) and not isinstance(r, np.ma.MaskedArray) and r.dtype.kind in "buif":
        return from_np(r) if r.ndim else scalar(from_np(r).o[()], r.dtype)
    if isinstance(r, tuple) and hasattr(r, "_fields"):
        return type(r)(*[_wrap_tree(x) for x in r])
    if isinstance(r, (tuple, list)):
        return type(r)(_wrap_tree(x) for x in r)
    return r


def _conc_tree(x):
    if isinstance(x, (SymArray, SymSel)):
        if isinstance(x, SymSel):
            x = x.force()
        if x.is_concrete():
            a = x.to_np()
        else:
            A.note("unmodelled numpy function: arguments pinned")
            a = pin_array(x)
        return a[()] if isinstance(x, SymScalar) else a
    if isinstance(x, tuple):
        return tuple(_conc_tree(e) for e in x)
    if isinstance(x, list):
        return [_conc_tree(e) for e in x]
    if isinstance(x, dict):
        return {k: _conc_tree(v) for k, v in x.items()}
    return x


def _fallback(f, args, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    r = _wrap_tree(f(*_conc_tree(tuple(args)), **_conc_tree(kw)))
    if out is not None:
        return _to_out(r, out)
    return r


def _any_sym(x):
    if isinstance(x, (SymArray, SymSel)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_any_sym(e) for e in x)
    if isinstance(x, dict):
        return builtins.any(_any_sym(v) for v in x.values())
    return False


def _all_concrete(x):
    if isinstance(x, SymArray):
        return x.is_concrete()
    if isinstance(x, SymSel):
        return False
    if isinstance(x, (list, tuple)):
        return builtins.all(_all_concrete(e) for e in x)
    if isinstance(x, dict):
        return builtins.all(_all_concrete(v) for v in x.values())
    return True


_EXACT_OK = {"reshape"}


def call_function(f, args, kw):
    name = getattr(f, "__name__", str(f))
    mod = getattr(f, "__module__", "") or ""
    if isinstance(f, np.ufunc):
        return call_ufunc(f, "__call__", args, kw)
    if mod.startswith("numpy.linalg"):
        from . import linalg

        if name in linalg.FUNC:
            return linalg.FUNC[name](*args, **kw)
        return _fallback(f, args, kw)
    if name in FUNC:
        return FUNC[name](*args, **kw)
    if name in _STRUCT:
        return _struct(f, args, kw)
    return _fallback(f, args, kw)


A._install()
