"""SymArray: numpy-array look-alike whose elements may be symbolic."""
import builtins
import operator
import re
from fractions import Fraction

import numpy as np

from . import scal, xreal
from .core import ctx  # noqa: E402
from .core import (
    Inconclusive, b_and, b_eq, b_ite, b_not, b_or, ctx, has_ctx, is_sym,
)
from .scal import BOOL, I8, F8, cast, concrete, norm
from .xreal import NAN, XR, ZERO
from .z3boot import z3

WEAK = {"pyint": int, "pyfloat": float, "pybool": bool}


def obj_full(shape, v):
    o = np.empty(shape, dtype=object)
    if o.ndim == 0:
        o[()] = v
    else:
        o.fill(v)
    return o


def obj_from_iter(vals, shape):
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return o.reshape(shape)


def native(dt):
    return dt.newbyteorder("=") if dt.byteorder not in "=|" else dt


def root_of(o):
    while isinstance(o.base, np.ndarray):
        o = o.base
    return o


def memorder(a):
    """byte order the array's memory is in (its elements' values are those read in that order)"""
    r = root_of(a.o)
    d = ctx().scratch.get("memorder", {})
    if id(r) in d:
        return d[id(r)][1]
    return ">" if a.dtype.byteorder == ">" else "<"


def set_memorder(a, order):
    r = root_of(a.o)
    ctx().scratch.setdefault("memorder", {})[id(r)] = (r, order)


def misordered(a):
    return a.dtype.itemsize > 1 and "memorder" in ctx().scratch and memorder(a) != (">" if a.dtype.byteorder == ">" else "<")


def from_np(a):
    """real ndarray -> SymArray (fresh storage)"""
    a = np.asarray(a)
    dt = a.dtype
    nd = native(dt)
    flat = a.ravel().tolist() if dt.kind in "buif" else list(a.ravel())
    if dt.kind == "f" and dt.itemsize > 8:
        flat = [float(x) for x in flat]
    o = obj_from_iter([norm(v, nd) for v in flat], a.shape)
    return SymArray(o, dt)


def is_symv(x):
    return isinstance(x, (SymArray, SymSel))


class SymArray:
    __slots__ = ("o", "dtype", "weak", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, o, dtype, weak=None):
        self.o = o
        self.dtype = dtype
        self.weak = weak

    # ------------------------------------------------------------ basics
    @property
    def shape(self):
        return self.o.shape

    @shape.setter
    def shape(self, s):
        self.o.shape = s

    @property
    def ndim(self):
        return self.o.ndim

    @property
    def size(self):
        return self.o.size

    @property
    def T(self):
        return SymArray(self.o.T, self.dtype)

    @property
    def nbytes(self):
        return self.o.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def flat(self):
        return [scalar(v, self.dtype) for v in self.o.ravel()]

    @property
    def flags(self):
        return self.o.flags

    @property
    def base(self):
        return self.o.base

    @property
    def real(self):
        return self

    @property
    def strides(self):
        return tuple(s * self.dtype.itemsize // 8 for s in self.o.strides)

    def is_scalar(self):
        return isinstance(self, SymScalar)

    def is_concrete(self):
        return builtins.all(concrete(v) for v in self.o.ravel())

    def to_np(self):
        """concrete SymArray -> real ndarray"""
        dt = self.dtype
        if dt.kind in "buif":
            flat = [scal.to_py(v, dt) for v in self.o.ravel()]
            return np.array(flat, dtype=dt).reshape(self.shape)
        return np.array(list(self.o.ravel()), dtype=dt).reshape(self.shape)

    def __len__(self):
        if self.o.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.o)

    def __iter__(self):
        if self.o.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.o)):
            yield self[i]

    def __repr__(self):
        try:
            if self.is_concrete():
                return repr(self.to_np())
        except Exception:
            pass
        return f"SymArray(shape={self.shape}, dtype={self.dtype})"

    __str__ = __repr__

    def __format__(self, spec):
        if self.o.ndim == 0 and self.is_concrete():
            return format(scal.to_py(self.o[()], self.dtype), spec)
        if self.o.ndim == 0 and self.dtype.kind == "f" and re.fullmatch(r"[+ ]?\d*\.\d+f", spec):
            return _number_text(self.o[()], int(spec[spec.index(".") + 1:-1]), spec)
        return "<sym>"

    def __bool__(self):
        if self.o.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. "
                "Use a.any() or a.all()"
            )
        return ctx_branch(scal.truth(self.o.ravel()[0], self.dtype))

    def _one(self):
        if self.o.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.o.ravel()[0]

    def __int__(self):
        v = self._one()
        k = self.dtype.kind
        if k == "f":
            if v.is_concrete():
                return int(v.to_float())
            c = ctx()
            if c.branch(v.nan):
                raise ValueError("cannot convert float NaN to integer")
            if c.branch(v.isinf):
                raise OverflowError("cannot convert float infinity to integer")
            t = v.trunc_int()
            return t if isinstance(t, int) else c.concretise_int(t)
        if k == "b":
            return int(ctx_branch(v))
        if isinstance(v, int):
            return v
        return ctx().concretise_int(v, signed=(k == "i"))

    def __index__(self):
        if self.dtype.kind not in "uib":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.__int__()

    def __float__(self):
        v = self._one()
        if self.dtype.kind == "f":
            if v.is_concrete():
                return v.to_float()
            return pin_float(v)
        return float(self.__int__())

    def __complex__(self):
        return complex(float(self))

    def __hash__(self):
        if self.is_scalar() and self.is_concrete():
            return hash(scal.to_py(self.o[()], self.dtype))
        raise TypeError("unhashable type: SymArray")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise TypeError("SymArray cannot be pickled")

    # ------------------------------------------------------------ numpy protocols
    def __array__(self, dtype=None, copy=None):
        if self.is_concrete():
            a = self.to_np()
        else:
            a = pin_array(self)
        return a if dtype is None else a.astype(dtype)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from .npcall import call_ufunc

        return call_ufunc(ufunc, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npcall import call_function

        return call_function(func, args, kwargs)

    # ------------------------------------------------------------ conversions
    def copy(self, order="C"):
        return _mk(self.o.copy(), self.dtype)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = to_dtype(dtype)
        if not copy and dt == self.dtype:
            return self
        return _like(self, cast_obj(self.o, self.dtype, dt), dt)

    def view(self, dtype=None, type=None):
        if dtype is None or to_dtype(dtype) == self.dtype:
            return SymArray(self.o, self.dtype)
        dt = to_dtype(dtype)
        if dt.itemsize == self.dtype.itemsize and dt.newbyteorder("=") == native(self.dtype):
            # same bytes read in the other order: only byteswap(inplace=True) makes the values meaningful
            set_memorder(self, memorder(self))
            return SymArray(self.o, dt)
        raise Inconclusive(f"view {self.dtype} as {dt}")

    def byteswap(self, inplace=False):
        if self.dtype.itemsize == 1:
            return self if inplace else self.copy()
        if not inplace:
            raise Inconclusive("byteswap into a copy")
        if self.o.size != root_of(self.o).size:
            raise Inconclusive("byteswap of a part of an array")
        set_memorder(self, ">" if memorder(self) == "<" else "<")
        return self

    def newbyteorder(self, o="S"):
        return SymArray(self.o, self.dtype.newbyteorder(o))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        v = self._one()
        if concrete(v) and not isinstance(v, XR):
            return v
        return SymScalar(obj_full((), v), self.dtype)

    def tolist(self):
        if self.o.ndim == 0:
            return scalar(self.o[()], self.dtype)
        return [x.tolist() if isinstance(x, SymArray) and x.ndim else x for x in self]

    def fill(self, v):
        self[...] = v

    # ------------------------------------------------------------ structure
    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1 and not isinstance(shape[0], (int, np.integer)):
            shape = shape[0]
            if is_symv(shape):
                shape = tuple(shape)
        if isinstance(shape, tuple) or isinstance(shape, list):
            shape = tuple(operator.index(s) for s in shape)
        return SymArray(self.o.reshape(shape, order=order), self.dtype)

    def ravel(self, order="C"):
        return SymArray(self.o.ravel(order), self.dtype)

    def flatten(self, order="C"):
        return SymArray(self.o.flatten(order), self.dtype)

    def transpose(self, *axes):
        return SymArray(self.o.transpose(*axes), self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self.o.swapaxes(a, b), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.o.squeeze(axis), self.dtype)

    def repeat(self, n, axis=None):
        return SymArray(self.o.repeat(_np_arg(n), axis), self.dtype)

    def diagonal(self, *a, **k):
        return SymArray(self.o.diagonal(*a, **k), self.dtype)

    def take(self, idx, axis=None, out=None, mode="raise"):
        return _np("take")(self, idx, axis=axis)

    def resize(self, *a, **k):
        raise Inconclusive("ndarray.resize")

    def tofile(self, fid, sep="", format="%s"):
        """binary write: zero bytes go to the real file, the terms are kept beside it"""
        if sep != "" or not hasattr(fid, "name"):
            raise Inconclusive("tofile mode")
        fid.flush()
        off = fid.seek(0, 2) if "a" in fid.mode else fid.tell()
        fid.write(bytes(self.size * self.dtype.itemsize))
        ctx().scratch.setdefault("files", {}).setdefault(str(fid.name), {}).update(
            {off + i * self.dtype.itemsize: (v, self.dtype) for i, v in enumerate(self.o.reshape(-1))})

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ------------------------------------------------------------ dispatch to numpy functions
    def __getattr__(self, name):
        if name in _METHODS:
            return lambda *a, **k: _np(name)(self, *a, **k)
        raise AttributeError(f"'SymArray' object has no attribute '{name}'")

    def sort(self, axis=-1, kind=None, order=None):
        self.o[...] = _np("sort")(self, axis=axis).o

    def partition(self, kth, axis=-1):
        self.sort(axis)


_METHODS = {
    "sum", "prod", "mean", "std", "var", "min", "max", "any", "all", "argmin", "argmax",
    "argsort", "cumsum", "cumprod", "nonzero", "clip", "round", "dot", "ptp", "searchsorted",
    "trace", "compress", "choose", "conj", "conjugate",
}


def _np(name):
    from .npcall import call_function

    f = getattr(np, name)
    return lambda *a, **k: call_function(f, a, k)


def _number_text(v, digits, spec):
    """decimal text of a symbolic float: a number of its own, read back (float, np.array) as the value rounded to so many digits"""
    c = ctx()
    if ctx_branch(v.nan):
        return format(float("nan"), spec)
    if ctx_branch(v.isinf):
        return format(float("inf") if ctx_branch(v.pinf) else float("-inf"), spec)
    toks = c.__dict__.setdefault("_texts", {})
    r = z3.Real(c.fresh("dec"))
    half = xreal.zr(Fraction(1, 2 * 10 ** digits))
    c.define(z3.And(r - xreal.zr(v.val) <= half, xreal.zr(v.val) - r <= half))
    t = f"{8675309000 + len(toks)}.{'1' * digits}" if digits else str(86753090000 + len(toks))
    toks[t] = XR(r)
    return t


def _from_text(x):
    """symbolic value of a text made by _number_text, else None"""
    if not isinstance(x, str):
        return None
    try:
        toks = ctx().__dict__.get("_texts")
    except Exception:
        return None
    if not toks:
        return None
    t = x.strip()
    neg = t.startswith("-")
    v = toks.get(t.lstrip("+-"))
    return None if v is None else pyfloat(v.neg() if neg else v)


def _texts_in(x):
    if isinstance(x, np.ndarray) and x.dtype.kind in "UO":
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [_texts_in(e) for e in x]
    v = _from_text(x)
    return x if v is None else v


class SymScalar(SymArray):
    """0-d value with numpy-scalar (or Python-scalar, if weak) behaviour: immutable."""

    __slots__ = ()

    def __round__(self, n=None):
        v = self.o[()]
        if self.dtype.kind == "f":
            if n is None:
                c = ctx_branch
                if c(v.nan):
                    raise ValueError("cannot convert float NaN to integer")
                if c(v.isinf):
                    raise OverflowError("cannot convert float infinity to integer")
                return pyint(v.round_int())
            return _np("round")(self, n)
        return self

    def is_integer(self):
        v = self.o[()]
        return ctx_branch(b_and(v.finite, v.with_int(v.floor_int()).eq(v)))

    def __trunc__(self):
        return pyint(self.o[()].trunc_int())

    def __floor__(self):
        return pyint(self.o[()].floor_int())

    def __ceil__(self):
        return pyint(self.o[()].ceil_int())


def pyint(v):
    if isinstance(v, int):
        return v
    return SymScalar(obj_full((), v), I8, weak="pyint")


def pyfloat(v):
    return SymScalar(obj_full((), v), F8, weak="pyfloat")


def pybool(v):
    if isinstance(v, bool):
        return v
    return SymScalar(obj_full((), v), BOOL)


def scalar(v, dt):
    """internal element -> what numpy indexing would return"""
    if dt.kind == "O":
        return v
    if isinstance(v, bool) and dt.kind == "b":
        return np.bool_(v)
    if isinstance(v, int) and dt.kind in "ui":
        return native(dt).type(v)
    if dt.kind in "buif":
        return SymScalar(obj_full((), v), dt)
    return v


def _mk(o, dt):
    """wrap result: 0-d results are scalars"""
    if not isinstance(o, np.ndarray):
        return scalar(o, dt)
    if o.ndim == 0:
        return scalar(o[()], dt)
    return SymArray(o, dt)


def _like(a, o, dt):
    if isinstance(a, SymScalar) or o.ndim == 0 and isinstance(a, SymScalar):
        return scalar(o[()], dt)
    return SymArray(o, dt)


def to_dtype(d):
    if d is None:
        return F8
    if isinstance(d, np.dtype):
        return d
    return np.dtype(d)


def cast_obj(o, src, dst):
    if src == dst or native(src) == native(dst):
        return o.copy()
    r = np.empty(o.shape, dtype=object)
    rf, of = r.reshape(-1), o.reshape(-1)
    ns, nd = native(src), native(dst)
    for i in range(rf.size):
        rf[i] = cast(of[i], ns, nd)
    return r


def ctx_branch(c):
    if isinstance(c, bool):
        return c
    return ctx().branch(c)


# ---------------------------------------------------------------- pinning (incomplete fallback)

def pin_float(v):
    c = ctx()
    c.engine.stats.concretised += 1
    note("pinned a symbolic float to one model value")
    if c.branch(v.nan):
        return float("nan")
    if c.branch(v.pinf):
        return float("inf")
    if c.branch(v.ninf):
        return float("-inf")
    val = v.val
    if isinstance(val, Fraction):
        return float(val)
    i = len(c.decisions)
    if i < len(c.prefix):
        f = c.prefix[i][0]
    else:
        m = c.pick_value(val)
        f = model_real_to_fraction(m)
    c.decisions.append((f, True))
    ff = Fraction(float(f))
    c.assume(val == z3.Q(f.numerator, f.denominator))
    return float(ff)


def model_real_to_fraction(m):
    if z3.is_rational_value(m):
        return Fraction(m.numerator_as_long(), m.denominator_as_long())
    if z3.is_algebraic_value(m):
        a = m.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(m):
        return Fraction(m.as_long())
    raise Inconclusive(f"no value for {m}")


def pin_array(a):
    out = np.empty(a.shape, dtype=native(a.dtype))
    of, af = out.reshape(-1), a.o.reshape(-1)
    for i in range(of.size):
        v = af[i]
        if concrete(v):
            of[i] = scal.to_py(v, a.dtype)
        elif a.dtype.kind == "f":
            of[i] = pin_float(v)
        elif a.dtype.kind == "b":
            of[i] = ctx().branch(v)
        else:
            of[i] = ctx().concretise_int(v, signed=a.dtype.kind == "i")
    return out


def note(msg):
    if has_ctx():
        ctx().notes.append(msg)


# ---------------------------------------------------------------- lifting

def lift(x):
    """any operand -> SymArray (SymScalar for scalars)"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, SymSel):
        return x.force()
    if isinstance(x, bool):
        return SymScalar(obj_full((), x), BOOL, weak="pybool")
    if isinstance(x, int) and not isinstance(x, np.generic):
        return SymScalar(obj_full((), x), I8, weak="pyint")
    if isinstance(x, float) and not isinstance(x, np.generic):
        return SymScalar(obj_full((), XR.of(x)), F8, weak="pyfloat")
    if isinstance(x, np.generic):
        return SymScalar(obj_full((), norm(x.item() if x.dtype.kind in "buif" else x, native(x.dtype))), x.dtype)
    if isinstance(x, np.ma.MaskedArray):
        raise Inconclusive("masked array operand")
    if isinstance(x, np.ndarray):
        return from_np(x)
    if isinstance(x, (list, tuple)):
        return make_array(x)
    if isinstance(x, range):
        return from_np(np.array(x))
    if isinstance(x, Fraction):
        return SymScalar(obj_full((), XR(x)), F8, weak="pyfloat")
    if x is None:
        return from_np(np.array(None))
    return from_np(np.asarray(x))


def make_array(x, dtype=None, copy=True, ndmin=0):
    """np.array / np.asarray for anything"""
    if isinstance(x, SymSel):
        x = x.force()
    if dtype is not None and (isinstance(x, (list, tuple, str)) or (isinstance(x, np.ndarray) and x.dtype.kind == "U")) and to_dtype(dtype).kind == "f":
        y = _texts_in(x)
        if _contains_sym(y):
            x = [e if not isinstance(e, str) else float(e) for e in y] if isinstance(y, list) and not any(isinstance(e, list) for e in y) else y
    if isinstance(x, SymArray):
        if dtype is None:
            r = SymArray(x.o.copy() if copy else x.o, x.dtype)
        else:
            dt = to_dtype(dtype)
            if dt == x.dtype and not copy:
                r = SymArray(x.o, x.dtype)
            else:
                r = SymArray(cast_obj(x.o, x.dtype, dt), dt)
        if isinstance(x, SymScalar) and r.o is x.o:
            r.o = r.o.copy()
    elif isinstance(x, (list, tuple)) and _contains_sym(x):
        parts = [make_array(e, dtype=None, copy=False) for e in x]
        weak = [_weak_of(e) for e in x]
        if dtype is not None:
            dt = to_dtype(dtype)
        else:
            dt = np.result_type(*[p.dtype for p in parts]) if parts else F8
        objs = [cast_obj(p.o, p.dtype, dt) for p in parts]
        shapes = {o.shape for o in objs}
        if len(shapes) != 1:
            raise ValueError("inhomogeneous shape")
        out = np.empty((len(objs),) + objs[0].shape, dtype=object)
        for i, o in enumerate(objs):
            out[i] = o if o.ndim else o[()]
        r = SymArray(out, dt)
    else:
        a = np.array(x, dtype=None if dtype is None else to_dtype(dtype))
        if a.dtype.kind in "US":
            return a        # texts are always concrete
        r = from_np(a)
    while r.ndim < ndmin:
        r = SymArray(r.o[None], r.dtype)
    return r


def _weak_of(e):
    return getattr(e, "weak", None)


def _contains_sym(x):
    if isinstance(x, (SymArray, SymSel)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(e) for e in x)
    return False


def _np_arg(x):
    """structural argument (index/shape/axis) -> real Python/numpy value"""
    if isinstance(x, SymArray):
        if x.is_concrete():
            a = x.to_np()
            return a[()] if x.ndim == 0 else a
        if x.ndim == 0:
            return operator.index(x)
        return pin_array(x)
    if isinstance(x, SymSel):
        return _np_arg(x.force())
    if isinstance(x, tuple):
        return tuple(_np_arg(e) for e in x)
    if isinstance(x, list):
        return [_np_arg(e) for e in x]
    if isinstance(x, slice):
        return slice(_np_arg(x.start), _np_arg(x.stop), _np_arg(x.step))
    if isinstance(x, dict):
        return {k: _np_arg(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- indexing

def _norm_key(key):
    """-> (list of key parts, index of symbolic mask or None, symbolic int positions)"""
    parts = list(key) if isinstance(key, tuple) else [key]
    masks, symints = [], []
    for i, p in enumerate(parts):
        if isinstance(p, SymSel):
            p = parts[i] = p.force()
        if isinstance(p, SymArray):
            if p.is_concrete():
                a = p.to_np()
                if p.ndim == 0:
                    a = bool(a) if a.dtype.kind == "b" else int(a)
                parts[i] = a
            elif p.dtype.kind == "b":
                masks.append(i)
            else:
                symints.append(i)
        elif isinstance(p, slice):
            parts[i] = slice(_np_arg(p.start), _np_arg(p.stop), _np_arg(p.step))
        elif isinstance(p, (list, tuple)) and _contains_sym(p):
            arr = make_array(p)
            parts[i] = arr.to_np() if arr.is_concrete() else arr
            if not arr.is_concrete():
                (masks if arr.dtype.kind == "b" else symints).append(i)
    return parts, masks, symints


def _plain(parts, key):
    return tuple(parts) if isinstance(key, tuple) else parts[0]


def _fork_mask(m):
    """concretise a symbolic mask by forking on each element (complete)"""
    out = np.zeros(m.shape, dtype=bool)
    of, mf = out.reshape(-1), m.o.reshape(-1)
    for i in range(of.size):
        of[i] = ctx_branch(mf[i])
    return out


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices ... are valid indices")
    parts, masks, symints = _norm_key(key)
    if not masks and not symints:
        k = _plain(parts, key)
        r = a.o[k]
        if isinstance(r, np.ndarray) and (r.ndim or _is_view_key(k)):
            return SymArray(r, a.dtype)
        return scalar(r, a.dtype)
    if len(masks) == 1 and not symints and parts[masks[0]].ndim > 0:
        return _mask_getitem(a, parts, masks[0], key)
    if masks:
        for i in masks:
            m = parts[i]
            parts[i] = _fork_mask(m) if m.ndim else ctx_branch(m.o[()])
        return getitem(a, _plain(parts, key))
    if len(symints) == 1:
        return _symint_getitem(a, parts, symints[0], key)
    p = parts[symints[0]]
    if p.ndim == 0:
        parts[symints[0]] = operator.index(p)
    else:
        parts[symints[0]] = pin_array_fork(p)
    return getitem(a, _plain(parts, key))


def pin_array_fork(a):
    out = np.empty(a.shape, dtype=native(a.dtype))
    of, af = out.reshape(-1), a.o.reshape(-1)
    for i in range(of.size):
        v = af[i]
        of[i] = v if isinstance(v, int) else ctx().concretise_int(v, signed=a.dtype.kind == "i")
    return out


def _is_view_key(k):
    ks = k if isinstance(k, tuple) else (k,)
    return builtins.any(x is Ellipsis for x in ks)


def _axis_of(parts, i):
    """array axis addressed by parts[i] (no Ellipsis before it; masks consume ndim axes)"""
    ax = 0
    for j, p in enumerate(parts[:i]):
        if p is None:
            continue
        if p is Ellipsis:
            return None
        if isinstance(p, np.ndarray) and p.dtype == bool:
            ax += p.ndim
        else:
            ax += 1
    return ax


def _symint_getitem(a, parts, i, key):
    p = parts[i]
    ax = _axis_of(parts, i)
    if ax is None:
        n_after = builtins.sum(1 for q in parts[i + 1:] if q is not None)
        ax = a.ndim - n_after - 1
    n = a.shape[ax]
    c = ctx()
    if p.ndim == 0:
        v = scal.as_int(p.o[()], p.dtype)
        inb = z3.And(v >= -n, v < n)
        if not c.branch(inb):
            raise IndexError(f"index out of bounds for axis {ax} with size {n}")
        pn = z3.simplify(z3.If(v < 0, v + n, v))
        res = None
        for j in range(n - 1, -1, -1):
            parts[i] = j
            r = getitem(a, _plain(parts, key))
            if res is None:
                res = r
            else:
                res = where3(SymScalar(obj_full((), pn == j), BOOL), r, res, a.dtype)
        return res
    # array of symbolic indices: only supported as a sole 1-axis key
    others = [q for j, q in enumerate(parts) if j != i]
    if others and not builtins.all(q is Ellipsis or (isinstance(q, slice) and q == slice(None)) for q in others):
        parts[i] = pin_array_fork(p)
        return getitem(a, _plain(parts, key))
    moved = np.moveaxis(a.o, ax, 0)
    out = np.empty(p.shape + moved.shape[1:], dtype=object)
    for ix in np.ndindex(*p.shape):
        r = getitem(SymArray(moved, a.dtype), SymScalar(obj_full((), p.o[ix]), p.dtype)) if not isinstance(p.o[ix], int) else getitem(SymArray(moved, a.dtype), p.o[ix])
        out[ix] = lift(r).o if lift(r).ndim else lift(r).o[()]
    # put the index axes back at position ax
    src = list(range(p.ndim))
    dst = list(range(ax, ax + p.ndim))
    return SymArray(np.moveaxis(out, src, dst), a.dtype)


def where3(c, x, y, dt=None):
    from .npcall import np_where

    r = np_where(c, x, y)
    if dt is not None and isinstance(r, SymArray) and r.dtype != dt:
        r = r.astype(dt)
    return r


def _mask_positions(a, parts, i, key):
    """ids selected when the mask is all-True, and the candidate number of each"""
    m = parts[i]
    p2 = list(parts)
    p2[i] = np.ones(m.shape, dtype=bool)
    k = _plain(p2, key)
    ids = np.arange(a.size).reshape(a.shape)[k]
    ax = _axis_of(parts, i)
    if ax is None:
        n_after = builtins.sum(
            (q.ndim if isinstance(q, np.ndarray) and q.dtype == bool else 1)
            for q in parts[i + 1:]
            if q is not None
        )
        ax = a.ndim - n_after - m.ndim
    if a.shape[ax:ax + m.ndim] != m.shape:
        raise IndexError(
            f"boolean index did not match indexed array: {m.shape} vs {a.shape}"
        )
    shp = [1] * a.ndim
    shp[ax:ax + m.ndim] = m.shape
    cand_full = np.broadcast_to(np.arange(m.size).reshape(shp), a.shape)
    cand = cand_full[k]
    return ids, cand, ax


def _mask_getitem(a, parts, i, key):
    m = parts[i]
    ids, cand, ax = _mask_positions(a, parts, i, key)
    # candidate axis of the result: the axis along which cand varies
    caxis = _cand_axis(cand, m.size)
    data = np.empty(ids.shape, dtype=object)
    af = a.o.reshape(-1)
    for ix in np.ndindex(*ids.shape):
        data[ix] = af[ids[ix]]
    data = np.moveaxis(data, caxis, 0)
    return SymSel(SymArray(data, a.dtype), list(m.o.reshape(-1)), caxis)


def _cand_axis(cand, n):
    for ax in range(cand.ndim):
        if cand.shape[ax] == n:
            mv = np.moveaxis(cand, ax, 0).reshape(n, -1)
            if (mv == np.arange(n)[:, None]).all():
                return ax
    return 0


def _same_mask(ms, present):
    return len(ms) == len(present) and builtins.all(
        (x is y) or (isinstance(x, bool) and isinstance(y, bool) and x == y)
        or (is_sym(x) and is_sym(y) and x.eq(y))
        for x, y in zip(ms, present)
    )


def setitem(a, key, val):
    if isinstance(a, SymScalar):
        raise TypeError("scalar does not support item assignment")
    parts, masks, symints = _norm_key(key)
    if not masks and not symints:
        k = _plain(parts, key)
        if isinstance(val, SymSel):
            val = val.force()
        v = lift(val)
        if v.dtype.kind == "f" and a.dtype.kind in "ui" and v.is_concrete():
            pass
        vo = cast_obj(v.o, v.dtype, a.dtype) if v.dtype != a.dtype else v.o
        if v.weak and a.dtype.kind == "u" and v.weak == "pyint" and isinstance(v.o[()], int):
            if not 0 <= v.o[()] <= np.iinfo(native(a.dtype)).max:
                raise OverflowError("Python integer out of bounds")
        tgt = a.o[k]
        if isinstance(tgt, np.ndarray):
            if vo.ndim == 0:
                vv = np.empty((1,), dtype=object)
                vv[0] = vo[()]
                a.o[k] = np.broadcast_to(vv, (1,)) if tgt.ndim else vv[0]
            else:
                if vo.base is not None or vo is a.o:
                    vo = vo.copy()
                a.o[k] = vo
        else:
            if vo.size != 1:
                raise ValueError("setting an array element with a sequence.")
            a.o[k] = vo.reshape(-1)[0]
        return
    if len(masks) == 1 and not symints and parts[masks[0]].ndim > 0:
        _mask_setitem(a, parts, masks[0], key, val)
        return
    if masks:
        for i in masks:
            m = parts[i]
            parts[i] = _fork_mask(m) if m.ndim else ctx_branch(m.o[()])
        setitem(a, _plain(parts, key), val)
        return
    if len(symints) == 1 and parts[symints[0]].ndim == 0:
        i = symints[0]
        p = parts[i]
        ax = _axis_of(parts, i)
        if ax is None:
            n_after = builtins.sum(1 for q in parts[i + 1:] if q is not None)
            ax = a.ndim - n_after - 1
        n = a.shape[ax]
        v = scal.as_int(p.o[()], p.dtype)
        if not ctx().branch(z3.And(v >= -n, v < n)):
            raise IndexError(f"index out of bounds for axis {ax} with size {n}")
        pn = z3.simplify(z3.If(v < 0, v + n, v))
        for j in range(n):
            parts[i] = j
            k = _plain(parts, key)
            old = getitem(a, k)
            setitem(a, k, where3(SymScalar(obj_full((), pn == j), BOOL), _cast_to(val, a.dtype), old, a.dtype))
        return
    for i in symints:
        p = parts[i]
        parts[i] = operator.index(p) if p.ndim == 0 else pin_array_fork(p)
    setitem(a, _plain(parts, key), val)


def _cast_to(val, dt):
    v = lift(val)
    o = cast_obj(v.o, v.dtype, dt)
    return SymArray(o, dt) if o.ndim else SymScalar(o, dt)


def _mask_setitem(a, parts, i, key, val):
    m = parts[i]
    ids, cand, ax = _mask_positions(a, parts, i, key)
    mf = m.o.reshape(-1)
    af = a.o if a.o.flags.c_contiguous else None
    caxis = _cand_axis(cand, m.size)
    if isinstance(val, SymSel):
        if not _same_mask(mf, val.present):
            parts[i] = _fork_mask(m)
            setitem(a, _plain(parts, key), val.force())
            return
        v = np.moveaxis(val.data.o, 0, caxis)
        vd = val.data.dtype
    else:
        lv = lift(val)
        v, vd = lv.o, lv.dtype
        if v.ndim and v.ndim >= ids.ndim - caxis and v.shape[v.ndim - (ids.ndim - caxis)] != 1:
            # as many values as selected elements: the count must be known
            mask = parts[i] = _fork_mask(m)
            setitem(a, _plain(parts, key), val)
            return
    if vd != a.dtype:
        v = cast_obj(v, vd, a.dtype)
    if v.ndim == 0:
        vb = None
        v0 = v[()]
    else:
        vb = np.broadcast_to(v, ids.shape)
    dt = native(a.dtype)
    upd = {}
    for ix in np.ndindex(*ids.shape):
        upd[int(ids[ix])] = (mf[cand[ix]], v0 if vb is None else vb[ix])
    for pos, (c, nv) in upd.items():
        ix = np.unravel_index(pos, a.shape)
        a.o[ix] = scal.ite(c, nv, a.o[ix], dt)


class SymSel:
    """Result of indexing with a symbolic mask: candidates along axis 0 of data, each present or not."""

    __array_priority__ = 2000

    def __init__(self, data, present, caxis=0):
        self.data = data
        self.present = present
        self.caxis = caxis
        self._forced = None

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return self.data.ndim

    def count(self):
        n = 0
        for p in self.present:
            n = scal.i_add(n, scal.cast(p, BOOL, I8), I8)
        return pyint(n)

    @property
    def size(self):
        c = self.count()
        rest = self.data.size // builtins.max(1, len(self.present))
        return c * rest

    def __len__(self):
        if self.caxis != 0:
            return len(self.force())
        return len(self.force())

    @property
    def shape(self):
        return self.force().shape

    def force(self):
        """concretise the mask by forking"""
        if self._forced is None:
            keep = [i for i, p in enumerate(self.present) if ctx_branch(p)]
            d = self.data.o[keep] if keep else self.data.o[:0]
            self._forced = SymArray(np.moveaxis(d, 0, self.caxis), self.data.dtype)
        return self._forced

    def map(self, f, *others):
        """elementwise; others are scalars or SymSel with the same mask; None if impossible"""
        args = []
        for o in others:
            if isinstance(o, SymSel):
                if not _same_mask(o.present, self.present) or o.caxis != self.caxis:
                    return None
                args.append(o.data)
            elif isinstance(o, (SymArray, np.ndarray)) and o.ndim > 0:
                if o.size == 1:
                    args.append(lift(o).reshape(())[()] if isinstance(o, SymArray) else o.reshape(())[()])
                else:
                    return None
            elif isinstance(o, (list, tuple)):
                return None
            else:
                args.append(o)
        r = f(*args)
        return SymSel(lift(r), self.present, self.caxis)

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __setitem__(self, k, v):
        f = self.force()
        f[k] = v

    def __array__(self, dtype=None, copy=None):
        return self.force().__array__(dtype)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from .npcall import call_ufunc

        return call_ufunc(ufunc, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npcall import call_function

        return call_function(func, args, kwargs)

    def copy(self):
        return SymSel(self.data.copy(), self.present, self.caxis)

    def astype(self, dt, **k):
        return SymSel(self.data.astype(dt), self.present, self.caxis)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in _METHODS:
            return lambda *a, **k: _np(name)(self, *a, **k)
        return getattr(self.force(), name)

    def __bool__(self):
        return bool(self.force())

    def __hash__(self):
        raise TypeError("unhashable")


# ---------------------------------------------------------------- operators

_BIN = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
    "floordiv": np.floor_divide, "mod": np.remainder, "pow": np.power, "and": np.bitwise_and,
    "or": np.bitwise_or, "xor": np.bitwise_xor, "lshift": np.left_shift,
    "rshift": np.right_shift,
}
_CMP = {
    "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
    "eq": np.equal, "ne": np.not_equal,
}


def _install():
    from . import npcall

    def mkbin(uf):
        def f(self, o):
            if isinstance(o, (str, dict)) or o is None and uf not in (np.equal, np.not_equal):
                return NotImplemented
            if getattr(type(o), "__array_ufunc__", 0) is None:
                return NotImplemented       # numpy's protocol for operands that do it themselves
            return npcall.call_ufunc(uf, "__call__", (self, o), {})

        def r(self, o):
            if isinstance(o, (str, dict)) or o is None:
                return NotImplemented
            return npcall.call_ufunc(uf, "__call__", (o, self), {})

        def i(self, o):
            if isinstance(self, SymScalar) or isinstance(self, SymSel):
                return npcall.call_ufunc(uf, "__call__", (self, o), {})
            return npcall.call_ufunc(uf, "__call__", (self, o), {"out": (self,)})

        return f, r, i

    for cls in (SymArray, SymSel):
        for n, uf in _BIN.items():
            f, r, i = mkbin(uf)
            setattr(cls, f"__{n}__", f)
            setattr(cls, f"__r{n}__", r)
            setattr(cls, f"__i{n}__", i)
        for n, uf in _CMP.items():
            f, _, _ = mkbin(uf)
            if n in ("eq", "ne"):
                def g(self, o, _f=f, _n=n):
                    if o is None or isinstance(o, (str, dict, type)):
                        return _n == "ne"
                    return _f(self, o)
                setattr(cls, f"__{n}__", g)
            else:
                setattr(cls, f"__{n}__", f)
        for n, uf in (("neg", np.negative), ("pos", np.positive), ("abs", np.absolute), ("invert", np.invert)):
            setattr(cls, f"__{n}__", (lambda u: lambda self: npcall.call_ufunc(u, "__call__", (self,), {}))(uf))
        setattr(cls, "__matmul__", lambda self, o: npcall.call_function(np.matmul, (self, o), {}))
        setattr(cls, "__rmatmul__", lambda self, o: npcall.call_function(np.matmul, (o, self), {}))
        setattr(cls, "__divmod__", lambda self, o: (self // o, self % o))
    # __eq__ assignment via setattr keeps explicit __hash__ definitions
