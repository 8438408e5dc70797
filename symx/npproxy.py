"""A numpy look-alike module: array-producing calls return SymArrays."""
import math as _math
import types

import numpy as np

from . import arr as A
from . import npcall
from .arr import SymArray, SymScalar, SymSel, _np_arg, from_np, lift, make_array, obj_full, scalar, to_dtype
from .core import Inconclusive
from .scal import BOOL, F8, I8


# ---------------------------------------------------------------- dtype classes

class _DTMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymScalar) and not x.weak:
            return A.native(x.dtype) == cls.dtype
        if isinstance(x, SymScalar) and x.weak == "pyfloat" and cls.dtype == F8:
            return True
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "_real", sub), cls._real)

    def __eq__(cls, o):
        return cls is o or cls._real is o or (isinstance(o, np.dtype) and o == cls.dtype)

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SymSel):
            x = x.force()
        if isinstance(x, SymArray):
            r = x.astype(cls.dtype)
            return scalar(r.o[()], cls.dtype) if r.ndim == 0 else r
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim:
            return make_array(x, dtype=cls.dtype)
        return cls._real(x, *a, **k)


def _mkdt(real):
    return _DTMeta(real.__name__, (), {"dtype": np.dtype(real), "_real": real, "__module__": "numpy"})


_DT = {}
for _n in ("bool_", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
           "float32", "float64", "intp", "uintp", "float16", "longdouble"):
    _r = getattr(np, _n)
    _DT[_n] = next((v for v in _DT.values() if v._real is _r), None) or _mkdt(_r)
_DT["bool"] = _DT["bool_"]
_DT["double"] = _DT["float64"]
_DT["single"] = _DT["float32"]
_DT["intc"] = _DT["int32"]
_DT["uintc"] = _DT["uint32"]
_DT["int_"] = _DT["int64"]
_DT["uint"] = _DT["uint64"]
_DT["byte"] = _DT["int8"]
_DT["ubyte"] = _DT["uint8"]
_DT["short"] = _DT["int16"]
_DT["ushort"] = _DT["uint16"]
_DT["longlong"] = _DT["int64"]


class _AbsMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymScalar):
            if x.weak == "pyint" or x.weak == "pybool":
                return False
            if x.weak == "pyfloat":
                return cls._real in (np.floating, np.inexact, np.number, np.generic)
            return issubclass(A.native(x.dtype).type, cls._real)
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "_real", sub), cls._real)

    def __eq__(cls, o):
        return cls is o or cls._real is o

    def __hash__(cls):
        return hash(cls._real)


_ABS = {
    n: _AbsMeta(n, (), {"_real": getattr(np, n)})
    for n in ("integer", "signedinteger", "unsignedinteger", "floating", "inexact", "number", "generic")
}


class _NdMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymScalar):
            return False
        return isinstance(x, (SymArray, SymSel, np.ndarray))

    def __call__(cls, shape, dtype=float, **k):
        return npcall.np_empty(shape, dtype)


class ndarray(metaclass=_NdMeta):
    pass


# ---------------------------------------------------------------- creation

def _w(f):
    """creation with concrete arguments, wrapped"""

    def g(*a, **k):
        r = f(*[_dtarg(_np_arg(x)) for x in a], **{n: _dtarg(_np_arg(v)) for n, v in k.items()})
        return npcall._wrap_tree(r)

    return g


def _dtarg(x):
    if isinstance(x, type) and hasattr(x, "_real"):
        return x._real
    return x


def full(shape, fill_value, dtype=None, order="C", **k):
    v = lift(fill_value)
    shape = _np_arg(shape)
    dt = to_dtype(dtype) if dtype is not None else v.dtype
    vo = A.cast_obj(v.o, A.native(v.dtype), A.native(dt))
    if vo.ndim == 0:
        return SymArray(obj_full(shape, vo[()]), dt)
    return SymArray(np.broadcast_to(vo, shape).copy(), dt)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(x, (map, filter, zip)) or isinstance(x, types.GeneratorType):
        x = list(x)
    return make_array(x, dtype=dtype, copy=copy is not False and copy is not None, ndmin=ndmin)


def asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, SymArray) and not isinstance(x, SymScalar) and (dtype is None or to_dtype(dtype) == x.dtype):
        return x
    return make_array(x, dtype=dtype, copy=False)


def arange(*a, dtype=None, **k):
    a = [_np_arg(x) if not (isinstance(x, SymArray) and not x.is_concrete() and x.dtype.kind == "f") else float(x) for x in a]
    return from_np(np.arange(*a, dtype=None if dtype is None else to_dtype(dtype), **k))


def fromiter(it, dtype=float, count=-1, **k):
    return make_array(list(it), dtype=dtype)


class _GridProxy:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, key):
        return npcall._wrap_tree(self.real[_np_arg(key)])


class _RC:
    def __init__(self, real, axis):
        self.real, self.axis = real, axis

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if A._contains_sym(list(ks)):
            parts = [lift(k) if not isinstance(k, slice) else from_np(self.real[k]) for k in ks]
            if self.axis:
                parts = [SymArray(p.o.reshape(-1, 1) if p.ndim < 2 else p.o, p.dtype) for p in parts]
                return npcall.call_function(np.concatenate, (parts,), {"axis": 1})
            parts = [SymArray(p.o.reshape(-1), p.dtype) if p.ndim == 0 else p for p in parts]
            return npcall.call_function(np.concatenate, (parts,), {"axis": 0})
        return npcall._wrap_tree(self.real[key])


def iinfo(x):
    return np.iinfo(_dtarg(x) if not isinstance(x, SymArray) else x.dtype)


def finfo(x):
    return np.finfo(_dtarg(x) if not isinstance(x, SymArray) else x.dtype)


def issubdtype(a, b):
    f = lambda t: {int: np.int64, float: np.float64}.get(_dtarg(t), _dtarg(t))  # noqa: E731
    a = getattr(a, "_pyreal", a)
    b = getattr(b, "_pyreal", b)
    return np.issubdtype(f(a) if not isinstance(a, SymArray) else a.dtype, f(b))


def vectorize(f, otypes=None, **k):
    def g(*args):
        ls = [lift(a) for a in args]
        bs = np.broadcast_arrays(*[x.o for x in ls])
        out = [f(*[scalar(b[ix], l.dtype) for b, l in zip(bs, ls)]) for ix in np.ndindex(*bs[0].shape)]
        r = make_array(out, dtype=otypes[0] if otypes else None)
        return r.reshape(bs[0].shape) if bs[0].ndim else r[0]

    return g


def _unravel(idx, shape, order="C"):
    i = lift(idx)
    if i.is_concrete():
        return tuple(int(x) if i.ndim == 0 else from_np(x) for x in np.unravel_index(i.to_np() if i.ndim else int(i), shape))
    out = []
    for n in reversed(shape[1:]):
        out.append(i % n)
        i = i // n
    out.append(i)
    return tuple(reversed(out))


def fromfile(file, dtype=float, count=-1, sep="", offset=0):
    dt = to_dtype(dtype)
    if sep != "" or count != -1 or not hasattr(file, "name"):
        raise Inconclusive("fromfile mode")
    pos = file.tell() + offset
    n = (file.seek(0, 2) - pos) // dt.itemsize
    cells = A.ctx().scratch.get("files", {}).get(str(file.name), {})
    out = np.empty(n, dtype=object)
    for i in range(n):
        v, d = cells.get(pos + i * dt.itemsize, (None, None))
        if v is None or d != dt:
            raise Inconclusive("file read does not match what was written")
        out[i] = v
    return SymArray(out, dt)


_CREATE = {
    "fromfile": fromfile,
    "zeros": lambda shape, dtype=float, order="C", **k: full(shape, 0, dtype),
    "ones": lambda shape, dtype=float, order="C", **k: full(shape, 1, dtype),
    "empty": npcall.np_empty, "full": full, "array": array, "asarray": asarray,
    "asanyarray": asarray, "ascontiguousarray": asarray, "asfortranarray": asarray, "asarray_chkfinite": asarray,
    "arange": arange, "fromiter": fromiter, "require": asarray,
    "iinfo": iinfo, "finfo": finfo, "issubdtype": issubdtype, "vectorize": vectorize,
    "ndindex": lambda *s: np.ndindex(*_np_arg(s)),
    "unravel_index": _unravel,
    "linspace": npcall.np_linspace,
}
for _n in ("eye", "identity", "indices", "tri", "diag_indices", "ix_", "triu_indices", "tril_indices",
           "logspace", "geomspace", "fromfunction", "ravel_multi_index", "hamming", "loadtxt", "load"):
    _CREATE[_n] = _w(getattr(np, _n))


def _ndenumerate(a):
    a = lift(a)
    for ix in np.ndindex(*a.shape):
        yield ix, a[ix]


_CREATE["ndenumerate"] = _ndenumerate


class _UF:
    """proxy of a numpy ufunc (keeps identity of the real one)"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if npcall._any_sym(a) or npcall._any_sym(k) or _has_nd(a):
            k = dict(k)
            if isinstance(k.get("dtype"), type):
                k["dtype"] = to_dtype(k["dtype"])
            return npcall.call_ufunc(self._uf, "__call__", a, k)
        return npcall._wrap_tree(self._uf(*a, **k))

    def __getattr__(self, n):
        if n in ("reduce", "accumulate", "outer", "at", "reduceat"):
            def f(*a, **k):
                if n in ("reduce", "accumulate") and a and isinstance(a[0], (list, tuple)):
                    a = (make_array(a[0]),) + a[1:]
                return npcall.call_ufunc(self._uf, n, a, k)
            return f
        return getattr(self._uf, n)


def _has_nd(x):
    if isinstance(x, (np.ndarray,)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_nd(e) for e in x)
    return False


def _fn(f):
    def g(*a, **k):
        a = tuple(_dtarg(x) for x in a)
        k = {n: _dtarg(v) for n, v in k.items()}
        if npcall._any_sym(a) or npcall._any_sym(k) or _has_nd(a) or _has_nd(list(k.values())) or any(isinstance(x, list) for x in a):
            return npcall.call_function(f, a, k)
        return npcall._wrap_tree(f(*a, **k))

    g.__name__ = getattr(f, "__name__", "f")
    g._np = f
    return g


class NpModule(types.ModuleType):
    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__["_realmod"] = real
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        v = c[name] = self._make(name)
        return v

    def _make(self, name):
        if name in _DT:
            return _DT[name]
        if name in _ABS:
            return _ABS[name]
        if name == "ndarray":
            return ndarray
        if name in _CREATE:
            return _CREATE[name]
        r = getattr(self._realmod, name)
        if name == "linalg":
            return NpModule("numpy.linalg", r)
        if name in ("mgrid", "ogrid"):
            return _GridProxy(r)
        if name == "r_":
            return _RC(r, 0)
        if name == "c_":
            return _RC(r, 1)
        if name in ("s_", "index_exp", "newaxis", "errstate", "dtype", "seterr", "geterr", "printoptions",
                    "set_printoptions", "random", "testing", "typing", "exceptions", "lib", "ma", "char",
                    "strings", "VisibleDeprecationWarning", "RankWarning"):
            return r
        if isinstance(r, np.ufunc):
            return _UF(r)
        if isinstance(r, types.ModuleType):
            return r
        if isinstance(r, type):
            return r
        if callable(r):
            return _fn(r)
        return r


NP = NpModule("numpy", np)


# ---------------------------------------------------------------- math

class MathModule(types.ModuleType):
    _UFN = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "log10": "log10",
            "log2": "log2", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "fabs": "fabs",
            "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "radians": "radians", "degrees": "degrees",
            "hypot": "hypot", "pow": "power", "copysign": "copysign", "fmod": "fmod", "cbrt": "cbrt"}

    def __getattr__(self, name):
        r = getattr(_math, name)
        if not callable(r):
            return r
        if name in self._UFN:
            uf = getattr(np, self._UFN[name])

            def f(*a):
                if npcall._any_sym(a):
                    if name == "log" and len(a) == 2:
                        return f(a[0]) / f(a[1])
                    if name == "sqrt":
                        x = lift(a[0])
                        if A.ctx_branch(x.o.reshape(-1)[0].lt(A.ZERO)):
                            raise ValueError("math domain error")
                    v = npcall.call_ufunc(uf, "__call__", a, {})
                    if isinstance(v, SymScalar) and v.dtype.kind == "f":
                        return A.pyfloat(v.o[()])
                    return v
                return r(*a)

            return f
        if name in ("floor", "ceil", "trunc"):
            def f(x):
                if isinstance(x, (SymArray, SymSel)):
                    x = lift(x)
                    v = x.o.reshape(-1)[0]
                    if x.dtype.kind != "f":
                        return A.pyint(v)
                    if A.ctx_branch(v.nan):
                        raise ValueError("cannot convert float NaN to integer")
                    if A.ctx_branch(v.isinf):
                        raise OverflowError("cannot convert float infinity to integer")
                    return A.pyint(getattr(v, {"floor": "floor_int", "ceil": "ceil_int", "trunc": "trunc_int"}[name])())
                return r(x)

            return f

        def g(*a, **k):
            if name == "isclose" and npcall._any_sym(a):
                x, y = lift(a[0]), lift(a[1])
                rel, ab = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                d = abs(x - y)
                return (d <= rel * abs(x)) | (d <= rel * abs(y)) | (d <= ab)
            return r(*[npcall._conc_tree(x) for x in a], **k)

        return g


MATH = MathModule("math")
