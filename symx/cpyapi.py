"""CPython / numpy C API and libc, as seen by the IR interpreter."""
import os

import numpy as np

from . import arr as A
from . import llvm, scal
from .arr import SymArray, SymScalar, lift
from .core import Inconclusive, b_and, b_not, b_or, ctx
from .llvm import NULL, UNDEF, CFault, Func, Ptr, Region
from .scal import as_bv, as_int
from .xreal import XR, uf
from .z3boot import z3

TYPENUM = {"b1": 0, "i1": 1, "u1": 2, "i2": 3, "u2": 4, "i4": 5, "u4": 6, "i8": 7, "u8": 8, "f4": 11, "f8": 12}
DT = {v: np.dtype(k) for k, v in TYPENUM.items()} | {9: np.dtype("i8"), 10: np.dtype("u8")}


class ArrayMem:
    """memory of a numpy array (any strides), cells are the engine's elements"""

    def __init__(self, a, fill=None):
        self.a = a
        self.dt = A.native(a.dtype)
        self.swapped = a.dtype.itemsize > 1 and A.memorder(a) == ">"
        it = self.dt.itemsize
        self.strides = [s // 8 * it for s in a.o.strides]
        self.index = {}
        for ix in np.ndindex(*a.shape):
            self.index.setdefault(sum(i * s for i, s in zip(ix, self.strides)), ix)
        self.lo = min(self.index, default=0)  # negative strides
        self.index = {k - self.lo: v for k, v in self.index.items()}
        self.nbytes = max(self.index) + it if self.index else 0
        self.empty = fill == "empty"

    def kind(self):
        return "f" if self.dt.kind == "f" else "i"

    def load(self, off, n, kind):
        if n != self.dt.itemsize or off not in self.index:
            raise CFault(f"misplaced {n}-byte access to a {self.dt} array at byte {off}")
        v = self.a.o[self.index[off]]
        if v is UNDEF:
            return UNDEF
        if self.swapped:
            # the raw bytes of a foreign-endian value: some other value
            c = ctx()
            return XR(z3.Real(c.fresh("swapped"))) if kind == "f" else z3.BitVec(c.fresh("swapped"), 8 * n)
        if self.kind() != kind:
            raise Inconclusive(f"{kind} access to {self.dt} array")
        if kind == "f":
            return v
        if isinstance(v, (int, bool)):
            return int(v) & ((1 << (8 * n)) - 1)
        return as_bv(v, self.dt)

    def store(self, off, n, kind, v):
        if n != self.dt.itemsize or off not in self.index:
            raise CFault(f"misplaced {n}-byte write to a {self.dt} array at byte {off}")
        if v is UNDEF:
            self.a.o[self.index[off]] = UNDEF
            return
        if self.kind() != kind:
            if isinstance(v, int) and v == 0:
                v = XR.of(0)
            else:
                raise Inconclusive("type-punned array write")
        self.a.o[self.index[off]] = scal.norm(v, self.dt) if not isinstance(v, z3.ExprRef) else v


class CExt:
    """one C extension module: callable functions over engine values"""

    def __init__(self, path, functions):
        self.path = path
        self.mod = llvm.Module(llvm.to_ir(path), EXT)
        self.name = os.path.basename(path)
        m = self.mod
        for f in functions:
            setattr(self, f, lambda *a, _f=f: call_py(m, _f, a))


def handle(m, v):
    """Python object -> pointer"""
    if v is None:
        return m.glob("_Py_NoneStruct")
    cache = m.gl.setdefault("*objs", {})
    k = id(v)
    if k not in cache:
        cache[k] = (v, Ptr(Region(0, "extern", name=f"obj:{type(v).__name__}", obj=v), 0))
    return cache[k][1]


def value(m, p):
    if p == m.glob("_Py_NoneStruct"):
        return None
    if isinstance(p, Ptr) and p.r is not None and p.r.fill == "extern":
        return p.r.obj
    raise CFault(f"not a Python object: {p}")


def call_py(m, name, args):
    m.reset()
    m.err = None
    m.heap = []
    m.store(m.glob("PyArray_API"), 8, "p", Ptr(Region(0, "extern", name="numpy api", obj="numpy"), 0))
    try:
        r = m.call(name, [NULL, handle(m, tuple(args))])
    finally:
        m._oracle = None
    if r == NULL:
        e = m.err or (SystemError, "returned NULL without setting an exception")
        ex = e[0](e[1])
        ex._from_code = True
        raise ex
    if m.err is not None:
        ex = SystemError(f"a result was returned with an exception set: {m.err}")
        ex._from_code = True
        raise ex
    return finish(value(m, r))


def finish(v):
    if isinstance(v, (tuple, list)):
        return type(v)(finish(x) for x in v)
    if isinstance(v, dict):
        return {k: finish(x) for k, x in v.items()}
    if isinstance(v, SymArray):
        for ix in np.ndindex(*v.shape):
            if v.o[ix] is UNDEF:  # never written: any value
                c = ctx()
                n = c.fresh("unwritten")
                v.o[ix] = XR(z3.Real(n), z3.Bool(n + "n")) if v.dtype.kind == "f" else z3.BitVec(n, v.dtype.itemsize * 8)
    return v


def arr_of(m, p):
    v = value(m, p)
    if not isinstance(v, SymArray):
        if isinstance(v, np.ndarray):
            return lift(v)
        raise CFault("array function on a non-array")
    return v


def mem_of(m, p):
    a = arr_of(m, p)
    cache = m.gl.setdefault("*mem", {})
    k = id(a)
    if k not in cache:
        am = ArrayMem(a)
        cache[k] = (a, Ptr(Region(am.nbytes, "array", name=f"array{a.shape}", obj=am), -am.lo), am)
    return cache[k]


def intvec(vals):
    r = Region(8 * len(vals), name="dims")
    for i, v in enumerate(vals):
        r.cells[8 * i] = (8, "i", v & ((1 << 64) - 1))
    return Ptr(r, 0)


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


# ---------------------------------------------------------------- libc

def _int(v):
    return v if isinstance(v, int) else ctx().concretise_int(v)


@ext("calloc")
def _calloc(m, a):
    n = _int(a[0]) * _int(a[1])
    if n >= 1 << 40:
        return NULL
    return Ptr(Region(n, "zero", name="heap", heap=True), 0)


@ext("malloc", "PyMem_Malloc")
def _malloc(m, a):
    return Ptr(Region(_int(a[0]), name="heap", heap=True), 0)


@ext("free", "PyMem_Free")
def _free(m, a):
    p = a[0]
    if p == NULL:
        return None
    if not p.r.heap or p.off:
        raise CFault("free of something not allocated")
    if p.r.freed:
        raise CFault("double free")
    p.r.freed = True


@ext("memset", "llvm.memset.p0.i64")
def _memset(m, a):
    m.memset(a[0], _int(a[1]), _int(a[2]))
    return a[0]


@ext("memcpy", "llvm.memcpy.p0.p0.i64", "memmove", "llvm.memmove.p0.p0.i64")
def _memcpy(m, a):
    m.memcpy(a[0], a[1], _int(a[2]))
    return a[0]


@ext("printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fclose", "fwrite", "fputc")
def _print(m, a):
    return 0


@ext("snprintf", "sprintf")
def _snprintf(m, a):
    # the text of messages is not modelled
    m.store(a[0], 1, "i", 0)
    return 0


@ext("getpid", "time")
def _getpid(m, a):
    return 1


@ext("strcmp")
def _strcmp(m, a):
    x, y = m.cstr(a[0]), m.cstr(a[1])
    return 0 if x == y else (1 if x > y else 0xFFFFFFFF)


@ext("strlen")
def _strlen(m, a):
    return len(m.cstr(a[0]))


def _f1(name, *names):
    def d(f):
        for n in (name, *names):
            def g(m, a, f=f):
                if any(x is UNDEF for x in a):
                    raise CFault(f"{name} of an uninitialised value")
                return f(*a)
            EXT[n] = g
        return f
    return d


@_f1("sqrt", "sqrtf", "llvm.sqrt.f64", "llvm.sqrt.f32")
def _sqrt(x):
    return x.sqrt()


@_f1("fabs", "fabsf", "llvm.fabs.f64", "llvm.fabs.f32")
def _fabs(x):
    return x.abs()


@_f1("powf", "pow", "llvm.pow.f64", "llvm.pow.f32")
def _pow(x, y):
    if isinstance(x.val, z3.ExprRef) and y.is_concrete() and y.val.denominator == 1 and abs(y.val) < 9:
        return x.pow_int(int(y.val))
    return scal.f_pow(x, y)


@_f1("fmin", "fminf", "llvm.minnum.f64")
def _fmin(x, y):
    return scal.fmin(x, y, scal.F8)


@_f1("fmax", "fmaxf", "llvm.maxnum.f64")
def _fmax(x, y):
    return scal.fmax(x, y, scal.F8)


@_f1("llvm.fmuladd.f64", "fma")
def _fma(x, y, z):
    return x.mul(y).add(z)


@_f1("floor", "llvm.floor.f64", "floorf")
def _floor(x):
    return x.with_int(x.floor_int())


@_f1("ceil", "llvm.ceil.f64", "ceilf")
def _ceil(x):
    return x.with_int(x.ceil_int())


@_f1("llvm.is.fpclass.f64", "llvm.is.fpclass.f32")
def _fpclass(x, mask):
    r = []
    if mask & 3:
        if mask & 3 != 3:
            raise Inconclusive("signalling NaN test")
        r.append(x.nan)
    if mask & 4:
        r.append(x.ninf)
    if mask & 512:
        r.append(x.pinf)
    fin = mask & 0x1F8
    if fin == 0x1F8:
        r.append(x.finite)
    elif fin:
        if mask & 0x18 == 0x18 or not mask & 0x18:  # negative normal and subnormal together
            if mask & 0x18:
                r.append(x._negv() if x.ninf is False else b_and(x._negv(), b_not(x.ninf)))
        if fin & 0x60 == 0x60:
            r.append(x._iszero())
        if fin & 0x180 == 0x180:
            r.append(x._pos() if x.pinf is False else b_and(x._pos(), b_not(x.pinf)))
        if bin(fin & 0x18).count("1") == 1 or bin(fin & 0x60).count("1") == 1 or bin(fin & 0x180).count("1") == 1:
            raise Inconclusive("fpclass %x" % mask)
    return b_or(*r)


@ext("qsort")
def _qsort(m, a):
    base, n, size, cmp = a[0], _int(a[1]), _int(a[2]), a[3]
    if size != 8:
        raise Inconclusive("qsort of items not 8 bytes long")
    vs = [m.load(Ptr(base.r, base.off + 8 * i), 8, "f") for i in range(n)]
    if any(v is UNDEF for v in vs):
        raise CFault("sorting uninitialised values")

    def greater(x, y):
        r = Region(16, name="cmp")
        r.cells[0], r.cells[8] = (8, "f", x), (8, "f", y)
        out = []
        for c, v in m.call_merged(cmp.name, [Ptr(r, 0), Ptr(r, 8)]):
            if isinstance(v, z3.BitVecRef):
                out.append(b_and(c, z3.simplify(v > 0)))
                continue
            if not isinstance(v, int):
                raise Inconclusive(f"comparison result {v}")
            if 0 < v < 1 << 31:
                out.append(c)
        return b_or(*out)

    # bubble network; compare-exchange driven by the program's own comparison function
    for i in range(n):
        for j in range(n - 1 - i):
            c = greater(vs[j], vs[j + 1])
            if c is False:
                continue
            vs[j], vs[j + 1] = XR.ite(c, vs[j + 1], vs[j]), XR.ite(c, vs[j], vs[j + 1])
    for i, v in enumerate(vs):
        m.store(Ptr(base.r, base.off + 8 * i), 8, "f", v)


# ---------------------------------------------------------------- CPython

@ext("Py_INCREF", "Py_DECREF", "Py_XDECREF", "Py_XINCREF", "_Py_Dealloc", "PyErr_Print", "PyGILState_Release")
def _nop(m, a):
    return None


EXC = {"PyExc_MemoryError": MemoryError, "PyExc_ValueError": ValueError, "PyExc_TypeError": TypeError, "PyExc_IndexError": IndexError,
       "PyExc_RuntimeError": RuntimeError}


@ext("PyErr_SetString")
def _seterr(m, a):
    o = a[0].r.obj if isinstance(a[0], Ptr) and a[0].r is not None else None
    name = o[0] if isinstance(o, tuple) else o
    m.err = (EXC.get(name, Exception), m.cstr(a[1]))


@ext("PyErr_Occurred")
def _occurred(m, a):
    return NULL if m.err is None else handle(m, m.err)


@ext("PyErr_Clear")
def _clear(m, a):
    m.err = None


@ext("PyArg_ParseTuple")
def _parse(m, a):
    args = value(m, a[0])
    fmt = m.cstr(a[1])
    fmt = (fmt.decode() if isinstance(fmt, bytes) else fmt).split(":")[0].split(";")[0]
    fmt, need = fmt.replace("|", ""), len(fmt.split("|")[0])
    outs = list(a[2:])
    if not need <= len(args) <= len(fmt):
        m.err = (TypeError, "wrong number of arguments")
        return 0
    for f, v, p in zip(fmt, args, outs):
        if f == "O":
            m.store(p, 8, "p", handle(m, v))
        elif f == "s":
            if not isinstance(v, str):
                m.err = (TypeError, "string expected")
                return 0
            m.store(p, 8, "p", m.string(v))
        elif f in "Iip":
            v = lift(v).o[()] if isinstance(v, SymArray) else v
            if f == "p":
                v = bool(v)
            v = int(v) if not isinstance(v, z3.ExprRef) else ctx().concretise_int(v if not z3.is_bool(v) else z3.If(v, z3.IntVal(1), z3.IntVal(0)))
            m.store(p, 4, "i", v & 0xFFFFFFFF)
        else:
            raise Inconclusive("PyArg_ParseTuple " + f)
    return 1


@ext("PyObject_GetAttrString")
def _getattr(m, a):
    o, n = value(m, a[0]), m.cstr(a[1])
    try:
        return handle(m, _keep(m, getattr(o, n)))
    except AttributeError as e:
        m.err = (AttributeError, str(e))
        return NULL


def _keep(m, v):
    if isinstance(v, np.ndarray):
        v = lift(v)
    m.gl.setdefault("*keep", []).append(v)
    return v


@ext("PyFloat_AsDouble")
def _asdouble(m, a):
    v = value(m, a[0])
    if isinstance(v, SymArray):
        if v.size != 1:
            m.err = (TypeError, "must be real number")
            return XR.of(-1)
        return A.cast(v.o.reshape(-1)[0], A.native(v.dtype), A.F8)
    if v is None or isinstance(v, str):
        m.err = (TypeError, "must be real number")
        return XR.of(-1)
    return XR.of(float(v) if not isinstance(v, int) else int(v))


@ext("PyLong_AsLong")
def _aslong(m, a):
    v = value(m, a[0])
    if isinstance(v, SymArray) and v.dtype.kind in "iub":
        x = v.o.reshape(-1)[0]
        x = x if isinstance(x, int) else ctx().concretise_int(as_int(x, A.native(v.dtype)))
        return x & ((1 << 64) - 1)
    if isinstance(v, (int, np.integer, np.bool_)):
        return int(v) & ((1 << 64) - 1)
    m.err = (TypeError, "an integer is required")
    return (1 << 64) - 1


@ext("Py_BuildValue")
def _build(m, a):
    fmt = m.cstr(a[0]).replace(" ", "")
    args = list(a[1:])

    def item(i):
        c = fmt[i]
        if c in "([{":
            out, i = [], i + 1
            while fmt[i] not in ")]}":
                if fmt[i] in ",:":
                    i += 1
                    continue
                v, i = item(i)
                out.append(v)
            if c == "{":
                return dict(zip(out[::2], out[1::2])), i + 1
            return (tuple(out) if c == "(" else out), i + 1
        x = args.pop(0)
        if c == "s":
            return m.cstr(x), i + 1
        if c in "ONS":
            if x == NULL:
                raise CFault("NULL object in Py_BuildValue")
            return value(m, x), i + 1
        if c in "iIlLkn":
            return llvm.signed(x, 64 if c in "lLkn" else 32), i + 1
        if c in "df":
            return A.pyfloat(x), i + 1
        raise Inconclusive("Py_BuildValue " + c)
    try:
        v, _ = item(0)
    except CFault:
        if m.err is not None:
            return NULL
        raise
    return handle(m, _keep(m, v))


@ext("PyTuple_New")
def _tn(m, a):
    raise Inconclusive("PyTuple_New")


@ext("_import_array", "PyModule_Create2", "PyImport_ImportModule", "PyCapsule_GetPointer")
def _imp(m, a):
    return 0


# ---------------------------------------------------------------- numpy

@ext("PyArray_BYTES", "PyArray_DATA")
def _bytes(m, a):
    return mem_of(m, a[0])[1]


@ext("PyArray_STRIDES")
def _strides(m, a):
    x, _, am = mem_of(m, a[0])
    return intvec(am.strides)


@ext("PyArray_DIMS", "PyArray_SHAPE")
def _dims(m, a):
    return intvec(list(arr_of(m, a[0]).shape))


@ext("PyArray_NDIM")
def _ndim(m, a):
    return arr_of(m, a[0]).ndim


@ext("PyArray_DIM")
def _dim(m, a):
    return arr_of(m, a[0]).shape[_int(a[1])]


@ext("PyArray_STRIDE")
def _stride(m, a):
    return mem_of(m, a[0])[2].strides[_int(a[1])] & ((1 << 64) - 1)


@ext("PyArray_TYPE")
def _type(m, a):
    return TYPENUM.get(arr_of(m, a[0]).dtype.newbyteorder("=").str[1:], 17)


@ext("PyArray_SIZE")
def _size(m, a):
    return arr_of(m, a[0]).size


@ext("*indirect")
def _indirect(m, f, a):
    """call through the numpy API table"""
    if not (isinstance(f, Ptr) and f.r is not None and isinstance(f.r.obj, tuple)):
        raise Inconclusive(f"indirect call {f}")
    slot = f.r.obj[1] // 8
    if slot == 45:  # PyArray_DescrFromType
        return handle(m, _keep(m, DT[_int(a[0])]))
    if slot in (183, 184):  # PyArray_Zeros, PyArray_Empty
        nd = _int(a[0])
        shape = tuple(_int(m.load(Ptr(a[1].r, a[1].off + 8 * i), 8, "i")) for i in range(nd))
        dt = value(m, a[2])
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = UNDEF if slot == 184 else scal.norm(0, dt)
        return handle(m, _keep(m, SymArray(o, dt)))
    raise Inconclusive(f"numpy API slot {slot}")
