"""Load stcal modules from source with numpy/math/builtins replaced by symbolic versions."""
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import arr as A
from . import npcall, npproxy
from .arr import SymArray, SymScalar, SymSel, lift, pybool, pyfloat, pyint
from .core import Inconclusive
from .xreal import XR

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


# ---------------------------------------------------------------- builtins

class _TyMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymScalar):
            return x.weak in cls._weak or (cls._pyreal is float and x.dtype == A.F8)
        return isinstance(x, cls._pyreal)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "_pyreal", sub), cls._pyreal)

    def __eq__(cls, o):
        return cls is o or cls._pyreal is o

    def __hash__(cls):
        return hash(cls._pyreal)

    def __repr__(cls):
        return repr(cls._pyreal)

    def __or__(cls, o):
        return cls._pyreal | getattr(o, "_pyreal", o)

    def __ror__(cls, o):
        return getattr(o, "_pyreal", o) | cls._pyreal

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls._pyreal, n)


def _to_int(*a, **k):
    if a and isinstance(a[0], (SymArray, SymSel)):
        x = lift(a[0])
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = x.o.reshape(-1)[0]
        kd = x.dtype.kind
        if kd == "f":
            if A.ctx_branch(v.nan):
                raise ValueError("cannot convert float NaN to integer")
            if A.ctx_branch(v.isinf):
                raise OverflowError("cannot convert float infinity to integer")
            return pyint(v.trunc_int())
        return pyint(A.scal.as_int(v, x.dtype))
    return int(*a, **k)


def _to_float(*a):
    if a and isinstance(a[0], (SymArray, SymSel)):
        x = lift(a[0])
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = A.cast(x.o.reshape(-1)[0], A.native(x.dtype), A.F8)
        return v.to_float() if v.is_concrete() else pyfloat(v)
    if a and isinstance(a[0], str):
        v = A._from_text(a[0])
        if v is not None:
            return v
    return float(*a)


def _to_bool(*a):
    return bool(*a)


Int = _TyMeta("int", (), {"_pyreal": int, "_conv": staticmethod(_to_int), "_weak": ("pyint",), "dtype": np.dtype(np.int64)})
Float = _TyMeta("float", (), {"_pyreal": float, "_conv": staticmethod(_to_float), "_weak": ("pyfloat",), "dtype": np.dtype(np.float64)})
Bool = _TyMeta("bool", (), {"_pyreal": bool, "_conv": staticmethod(_to_bool), "_weak": ("pybool",), "dtype": np.dtype(bool)})


def _minmax(is_max):
    real = builtins.max if is_max else builtins.min

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k.get("key") is None and any(isinstance(x, (SymArray, SymSel)) for x in xs) and "default" not in k:
            r = xs[0]
            for x in xs[1:]:
                c = (x > r) if is_max else (x < r)
                if isinstance(c, (SymArray,)) and not c.is_concrete():
                    rr = npcall.np_where(c, x, r)
                    w = [getattr(lift(v), "weak", None) for v in (x, r)]
                    if isinstance(rr, SymScalar) and all(w):
                        rr = SymScalar(rr.o, rr.dtype, weak="pyfloat" if rr.dtype.kind == "f" else "pyint")
                    r = rr
                elif c:
                    r = x
            return r
        return real(xs, **k) if len(a) == 1 else real(*a, **k)

    return f


def _len(x):
    return len(x)


def _isinstance(x, t):
    return isinstance(x, t)


def _sum(it, start=0):
    if isinstance(it, (SymArray,)) and it.ndim == 1:
        return npcall.red_sum(it) + start
    r = start
    for x in it:
        r = r + x
    return r


def _print(*a, **k):
    return None


def _round(x, n=None):
    if isinstance(x, (SymArray, SymSel)):
        x = lift(x)
        return x.__round__(n) if isinstance(x, SymScalar) else npcall.np_round(x, n or 0)
    return round(x, n) if n is not None else round(x)


def _sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


OVERRIDES = {
    "int": Int, "float": Float, "bool": Bool, "min": _minmax(False), "max": _minmax(True),
    "sum": _sum, "print": _print, "round": _round,
}


# ---------------------------------------------------------------- stub modules

class _NullLog:
    level = 0

    def __getattr__(self, n):
        if n == "isEnabledFor":
            return lambda *a: False
        return lambda *a, **k: None


class _Logging(types.ModuleType):
    def __getattr__(self, n):
        import logging

        if n == "getLogger":
            return lambda *a: _NullLog()
        r = getattr(logging, n)
        return r


LOGGING = _Logging("logging")


class _Time(types.ModuleType):
    def __getattr__(self, n):
        import time

        return getattr(time, n)


class Loader:
    """One namespace of symbolically loaded modules."""

    def __init__(self, shims=None, stub_ext=None):
        self.modules = {}
        self.shims = dict(shims or {})       # module name -> replacement module
        self.ext = dict(stub_ext or {})      # stcal extension module name -> replacement
        self.loaded_files = []
        b = dict(builtins.__dict__)
        b.update(OVERRIDES)
        b["__import__"] = self._import
        self.builtins = b
        from . import shims as S

        self.default_shims = S.modules(self)

    def _external(self, name):
        if name in self.shims:
            return self.shims[name]
        if name in self.default_shims:
            return self.default_shims[name]
        top = name.split(".")[0]
        if top == "numpy":
            m = npproxy.NP
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if name == "math":
            return npproxy.MATH
        if name == "logging":
            return LOGGING
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = f"{base}.{name}" if name else base
        if name.split(".")[0] == "stcal":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = f"{name}.{f}"
                        if self._find(sub) or sub in self.ext or sub in self.shims or os.path.exists(os.path.join(SRC, *sub.split(".")) + ".pyx"):
                            setattr(m, f, self.load(sub))
                        else:
                            # compiled extension
                            try:
                                setattr(m, f, self._load_ext(sub))
                            except ImportError:
                                pass
                return m
            return self.load("stcal")
        ext = self._external(name)
        if fromlist:
            for f in fromlist:
                sub = f"{name}.{f}"
                if sub in self.shims or sub in self.default_shims:
                    continue
            return ext
        return self._external(name.split(".")[0]) if "." in name else ext

    def _find(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def _load_ext(self, name):
        if name in self.ext:
            return self.ext[name]
        m = types.ModuleType(name)

        def missing(n):
            def f(*a, **k):
                raise Inconclusive(f"compiled extension {name}.{n}")
            return f

        m.__getattr__ = missing
        return m

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.shims:
            return self.shims[name]
        if name in self.ext:
            return self.ext[name]
        f = self._find(name)
        if f is None:
            base = os.path.join(SRC, *name.split("."))
            if os.path.exists(base + ".pyx"):
                f = base + ".pyx", False
            elif name.startswith("stcal."):
                return self._load_ext(name)
            else:
                raise ImportError(name)
        path, is_pkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        if name == "stcal":
            # package root only records a version; executing it needs nothing symbolic
            pass
        if path.endswith(".pyx"):
            from . import pyx

            src = pyx.translate(path, name)
            m.__dict__.update(pyx.namespace())
        else:
            with open(path) as fh:
                src = fh.read()
        self.loaded_files.append(path)
        code = compile(src, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m
