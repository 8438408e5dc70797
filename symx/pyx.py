"""Cython modules: translation of the source (parsed by Cython's own parser) to Python that runs on engine values.

C types are kept where they matter: integers are truncated on assignment, structs are copied, memory views share memory,
division follows the cdivision directive, vectors and enums are classes of the run-time part below.  Indices out of
range are errors here (the compiled code reads whatever is there).
"""
import hashlib
import math
import os
import subprocess
import sys

import numpy as np

from . import arr as A
from .arr import SymArray, SymScalar, lift, scalar
from .core import Inconclusive

INT = {"char", "short", "int", "long", "size_t", "Py_ssize_t", "ssize_t", "int8_t", "int16_t", "int32_t", "int64_t",
       "uint8_t", "uint16_t", "uint32_t", "uint64_t"}
REAL = {"float", "double", "float32_t", "float64_t"}


# ---------------------------------------------------------------- run time

def _real(v):
    """value of a C floating variable"""
    if isinstance(v, SymArray) or isinstance(v, (int, float, np.generic)):
        a = lift(v)
        if a.size != 1:
            raise TypeError("only a scalar can be converted to a C number")
        return scalar(A.cast(a.o.reshape(-1)[0], A.native(a.dtype), A.F8), A.F8)
    if hasattr(v, "force"):
        return _real(v.force())
    raise TypeError(f"must be real number, not {type(v).__name__}")


def _integer(v):
    if isinstance(v, (bool, int)) or isinstance(v, np.integer):
        return int(v)
    if isinstance(v, SymScalar) or hasattr(v, "force") or isinstance(v, (float, np.floating, np.bool_)):
        from .loader import Int

        return Int(v)
    raise TypeError(f"an integer is required, not {type(v).__name__}")


class Vec:
    """std::vector, std::list"""

    def __init__(self, ty, n=0):
        self._ty = ty
        if isinstance(n, Vec):
            self._v = [copy(x) for x in n._v]
        else:
            self._v = [zero(ty) for _ in range(int(n))]

    def push_back(self, x):
        self._v.append(conv(self._ty, x))

    def back(self):
        if not self._v:
            raise IndexError("back of an empty vector")
        return self._v[-1]

    def front(self):
        if not self._v:
            raise IndexError("front of an empty vector")
        return self._v[0]

    def pop_back(self):
        if not self._v:
            raise IndexError("pop_back of an empty vector")
        self._v.pop()

    def empty(self):
        return not self._v

    def size(self):
        return len(self._v)

    def clear(self):
        self._v = []

    def reserve(self, n):
        pass

    def resize(self, n):
        n = int(n)
        self._v = self._v[:n] + [zero(self._ty) for _ in range(n - len(self._v))]

    def _at(self, i):
        i = int(i)
        if not 0 <= i < len(self._v):
            raise IndexError(f"vector index {i} of {len(self._v)}")
        return i

    def __getitem__(self, i):
        return self._v[self._at(i)]

    at = __getitem__

    def __setitem__(self, i, x):
        self._v[self._at(i)] = conv(self._ty, x)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def copy(self):
        return Vec(self._ty, self)


class VecType:
    def __init__(self, ty=None):
        self.ty = ty

    def __getitem__(self, ty):
        return VecType(ty)

    def __call__(self, n=0):
        return Vec(self.ty, n)


class Struct:
    _fields = {}

    def __init__(self, *a, **k):
        for (n, ty), v in zip(self._fields.items(), a):
            object.__setattr__(self, n, conv(ty, v))
        for n, v in k.items():
            object.__setattr__(self, n, conv(self._fields[n], v))
        for n, ty in self._fields.items():
            if n not in self.__dict__ and (isinstance(ty, VecType) or isinstance(ty, type) and issubclass(ty, Struct)):
                object.__setattr__(self, n, zero(ty))

    def __setattr__(self, n, v):
        object.__setattr__(self, n, conv(self._fields[n], v))

    def __getitem__(self, n):
        return getattr(self, n)

    def copy(self):
        r = type(self).__new__(type(self))
        for n, v in self.__dict__.items():
            object.__setattr__(r, n, copy(v))
        return r


def copy(v):
    return v.copy() if isinstance(v, (Struct, Vec)) else v


class CClass:
    _fields = {}

    def __setattr__(self, n, v):
        object.__setattr__(self, n, conv(self._fields.get(n), v))


class Array:
    """C array type; its values are lists"""

    def __init__(self, ty, n):
        self.ty, self.n = ty, n

    def __eq__(self, o):
        return self is o


class View:
    """typed memory view or buffer"""

    def __init__(self, base, ndim):
        self.base, self.ndim = base, ndim


DT = {"float": "f4", "double": "f8", "int": "i4", "long": "i8", "char": "i1", "short": "i2"}


def dtype_of(base):
    n = base if isinstance(base, str) else None
    if n in DT:
        return np.dtype(DT[n])
    if n and n.endswith("_t"):
        return np.dtype(n[:-2])
    return None


def conv(ty, v):
    if ty is None:
        return v
    if ty == "real":
        return _real(v)
    if ty == "int":
        return _integer(v)
    if ty == "bool":
        return bool(v)
    if isinstance(ty, Array):
        v = list(v)
        if len(v) > ty.n:
            raise ValueError("too many values for a C array")
        return [conv(ty.ty, x) for x in v] + [zero(ty.ty) for _ in range(ty.n - len(v))]
    if isinstance(ty, View):
        if isinstance(v, np.ndarray):
            v = lift(v)
        if hasattr(v, "force"):
            v = v.force()
        if not isinstance(v, SymArray) or isinstance(v, SymScalar):
            raise TypeError(f"a buffer is required, not {type(v).__name__}")
        if ty.ndim and v.ndim != ty.ndim:
            raise ValueError(f"Buffer has wrong number of dimensions (expected {ty.ndim}, got {v.ndim})")
        want = dtype_of(ty.base)
        if want is not None and (A.native(v.dtype) != want or A.memorder(v) == ">"):
            raise ValueError(f"Buffer dtype mismatch, expected '{ty.base}' but got {v.dtype}")
        return v
    if isinstance(ty, tuple):
        v = tuple(v)
        if len(v) != len(ty):
            raise ValueError("wrong number of values")
        return tuple(conv(t, x) for t, x in zip(ty, v))
    if isinstance(ty, type) and issubclass(ty, Struct) or isinstance(ty, VecType):
        return copy(v)
    return v


def zero(ty):
    if ty == "real":
        return _real(0.0)
    if ty == "int":
        return 0
    if ty == "bool":
        return False
    if isinstance(ty, type) and issubclass(ty, Struct) or isinstance(ty, VecType):
        return ty()
    if isinstance(ty, Array):
        return [zero(ty.ty) for _ in range(ty.n)]
    return None


def cdiv(a, b):
    """division without checks; of two C integers too (true division)"""
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        a, b = [_real(x) if isinstance(x, (int, float)) else x for x in (a, b)]
    return a / b


def pydiv(a, b):
    for x in (b,):
        if not isinstance(x, SymArray) or isinstance(x, SymScalar):
            if x == 0:
                raise ZeroDivisionError("float division")
    return cdiv(a, b)


def at(a, k):
    """element of a memory view or buffer: no negative indices"""
    if isinstance(a, (SymArray, list)):
        for i in k if isinstance(k, tuple) else (k,):
            if isinstance(i, (int, np.integer)) and i < 0:
                raise IndexError(f"index {i} of a memory view")
    return a[k]


def cpow(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b >= 0:
        return int(a) ** int(b)
    if isinstance(b, int) and 0 <= b <= 8:
        r = _real(1.0)
        for _ in range(b):
            r = r * a
        return r
    return _real(a) ** _real(b)


def _lib():
    from .npproxy import NP

    def fmax(a, b):
        return NP.fmax(_real(a), _real(b))

    def fmin(a, b):
        return NP.fmin(_real(a), _real(b))

    f = {n: (lambda x, _n=n: getattr(NP, _n)(_real(x))) for n in ("sqrt", "log10", "log", "exp", "floor", "ceil", "fabs")}
    m = {"NAN": float("nan"), "INFINITY": float("inf"), "isnan": lambda x: NP.isnan(_real(x)), "isfinite": lambda x: NP.isfinite(_real(x)),
         "isinf": lambda x: NP.isinf(_real(x)), "pow": lambda a, b: cpow(_real(a), _real(b)), "fmax": fmax, "fmin": fmin, "M_PI": math.pi} | f
    for n in ("sqrt", "log10", "log", "exp", "floor", "ceil", "fabs", "fmax", "fmin", "pow"):
        m[n + "f"] = m[n]
    nop = lambda *a, **k: (lambda fn: fn)  # noqa: E731
    return {"libc.math": m, "libcpp.vector": {"vector": VecType()}, "libcpp.list": {"list": VecType()}, "libcpp": {"bool": "bool"},
            "libcpp.cmath": m, "libcpp.algorithm": {},
            "cython": {n: nop for n in ("boundscheck", "wraparound", "cdivision", "cpow", "initializedcheck", "nonecheck", "inline", "final")}}


class _Cnp:
    def import_array(self):
        pass

    def __getattr__(self, n):
        from .npproxy import NP

        return getattr(NP, n)


class _Nothing:
    """with cpow(True): and other directives"""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


DIRECTIVES = ("boundscheck", "wraparound", "cdivision", "cpow", "initializedcheck", "nonecheck", "nogil", "gil")


# ---------------------------------------------------------------- translation

class Unsupported(Inconclusive):
    pass


class Writer:
    def __init__(self, cdivision=False):
        self.out = []
        self.ind = 0
        self.types = [{}]        # declared names -> type expression
        self.cdiv = [cdivision]
        self.attrs = {}          # cdef class -> {attribute: type expression}
        self.ret = []

    def line(self, s):
        self.out.append("    " * self.ind + s)

    def n(self, node):
        return type(node).__name__

    # types
    def ty(self, node, decl=None):
        """type expression, None for Python objects"""
        if node is None:
            return None
        k = self.n(node)
        if decl is not None and self.n(decl) == "CArrayDeclaratorNode":
            dims = []
            while self.n(decl) == "CArrayDeclaratorNode":
                dims.append(decl.dimension)
                decl = decl.base
            t = self.ty(node)
            for d in dims:
                if d is None or self.n(d) != "IntNode":
                    raise Unsupported("C array of computed size")
                t = f"__Array__({t}, {self.e(d)})"
            return t
        if decl is not None and self.n(decl) == "CPtrDeclaratorNode":
            raise Unsupported("pointers in Cython code")
        if k == "CSimpleBaseTypeNode":
            name = node.name
            if name is None:
                return None
            if node.is_basic_c_type:
                if name in REAL:
                    return "'real'"
                if name in INT or name == "void":
                    return "'int'" if name != "void" else None
                if name in ("bint",):
                    return "'bool'"
                raise Unsupported(f"C type {name}")
            if node.module_path:
                last = name
                return "'real'" if last in REAL else "'int'" if last in INT else None
            if name in ("list", "dict", "tuple", "object", "str", "set", "float", "int"):
                return None
            if name in REAL:
                return "'real'"
            if name in INT:
                return "'int'"
            return f"__type__({name!r}, globals())"
        if k == "CComplexBaseTypeNode":
            return self.ty(node.base_type, node.declarator)
        if k == "MemoryViewSliceTypeNode":
            return f"__View__({self.basename(node.base_type_node)!r}, {len(node.axes)})"
        if k == "TemplatedTypeNode":
            b = node.base_type_node
            if b.module_path and b.name == "ndarray":
                nd = 0
                for i in (node.keyword_args.key_value_pairs if node.keyword_args else []):
                    if i.key.value == "ndim":
                        nd = int(i.value.value)
                base = node.positional_args[0] if node.positional_args else None
                return f"__View__({self.basename(base)!r}, {nd})"
            if b.name in ("list", "dict", "tuple", "set"):
                return None
            if all(self.n(a) == "IntNode" for a in node.positional_args):
                t = self.ty(b)
                for a in node.positional_args:
                    t = f"__Array__({t}, {self.e(a)})"
                return t
            return f"{b.name}[{', '.join(str(self.ty(a)) for a in node.positional_args)}]"
        if k == "NameNode":          # a template argument
            return "'real'" if node.name in REAL else "'int'" if node.name in INT else node.name
        if k == "IndexNode":
            return f"{self.ty(node.base)}[{self.ty(node.index)}]"
        if k == "CTupleBaseTypeNode":
            return "(" + "".join(str(self.ty(c)) + ", " for c in node.components) + ")"
        if k == "CConstOrVolatileTypeNode":
            return self.ty(node.base_type, decl)
        raise Unsupported(f"type {k}")

    def basename(self, node):
        k = self.n(node)
        if k == "CComplexBaseTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.basename(node.base_type)
        return getattr(node, "name", None)

    def declname(self, d):
        while not hasattr(d, "name") or self.n(d) != "CNameDeclaratorNode":
            d = d.base
        return d

    # expressions
    def e(self, x):
        k = self.n(x)
        f = getattr(self, "e_" + k, None)
        if f is not None:
            return f(x)
        if hasattr(x, "operand1") and hasattr(x, "operator"):
            op = x.operator.replace("_", " ")
            return f"({self.e(x.operand1)} {op} {self.e(x.operand2)})"
        raise Unsupported(f"Cython expression {k}")

    def e_IntNode(self, x):
        return str(x.value).rstrip("uUlL")

    def e_FloatNode(self, x):
        return str(x.value)

    def e_NoneNode(self, x):
        return "None"

    def e_EllipsisNode(self, x):
        return "..."

    def e_BoolNode(self, x):
        return str(bool(x.value))

    def e_NameNode(self, x):
        return x.name

    def e_UnicodeNode(self, x):
        return repr(str(x.value))

    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, x):
        return repr(x.value)

    def e_JoinedStrNode(self, x):
        return "''.join([" + ", ".join(self.e(v) for v in x.values) + "])"

    def e_FormattedValueNode(self, x):
        return f"format({self.e(x.value)})"

    def e_ListNode(self, x):
        return "[" + ", ".join(self.e(a) for a in x.args) + "]"

    def e_TupleNode(self, x):
        return "(" + "".join(self.e(a) + ", " for a in x.args) + ")"

    def e_SetNode(self, x):
        return "{" + ", ".join(self.e(a) for a in x.args) + "}"

    def e_DictNode(self, x):
        return "{" + ", ".join(f"{self.e(i.key)}: {self.e(i.value)}" for i in x.key_value_pairs) + "}"

    def e_NotNode(self, x):
        return f"(not {self.e(x.operand)})"

    def e_UnaryMinusNode(self, x):
        return f"(-{self.e(x.operand)})"

    def e_UnaryPlusNode(self, x):
        return f"(+{self.e(x.operand)})"

    def e_TildeNode(self, x):
        return f"(~{self.e(x.operand)})"

    def e_DivNode(self, x):
        op = x.operator
        if op == "/":
            return f"{'__cdiv__' if self.cdiv[-1] else '__pydiv__'}({self.e(x.operand1)}, {self.e(x.operand2)})"
        return f"({self.e(x.operand1)} {op} {self.e(x.operand2)})"

    e_ModNode = e_DivNode

    def e_PowNode(self, x):
        return f"__cpow__({self.e(x.operand1)}, {self.e(x.operand2)})"

    def e_CondExprNode(self, x):
        return f"({self.e(x.true_val)} if {self.e(x.condition)} else {self.e(x.false_val)})"

    def e_AttributeNode(self, x):
        return f"{self.e(x.obj)}.{x.attribute}"

    def e_SliceNode(self, x):
        g = lambda v: "" if v is None or v.is_none else self.e(v)  # noqa: E731
        return f"{g(x.start)}:{g(x.stop)}" + (f":{g(x.step)}" if not x.step.is_none else "")

    def index(self, i):
        if self.n(i) == "TupleNode":
            return ", ".join(self.index(a) for a in i.args)
        return self.e(i)

    def e_IndexNode(self, x):
        if self.n(x.base) == "NameNode" and self.isvec(x.base.name):
            return f"{x.base.name}[{self.tyexpr(x.index)}]"
        if "SliceNode" in [self.n(a) for a in getattr(x.index, "args", [x.index])]:
            return f"{self.e(x.base)}[{self.index(x.index)}]"
        return f"__at__({self.e(x.base)}, ({self.index(x.index)}))"

    def isvec(self, name):
        return name in ("vector", "cpp_list")

    def tyexpr(self, x):
        if self.n(x) == "NameNode":
            return "'real'" if x.name in REAL else "'int'" if x.name in INT else x.name
        return self.e(x)

    def target(self, x):
        k = self.n(x)
        if k in ("TupleNode", "ListNode"):
            return ", ".join(self.target(a) for a in x.args)
        if k == "IndexNode":
            return f"{self.e(x.base)}[{self.index(x.index)}]"
        return self.e(x)

    def e_SliceIndexNode(self, x):
        g = lambda v: "" if v is None else self.e(v)  # noqa: E731
        return f"{self.e(x.base)}[{g(x.start)}:{g(x.stop)}]"

    def e_SimpleCallNode(self, x):
        return f"{self.e(x.function)}({', '.join(self.e(a) for a in x.args)})"

    def e_GeneralCallNode(self, x):
        a = x.positional_args
        args = [self.e(v) for v in a.args] if self.n(a) == "TupleNode" else [f"*{self.e(a)}"]
        kw = x.keyword_args
        if kw is not None:
            if self.n(kw) == "DictNode":
                args += [f"{i.key.value}={self.e(i.value)}" for i in kw.key_value_pairs]
            else:
                args.append(f"**{self.e(kw)}")
        return f"{self.e(x.function)}({', '.join(args)})"

    def comp(self, x, o, c):
        loop = x.loop
        clauses, body = [], loop
        while True:
            k = self.n(body)
            if k == "ForInStatNode":
                clauses.append(f"for {self.target(body.target)} in {self.e(body.iterator.sequence)}")
                body = body.body
            elif k == "IfStatNode":
                clauses.append(f"if {self.e(body.if_clauses[0].condition)}")
                body = body.if_clauses[0].body
            elif k == "StatListNode" and len(body.stats) == 1:
                body = body.stats[0]
            else:
                break
        if k == "ComprehensionAppendNode":
            v = self.e(body.expr)
        elif k == "DictComprehensionAppendNode":
            v = f"{self.e(body.dict_item.key)}: {self.e(body.dict_item.value)}"
        else:
            v = self.e(body.expr.arg)
        return f"{o}{v} {' '.join(clauses)}{c}"

    def e_ComprehensionNode(self, x):
        t = x.type.py_type_name() if hasattr(x.type, "py_type_name") else "list"
        return self.comp(x, *("[]" if "list" in t else "{}"))

    def e_GeneratorExpressionNode(self, x):
        return self.comp(x, "(", ")")

    def e_TypecastNode(self, x):
        return f"__conv__({self.ty(x.base_type, x.declarator)}, {self.e(x.operand)})"

    def e_PrimaryCmpNode(self, x):
        s = f"{self.e(x.operand1)} {x.operator.replace('_', ' ')} {self.e(x.operand2)}"
        c = x.cascade
        while c is not None:
            s += f" {c.operator.replace('_', ' ')} {self.e(c.operand2)}"
            c = c.cascade
        return f"({s})"

    # statements
    def s(self, x):
        k = self.n(x)
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported(f"Cython statement {k}")
        f(x)

    def body(self, x):
        self.ind += 1
        k = len(self.out)
        self.s(x)
        if len(self.out) == k:
            self.line("pass")
        self.ind -= 1

    def s_StatListNode(self, x):
        for y in x.stats:
            self.s(y)

    def s_PassStatNode(self, x):
        self.line("pass")

    def s_ExprStatNode(self, x):
        if getattr(x.expr, "annotation", None) is not None:
            self.line(f"{self.e(x.expr)}: object")
        else:
            self.line(self.e(x.expr))

    def s_ReturnStatNode(self, x):
        v = "None" if x.value is None else self.e(x.value)
        t = self.ret[-1] if self.ret else None
        self.line(f"return __conv__({t}, {v})" if t and x.value is not None else f"return {v}")

    def s_ContinueStatNode(self, x):
        self.line("continue")

    def s_BreakStatNode(self, x):
        self.line("break")

    def s_RaiseStatNode(self, x):
        v = "" if x.exc_type is None else " " + self.e(x.exc_type)
        if x.cause is not None:
            v += f" from {self.e(x.cause)}"
        self.line("raise" + v)

    def s_AssertStatNode(self, x):
        self.line(f"assert {self.e(x.condition)}")

    def s_GlobalNode(self, x):
        self.line("global " + ", ".join(x.names))

    def fix(self, t):
        """convert typed names just assigned"""
        k = self.n(t)
        if k in ("TupleNode", "ListNode"):
            for a in t.args:
                self.fix(a)
        elif k == "NameNode" and self.types[-1].get(t.name):
            self.line(f"{t.name} = __conv__({self.types[-1][t.name]}, {t.name})")

    def s_SingleAssignmentNode(self, x):
        r = x.rhs
        if self.n(r) == "ImportNode":
            self.imported(r, x.lhs.name)
            return
        t = self.types[-1].get(x.lhs.name) if self.n(x.lhs) == "NameNode" else None
        if t:
            self.line(f"{x.lhs.name} = __conv__({t}, {self.e(r)})")
            return
        note = ": object" if getattr(x.lhs, "annotation", None) is not None else ""
        self.line(f"{self.target(x.lhs)}{note} = {self.e(r)}")
        self.fix(x.lhs)

    def imported(self, r, lhs):
        name = r.module_name.value
        if name == "__future__":
            return
        # "import a.b" binds a, "import a.b as c" binds the module
        self.line(f"import {name} as {lhs}" if lhs != name.split(".")[0] else f"import {name}")

    def s_CascadedAssignmentNode(self, x):
        self.line("__v__ = " + self.e(x.rhs))
        for lhs in x.lhs_list:
            self.line(f"{self.target(lhs)} = __v__")
            self.fix(lhs)

    def s_InPlaceAssignmentNode(self, x):
        op = x.operator
        t = self.target(x.lhs)
        if op == "/":
            self.line(f"{t} = {'__cdiv__' if self.cdiv[-1] else '__pydiv__'}({self.e(x.lhs)}, {self.e(x.rhs)})")
        elif op == "**":
            self.line(f"{t} = __cpow__({self.e(x.lhs)}, {self.e(x.rhs)})")
        elif self.n(x.lhs) == "NameNode" and self.types[-1].get(t) is None:
            self.line(f"{t} {op}= {self.e(x.rhs)}")
        else:
            self.line(f"{t} = {self.e(x.lhs)} {op} ({self.e(x.rhs)})")
        self.fix(x.lhs)

    def s_IfStatNode(self, x):
        for i, c in enumerate(x.if_clauses):
            self.line(f"{'elif' if i else 'if'} {self.e(c.condition)}:")
            self.body(c.body)
        if x.else_clause is not None:
            self.line("else:")
            self.body(x.else_clause)

    def s_WhileStatNode(self, x):
        self.line(f"while {self.e(x.condition)}:")
        self.body(x.body)
        if x.else_clause is not None:
            self.line("else:")
            self.body(x.else_clause)

    def s_ForInStatNode(self, x):
        self.line(f"for {self.target(x.target)} in {self.e(x.iterator.sequence)}:")
        self.ind += 1
        self.fix(x.target)
        self.ind -= 1
        self.body(x.body)
        if x.else_clause is not None:
            self.line("else:")
            self.body(x.else_clause)

    def s_ForFromStatNode(self, x):
        raise Unsupported("for ... from loops")

    def s_WithStatNode(self, x):
        m = x.manager
        f = getattr(m, "function", m)
        if self.n(f) == "NameNode" and f.name in DIRECTIVES:
            on = self.cdiv[-1]
            if f.name == "cdivision":
                on = bool(m.args[0].value)
            self.cdiv.append(on)
            self.line("if True:")
            self.body(x.body)
            self.cdiv.pop()
            return
        raise Unsupported("with statement")

    def s_GILStatNode(self, x):
        self.line("if True:")
        self.body(x.body)

    def s_TryExceptStatNode(self, x):
        self.line("try:")
        self.body(x.body)
        for c in x.except_clauses:
            p = "" if c.pattern is None else " (" + ", ".join(self.e(q) for q in c.pattern) + ",)"
            t = "" if c.target is None else f" as {self.e(c.target)}"
            self.line(f"except{p}{t}:")
            self.body(c.body)
        if x.else_clause is not None:
            self.line("else:")
            self.body(x.else_clause)

    # declarations
    def s_CVarDefNode(self, x):
        for d in x.declarators:
            if self.n(d) == "CFuncDeclaratorNode":
                continue
            nm = self.declname(d)
            t = self.ty(x.base_type, d if self.n(d) != "CNameDeclaratorNode" else None)
            self.types[-1][nm.name] = t
            v = nm.default if nm.default is not None else getattr(d, "default", None)
            if v is not None:
                self.line(f"{nm.name} = __conv__({t}, {self.e(v)})" if t else f"{nm.name} = {self.e(v)}")
            elif t and not t.startswith("'") and not t.startswith("__View__"):
                self.line(f"{nm.name} = __zero__({t})")     # structs and vectors exist from here on

    def s_CTypeDefNode(self, x):
        t = self.ty(x.base_type, x.declarator if self.n(x.declarator) != "CNameDeclaratorNode" else None)
        self.line(f"{self.declname(x.declarator).name} = {t}")

    def s_CStructOrUnionDefNode(self, x):
        if x.kind != "struct":
            raise Unsupported("union")
        fields = []
        for a in x.attributes or []:
            for d in a.declarators:
                fields.append(f"{self.declname(d).name!r}: {self.ty(a.base_type, d if self.n(d) != 'CNameDeclaratorNode' else None)}")
        self.line(f"class {x.name}(__Struct__):")
        self.line("    _fields = {" + ", ".join(fields) + "}")

    def s_CEnumDefNode(self, x):
        items, last = [], "-1"
        for i in x.items:
            v = self.e(i.value) if i.value is not None else f"{last} + 1"
            self.line(f"{i.name} = {v}")
            items.append(i.name)
            last = i.name
        if x.name:
            self.line(f"class {x.name}:")
            self.ind += 1
            for n in items:
                self.line(f"{n} = {n}")
            self.ind -= 1

    def s_CClassDefNode(self, x):
        base = x.bases.args if getattr(x, "bases", None) is not None else []
        decl = self.attrs.setdefault(x.class_name, {})
        for st in x.body.stats if x.body is not None and hasattr(x.body, "stats") else [x.body]:
            if self.n(st) == "CVarDefNode":
                for d in st.declarators:
                    if self.n(d) != "CFuncDeclaratorNode":
                        decl[self.declname(d).name] = self.ty(st.base_type)
        self.line(f"class {x.class_name}({', '.join([self.e(b) for b in base] or ['__CClass__'])}):")
        self.ind += 1
        self.line("_fields = {" + ", ".join(f"{n!r}: {t}" for n, t in decl.items()) + "}")
        self.types.append({})
        for st in x.body.stats if x.body is not None and hasattr(x.body, "stats") else [x.body]:
            if st is not None and self.n(st) != "CVarDefNode":
                self.s(st)
        self.types.pop()
        self.ind -= 1

    def s_PyClassDefNode(self, x):
        b = x.bases.args if x.bases is not None else []
        for d in x.decorators or []:
            self.line(f"@{self.e(d.decorator)}")
        self.line(f"class {x.name}({', '.join(self.e(v) for v in b)}):")
        self.ind += 1
        self.types.append({})
        self.line("pass")
        self.s(x.body)
        self.types.pop()
        self.ind -= 1

    def args(self, xs, k=None):
        out, conv = [], []
        for a in xs:
            nm = self.declname(a.declarator)
            name, base = nm.name, a.base_type
            if not name:        # "def f(x)": the name was read as a type
                name, t = base.name, None
            elif self.n(base) == "CSimpleBaseTypeNode" and base.name is None:
                t = None
            else:
                t = self.ty(base, a.declarator if self.n(a.declarator) != "CNameDeclaratorNode" else None)
            if a.kw_only and "*" not in out:
                out.append("*")
            out.append(name + (f"={self.e(a.default)}" if a.default is not None else ""))
            if t and not (xs and a is xs[0] and name == "self"):
                conv.append((name, t))
        return out, conv

    def function(self, name, decl_args, star, body, decorators, ret, annotated=False):
        on = self.cdiv[-1]
        for d in decorators or []:
            f = d.decorator
            g = getattr(f, "function", f)
            if self.n(g) == "NameNode" and g.name == "cdivision":
                on = bool(f.args[0].value)
            elif self.n(g) == "NameNode" and (g.name in DIRECTIVES or g.name in ("inline", "final")):
                continue
            elif self.n(g) in ("NameNode", "AttributeNode") and self.e(g).split(".")[0] in ("cython",):
                if self.e(g).endswith("cdivision"):
                    on = bool(f.args[0].value)
            else:
                self.line(f"@{self.e(f)}")
        out, conv = self.args(decl_args)
        out += star
        self.line(f"def {name}({', '.join(out)}):")
        self.ind += 1
        self.types.append(dict(conv))
        self.cdiv.append(on)
        self.ret.append(ret)
        for n, t in conv:
            self.line(f"{n} = __conv__({t}, {n})")
        k = len(self.out)
        self.s(body)
        if len(self.out) == k:
            self.line("pass")
        self.ret.pop()
        self.cdiv.pop()
        self.types.pop()
        self.ind -= 1

    def s_DefNode(self, x):
        star = ([f"*{x.star_arg.name}"] if x.star_arg is not None else []) + ([f"**{x.starstar_arg.name}"] if x.starstar_arg is not None else [])
        self.function(x.name, x.args, star, x.body, x.decorators, None)

    def s_CFuncDefNode(self, x):
        d = x.declarator
        while self.n(d) != "CFuncDeclaratorNode":
            raise Unsupported("function returning a pointer")
        self.function(self.declname(d).name, d.args, [], x.body, x.decorators, self.ty(x.base_type))

    def s_CImportStatNode(self, x):
        name = x.as_name or x.module_name.split(".")[0]
        if x.module_name == "numpy":
            self.line(f"{name} = __cnp__")
        elif x.module_name == "cython":
            return
        else:
            self.line(f"import {x.module_name} as {x.as_name}" if x.as_name else f"import {x.module_name}")

    def s_FromCImportStatNode(self, x):
        m = x.module_name
        if m in ("cython", "numpy"):
            return
        for item in x.imported_names:
            pos, name, as_name = item[:3]
            if m.split(".")[0] in ("libc", "libcpp"):
                self.line(f"{as_name or name} = __lib__({m!r}, {name!r})")
            else:
                self.line(f"from {m} import {name}" + (f" as {as_name}" if as_name else ""))

    def s_FromImportStatNode(self, x):
        m = x.module.module_name.value
        lvl = x.module.level.value if getattr(x.module, "level", None) is not None and hasattr(x.module.level, "value") else x.module.level
        dots = "." * (int(lvl) if lvl not in (None, -1, "0", 0) else 0)
        if m == "__future__":
            return
        for name, target in x.items:
            self.line(f"from {dots}{m} import {name} as {self.e(target)}")

    def s_ImportNode(self, x):
        pass

    def s_CDefExternNode(self, x):
        raise Unsupported("extern declarations")


def translate(path, name):
    from Cython.Compiler.TreeFragment import parse_from_strings

    w = Writer()
    own = name
    for f in (os.path.splitext(path)[0] + ".pxd", path):
        if not os.path.exists(f):
            continue
        with open(f) as fh:
            src = fh.read()
        head = [ln for ln in src.splitlines() if ln.startswith("#") and "cdivision" in ln]
        w.cdiv = [any("True" in ln for ln in head)]
        t = parse_from_strings(name.rpartition(".")[2], src)
        body = t.body
        for st in body.stats if hasattr(body, "stats") else [body]:
            k = w.n(st)
            if k == "FromCImportStatNode" and st.module_name == own:
                continue
            if k == "CClassDefNode" and f.endswith(".pxd"):
                for a in st.body.stats if hasattr(st.body, "stats") else [st.body]:
                    for d in getattr(a, "declarators", []):
                        if w.n(d) != "CFuncDeclaratorNode":
                            w.attrs.setdefault(st.class_name, {})[w.declname(d).name] = w.ty(a.base_type)
                continue
            w.s(st)
    return "\n".join(w.out) + "\n"


def _type(name, g):
    if name not in g:
        return None
    v = g[name]
    return v if isinstance(v, (VecType, View, Array, str, tuple)) or isinstance(v, type) and issubclass(v, Struct) else None


def namespace():
    lib = _lib()

    def getlib(m, n):
        try:
            return lib[m][n]
        except KeyError:
            raise Unsupported(f"{m}.{n}") from None

    return {"__conv__": conv, "__zero__": zero, "__cdiv__": cdiv, "__pydiv__": pydiv, "__cpow__": cpow, "__at__": at, "__Struct__": Struct, "__CClass__": CClass,
            "__View__": View, "__Array__": Array, "__lib__": getlib, "__cnp__": _Cnp(), "__type__": _type, "double": "real"}


# ---------------------------------------------------------------- the real thing, for replay

def build(paths):
    """compile Cython modules (full name -> source) into scratch space; returns full name -> shared object"""
    from .llvm import _includes, scratch
    from .loader import SRC

    h = hashlib.sha256()
    for p in sorted(paths.values()):
        for q in (p, os.path.splitext(p)[0] + ".pxd"):
            if os.path.exists(q):
                with open(q, "rb") as fh:
                    h.update(fh.read())
    d = os.path.join(scratch(), "pyx-" + h.hexdigest()[:20])
    out = {n: os.path.join(d, n.rpartition(".")[2] + ".so") for n in paths}
    if all(os.path.exists(p) for p in out.values()):
        return out
    tmp = f"{d}.{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    jobs = []
    for n, p in paths.items():
        base = os.path.join(tmp, n.rpartition(".")[2])
        cmd = [sys.executable, "-m", "cython", "--cplus", "-I", SRC, "--module-name", n, p, "-o", base + ".cpp"]
        gxx = ["g++", "-shared", "-fPIC", "-O1", "-w", *_includes(), base + ".cpp", "-o", base + ".so"]
        jobs.append(subprocess.Popen(["sh", "-c", '"$@"', "sh", *cmd], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        jobs[-1].gxx = gxx
    second = []
    for j in jobs:
        err = j.communicate()[1]
        if j.returncode:
            raise RuntimeError(f"cython failed: {err[-2000:]}")
        second.append(subprocess.Popen(j.gxx, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    for j in second:
        err = j.communicate()[1]
        if j.returncode:
            raise RuntimeError(f"g++ failed: {err[-2000:]}")
    try:
        os.rename(tmp, d)
    except OSError:      # another process was faster
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return out


class Finder:
    """serves the freshly built modules"""

    def __init__(self):
        self.so = {}

    def find_spec(self, name, path=None, target=None):
        if name not in self.so:
            return None
        import importlib.machinery
        import importlib.util

        return importlib.util.spec_from_loader(name, importlib.machinery.ExtensionFileLoader(name, self.so[name]))


FINDER = Finder()


def load(paths):
    so = build(paths)
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    if any(FINDER.so.get(n) != p for n, p in so.items()):
        for n in list(sys.modules):
            if n in so or n in {x.rpartition(".")[0] for x in so}:
                del sys.modules[n]
        FINDER.so.update(so)
    import importlib

    for n in so:
        importlib.import_module(n)
