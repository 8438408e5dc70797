"""Symbolic interpreter for C compiled to LLVM IR (clang -O0 style IR after SROA), over the engine's values.

Integers are Python ints (unsigned, modulo 2^n) or z3 bit-vectors, floats are XR extended reals, i1 a Python bool or z3 Bool,
pointers are (region, offset).  Memory is a set of typed cells per region; accesses outside a region, to freed or
uninitialised memory raise CFault."""
import hashlib
import os
import re
import struct
import subprocess
import tempfile
from fractions import Fraction

from .core import Inconclusive, b_and, b_not, b_or, b_xor, ctx, is_sym, to_z3bool
from .xreal import NAN, NINF, PINF, XR
from .z3boot import z3


class CFault(Exception):
    """undefined behaviour reached by the C code"""

    _from_code = True


class Region:
    __slots__ = ("cells", "size", "fill", "freed", "name", "obj", "heap", "__weakref__")

    def __init__(self, size, fill=None, name="", obj=None, heap=False):
        self.cells = {}
        self.size = size
        self.fill = fill
        self.freed = False
        self.name = name
        self.obj = obj
        self.heap = heap

    def __repr__(self):
        return f"<{self.name}:{self.size}>"


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((id(self.r), self.off))

    def __repr__(self):
        return f"Ptr({self.r},{self.off})"

    def __bool__(self):
        return self.r is not None


NULL = Ptr(None, 0)


class Func:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Func({self.name})"


UNDEF = object()

# ---------------------------------------------------------------- types

PRIM = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def parse(self, s):
        s = s.strip()
        if s not in self.cache:
            t, rest = self._p(s)
            assert not rest.strip(), (s, rest)
            self.cache[s] = t
        return self.cache[s]

    def _p(self, s):
        s = s.lstrip()
        m = re.match(r"(i\d+|float|double|ptr|void)\b", s)
        if m:
            return m.group(1), s[m.end():]
        if s[0] == "%":
            m = re.match(r"%[\w.\"$:]+", s)
            return ("named", m.group(0)), s[m.end():]
        if s[0] == "[":
            m = re.match(r"\[\s*(\d+) x ", s)
            t, r = self._p(s[m.end():])
            r = r.lstrip()
            assert r[0] == "]"
            return ("arr", int(m.group(1)), t), r[1:]
        if s[0] == "{":
            r = s[1:]
            el = []
            while True:
                r = r.lstrip()
                if r[0] == "}":
                    return ("st", tuple(el)), r[1:]
                if r[0] == ",":
                    r = r[1:]
                    continue
                t, r = self._p(r)
                el.append(t)
        raise Inconclusive("llvm type " + s[:40])

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == "named":
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if isinstance(t, str):
            return PRIM[t]
        if t[0] == "arr":
            return self.align(t[2])
        return max([self.align(x) for x in t[1]] or [1])

    def size(self, t):
        t = self.resolve(t)
        if isinstance(t, str):
            return PRIM[t]
        if t[0] == "arr":
            return t[1] * self.size(t[2])
        off = 0
        for x in t[1]:
            a = self.align(x)
            off = (off + a - 1) // a * a + self.size(x)
        a = self.align(t)
        return (off + a - 1) // a * a

    def field(self, t, i):
        off = 0
        for k, x in enumerate(t[1]):
            a = self.align(x)
            off = (off + a - 1) // a * a
            if k == i:
                return off, x
            off += self.size(x)
        raise IndexError(i)


def ibits(t):
    return int(t[1:])


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def bv(v, n):
    return z3.BitVecVal(v, n) if isinstance(v, int) else v


def split_top(s):
    """split at top-level commas"""
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


ATTR = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "writeonly", "noalias", "returned", "immarg", "nofree", "captures(none)"}


class Module:
    def __init__(self, text, externals):
        self.T = Types()
        self.ext = externals
        self.funcs = {}
        self.globals_src = {}
        self.decl = set()
        self.compiled = {}
        self._parse(text)
        self.reset()

    # ------------------------------------------------------------ parsing
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r"(%[\w.\"$:]+) = type (.*)$", ln)
            if m:
                self.T.named[m.group(1)] = ("st", ()) if m.group(2) == "opaque" else self.T._p(m.group(2))[0]
            elif ln.startswith("@"):
                m = re.match(r"@([\w.$\"]+) = (.*)$", ln)
                self.globals_src[m.group(1)] = m.group(2)
            elif ln.startswith("define"):
                m = re.match(r"define .*?@([\w.$]+)\((.*?)\)[^()]*\{$", ln) or re.match(r"define .*?@([\w.$]+)\((.*)\).*\{$", ln)
                name, args = m.group(1), m.group(2)
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self.funcs[name] = (args, body)
            i += 1

    def reset(self):
        """fresh global state"""
        self.gl = {}
        self.faults = []

    def glob(self, name):
        if name in self.gl:
            return self.gl[name]
        if name in self.funcs or name in self.ext:
            r = Func(name)
            self.gl[name] = r
            return r
        src = self.globals_src.get(name)
        if src is None:
            r = Func(name)
            self.gl[name] = r
            return r
        m = re.search(r"\b(global|constant) (.*)$", src)
        body = re.sub(r", align \d+.*$", "", m.group(2))
        t, rest = self.T._p(body)
        reg = Region(self.T.size(t), name="@" + name)
        p = Ptr(reg, 0)
        self.gl[name] = p
        rest = rest.strip()
        if "external" in src.split(m.group(1))[0] or not rest:
            reg.fill = "extern"
            reg.obj = name
        else:
            reg.fill = "zero"
            self._init(reg, 0, t, rest)
        return p

    def _init(self, reg, off, t, txt):
        t = self.T.resolve(t)
        txt = txt.strip()
        if txt in ("zeroinitializer", "null", "undef", "poison"):
            return
        if txt.startswith('c"'):
            raw = txt[2:txt.rindex('"')]
            bs, k = [], 0
            while k < len(raw):
                if raw[k] == "\\":
                    if raw[k + 1] == "\\":
                        bs.append(92)
                        k += 2
                    else:
                        bs.append(int(raw[k + 1:k + 3], 16))
                        k += 3
                else:
                    bs.append(ord(raw[k]))
                    k += 1
            for j, b in enumerate(bs):
                reg.cells[off + j] = (1, "i", b)
            return
        if isinstance(t, str):
            reg.cells[off] = (PRIM[t], self.kind(t), self.const(t, txt))
            return
        inner = txt[1:-1].strip()
        if inner.startswith("<"):
            inner = inner[1:-1]
        parts = split_top(inner)
        if t[0] == "arr":
            es = self.T.size(t[2])
            for k, p in enumerate(parts):
                _, rest = self.T._p(p)
                self._init(reg, off + k * es, t[2], rest)
        else:
            for k, p in enumerate(parts):
                fo, ft = self.T.field(t, k)
                _, rest = self.T._p(p)
                self._init(reg, off + fo, ft, rest)

    @staticmethod
    def kind(t):
        return "f" if t in ("float", "double") else "p" if t == "ptr" else "i"

    def const(self, t, s):
        s = s.strip()
        if s in ("undef", "poison"):
            return UNDEF
        if t == "ptr":
            if s == "null":
                return NULL
            if s.startswith("@"):
                return self.glob(s[1:].strip('"'))
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", s)
            if m:
                ps = split_top(m.group(1))
                base = ps[1].split(None, 1)[1]
                return self._gep(self.T.parse(ps[0]), self.const("ptr", base), [self.const(*p.split(None, 1)) for p in ps[2:]], [p.split()[0] for p in ps[2:]])
            raise Inconclusive("ptr const " + s)
        if t in ("float", "double"):
            if s.startswith("0x"):
                f = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
            else:
                f = float(s)
            return XR.of(f)
        if t == "i1":
            return s == "true" or s == "1"
        if t[0] == "i":
            return int(s) % (1 << ibits(t))
        if t == "metadata":
            return None
        raise Inconclusive(f"const {t} {s}")

    # ------------------------------------------------------------ memory
    def check(self, p, n, what):
        if p.r is None:
            raise CFault(f"{what} through a null pointer")
        if p.r.freed:
            raise CFault(f"{what} of freed memory")
        if p.r.fill == "extern":
            return
        if p.off < 0 or p.off + n > p.r.size:
            raise CFault(f"{what} of {n} bytes at offset {p.off} of a {p.r.size}-byte object ({p.r.name})")

    def load(self, p, n, kind):
        if p is UNDEF:
            raise CFault("use of an uninitialised pointer")
        if isinstance(p, Func):
            raise Inconclusive("load from function")
        self.check(p, n, "read")
        r = p.r
        if r.fill == "array":
            return r.obj.load(p.off, n, kind)
        c = r.cells.get(p.off)
        if c is not None:
            if c[0] == n and c[1] == kind:
                return c[2]
            if c[0] == n and isinstance(c[2], int) and c[2] == 0:
                return {"f": XR(Fraction(0)), "p": NULL, "i": 0}[kind]
            if kind == "i" and c[1] == "i" and isinstance(c[2], int) and c[0] > n:
                return c[2] & ((1 << (8 * n)) - 1)
            raise Inconclusive(f"type-punned read at {p} ({c[:2]} as {kind}{n})")
        if r.fill == "extern":
            if kind == "p":
                q = Ptr(Region(0, "extern", name=r.name + "*", obj=(r.obj, p.off)))
                r.cells[p.off] = (8, "p", q)
                return q
            raise Inconclusive("read of external " + r.name)
        for o, c in r.cells.items():
            if o < p.off + n and p.off < o + c[0]:
                if c[1] == "i" and isinstance(c[2], int) and kind == "i" and o <= p.off and p.off + n <= o + c[0]:
                    return (c[2] >> (8 * (p.off - o))) & ((1 << (8 * n)) - 1)
                if c[1] == "i" and c[2] == 0:
                    continue
                if kind == "i" and c[0] == 1:
                    return self._bytes(r, p.off, n)
                raise Inconclusive(f"overlapping read at {p}")
        if r.fill == "zero":
            return {"f": XR(Fraction(0)), "p": NULL, "i": 0}[kind]
        return UNDEF

    def _bytes(self, r, off, n):
        v = 0
        for k in range(n):
            b = self.load(Ptr(r, off + k), 1, "i")
            if not isinstance(b, int):
                raise Inconclusive("symbolic bytes")
            v |= b << (8 * k)
        return v

    def store(self, p, n, kind, v):
        if p is UNDEF:
            raise CFault("use of an uninitialised pointer")
        self.check(p, n, "write")
        r = p.r
        if r.fill == "array":
            r.obj.store(p.off, n, kind, v)
            return
        if r.fill == "extern":
            raise Inconclusive("write to external " + r.name)
        self._clear(r, p.off, n)
        r.cells[p.off] = (n, kind, v)

    @staticmethod
    def _clear(r, off, n):
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            return
        if len(r.cells) > 64 and all((off + k) not in r.cells for k in range(n)) and all((off - k) not in r.cells or r.cells[off - k][0] <= k for k in range(1, 8)):
            return
        for o in [o for o, c in r.cells.items() if o < off + n and off < o + c[0]]:
            c = r.cells[o]
            if o >= off and o + c[0] <= off + n:
                del r.cells[o]
            elif c[1] == "i" and isinstance(c[2], int):
                del r.cells[o]
                for k in range(c[0]):
                    if not off <= o + k < off + n:
                        r.cells[o + k] = (1, "i", (c[2] >> (8 * k)) & 255)
            else:
                raise Inconclusive("partial overwrite")

    def memset(self, p, val, n):
        if n == 0:
            return
        self.check(p, n, "memset")
        r = p.r
        if r.fill == "array":
            raise Inconclusive("memset of array")
        if val != 0:
            self._clear(r, p.off, n)
            for k in range(n):
                r.cells[p.off + k] = (1, "i", val & 255)
            return
        self._clear(r, p.off, n)
        for o in [o for o in r.cells if p.off <= o < p.off + n]:
            del r.cells[o]
        if r.fill != "zero":
            k = 0
            while k < n:
                w = next(w for w in (8, 4, 2, 1) if k + w <= n and (p.off + k) % w == 0)
                r.cells[p.off + k] = (w, "i", 0)
                k += w

    def memcpy(self, d, s, n):
        if n == 0:
            return
        self.check(d, n, "memcpy to")
        self.check(s, n, "memcpy from")
        if s.r.fill == "array" or d.r.fill == "array":
            if d.r.fill == "array" and n in (1, 2, 4, 8):
                c = s.r.cells.get(s.off) if s.r.fill != "array" else None
                if s.r.fill == "array":
                    kind = s.r.obj.kind()
                    v = s.r.obj.load(s.off, n, kind)
                elif c is not None and c[0] == n:
                    kind, v = c[1], c[2]
                elif s.r.fill == "zero":
                    kind = d.r.obj.kind()
                    v = self.load(s, n, kind)
                else:
                    kind, v = d.r.obj.kind(), UNDEF
                self.store(d, n, kind, v)
                return
            if s.r.fill == "array" and n in (1, 2, 4, 8):
                k = s.r.obj.kind()
                self.store(d, n, k, s.r.obj.load(s.off, n, k))
                return
            raise Inconclusive("memcpy of array block")
        cs = [(o, c) for o, c in s.r.cells.items() if o < s.off + n and s.off < o + c[0]]
        if any(o < s.off or o + c[0] > s.off + n for o, c in cs):
            raise Inconclusive("partial memcpy")
        self._clear(d.r, d.off, n)
        for o in [o for o in d.r.cells if d.off <= o < d.off + n]:
            del d.r.cells[o]
        if s.r.fill == "zero" and d.r.fill != "zero":
            self.memset(d, 0, n)
            for o, c in cs:
                self._clear(d.r, d.off + o - s.off, c[0])
        elif s.r.fill != "zero" and d.r.fill == "zero" and sum(c[0] for _, c in cs) != n:
            raise Inconclusive("memcpy of uninitialised memory")
        for o, c in cs:
            d.r.cells[d.off + o - s.off] = c

    def cstr(self, p):
        out = []
        while True:
            b = self.load(p, 1, "i")
            if not isinstance(b, int):
                raise Inconclusive("symbolic string")
            if b == 0:
                return bytes(out).decode()
            out.append(b)
            p = Ptr(p.r, p.off + 1)

    def string(self, s):
        r = Region(len(s) + 1, "zero", name="str")
        for k, b in enumerate(s.encode()):
            r.cells[k] = (1, "i", b)
        return Ptr(r, 0)

    # ------------------------------------------------------------ compilation of functions to closures
    def _gep(self, t, base, idx, tys):
        if base is UNDEF:
            raise CFault("use of an uninitialised pointer")
        off = 0
        cur = t
        for k, (v, ty) in enumerate(zip(idx, tys)):
            if v is UNDEF:
                raise CFault("use of an uninitialised index")
            if not isinstance(v, int):
                v = ctx().concretise_int(v)
            else:
                v = signed(v, ibits(ty))
            if k == 0:
                off += v * self.T.size(t)
                continue
            cur = self.T.resolve(cur)
            if cur[0] == "arr":
                off += v * self.T.size(cur[2])
                cur = cur[2]
            else:
                fo, cur = self.T.field(cur, v)
                off += fo
        if base.r is None and off == 0:
            return NULL
        return Ptr(base.r, base.off + off)

    def compile(self, name):
        if name in self.compiled:
            return self.compiled[name]
        args, body = self.funcs[name]
        params = []
        for k, a in enumerate(split_top(args)):
            if a == "...":
                continue
            m = re.search(r"(%[\w.]+)$", a)
            params.append(m.group(1) if m else f"%{k}")
        blocks = {}
        order = []
        cur = None
        nameless = str(len(params))
        for ln in body:
            ln = ln.split(";")[0].rstrip() if ";" in ln and '"' not in ln else ln.rstrip()
            if not ln.strip():
                continue
            m = re.match(r"^([\w.]+):", ln)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = "%" + nameless
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(ln.strip())
        # switch spans lines
        code = {}
        for b in order:
            lines, k = [], 0
            src = blocks[b]
            while k < len(src):
                ln = src[k]
                if ln.startswith("switch") and not ln.endswith("]"):
                    while not src[k].endswith("]"):
                        k += 1
                        ln += " " + src[k]
                lines.append(ln)
                k += 1
            ops, phis, term = [], [], None
            for ln in lines:
                ln = re.sub(r", ![\w.]+ !\d+", "", ln)
                ln = re.sub(r", !\w+ !\d+$", "", ln)
                m = re.match(r"(%[\w.]+) = (.*)$", ln)
                dst, ins = (m.group(1), m.group(2)) if m else (None, ln)
                op = ins.split(None, 1)[0]
                if op == "phi":
                    m = re.match(r"phi (?:\w+ )*?((?:i\d+|float|double|ptr)) (.*)$", ins)
                    ty = m.group(1)
                    inc = {}
                    for v, lab in re.findall(r"\[ (.*?), (%[\w.]+) \]", m.group(2)):
                        inc[lab] = self.val(ty, v)
                    phis.append((dst, inc))
                elif op in ("br", "ret", "switch", "unreachable"):
                    term = self._term(op, ins)
                else:
                    ops.append(self._op(op, ins, dst))
            code[b] = (phis, ops, term)
        r = (params, order[0], code)
        self.compiled[name] = r
        return r

    def val(self, ty, s):
        """operand -> closure(env)"""
        s = s.strip()
        if s.startswith("%"):
            def f(env, s=s):
                return env[s]
            return f
        if s.startswith("@"):
            n = s[1:].strip('"')
            return lambda env: self.glob(n)
        if ty == "ptr" and s.startswith("getelementptr"):
            return lambda env: self.const("ptr", s)
        if ty == "metadata":
            return lambda env: None
        c = self.const(ty, s)
        return lambda env: c

    def _tyval(self, s):
        """'i32 noundef %5' -> (type, closure)"""
        s = s.strip()
        t, rest = self.T._p(s) if not s.startswith("metadata") else ("metadata", s[8:])
        rest = rest.strip()
        while True:
            m = re.match(r"(noundef|nonnull|signext|zeroext|nocapture|readonly|writeonly|noalias|returned|immarg|nofree|align \d+|dereferenceable(?:_or_null)?\(\d+\)|range\(.*?\))\s+", rest)
            if not m:
                break
            rest = rest[m.end():]
        if not isinstance(t, str):
            t = "agg"
        return t, self.val(t, rest)

    def _term(self, op, ins):
        if op == "ret":
            if ins == "ret void":
                return ("ret", None)
            return ("ret", self._tyval(ins[4:])[1])
        if op == "br":
            m = re.match(r"br label (%[\w.]+)$", ins)
            if m:
                return ("jmp", m.group(1))
            m = re.match(r"br i1 (.*?), label (%[\w.]+), label (%[\w.]+)", ins)
            return ("br", self.val("i1", m.group(1)), m.group(2), m.group(3))
        if op == "switch":
            m = re.match(r"switch (i\d+) (.*?), label (%[\w.]+) \[(.*)\]", ins)
            ty = m.group(1)
            cs = [(self.const(ty, v), lab) for v, lab in re.findall(r"i\d+ (-?\d+), label (%[\w.]+)", m.group(4))]
            return ("switch", self.val(ty, m.group(2)), m.group(3), cs, ibits(ty))
        return ("unreachable",)

    def _op(self, op, ins, dst):
        ins0 = ins
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            m = re.match(r"\w+ (?:nsw |nuw |exact |disjoint )*(i\d+) (.*)$", ins)
            ty = m.group(1)
            a, b = [self.val(ty, x) for x in split_top(m.group(2))]
            f = self._intop(op, ibits(ty))

            def run(env):
                env[dst] = f(a(env), b(env))
            return run
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            m = re.match(r"\w+ (?:\w+ )*?(float|double) (.*)$", ins)
            a, b = [self.val(m.group(1), x) for x in split_top(m.group(2))]
            meth = {"fadd": "add", "fsub": "sub", "fmul": "mul", "fdiv": "div"}[op]

            def run(env):
                x, y = a(env), b(env)
                if x is UNDEF or y is UNDEF:
                    raise CFault("arithmetic on an uninitialised value")
                env[dst] = getattr(x, meth)(y)
            return run
        if op == "fneg":
            m = re.match(r"fneg (?:\w+ )*?(float|double) (.*)$", ins)
            a = self.val(m.group(1), m.group(2))

            def run(env):
                env[dst] = a(env).neg()
            return run
        if op == "fcmp":
            m = re.match(r"fcmp (?:fast |nnan |ninf |nsz )*(\w+) (float|double) (.*)$", ins)
            pr = m.group(1)
            a, b = [self.val(m.group(2), x) for x in split_top(m.group(3))]

            def run(env):
                x, y = a(env), b(env)
                if x is UNDEF or y is UNDEF:
                    raise CFault("comparison of an uninitialised value")
                env[dst] = fcmp(pr, x, y)
            return run
        if op == "icmp":
            m = re.match(r"icmp (\w+) (\w+) (.*)$", ins)
            pr, ty = m.group(1), m.group(2)
            a, b = [self.val(ty, x) for x in split_top(m.group(3))]
            n = 64 if ty == "ptr" else ibits(ty)

            def run(env):
                env[dst] = icmp(pr, a(env), b(env), n, ty)
            return run
        if op == "load":
            m = re.match(r"load (?:volatile )?(\w+|\{.*?\}), ptr (.*?)(?:, align \d+)?$", ins)
            ty = m.group(1)
            p = self.val("ptr", m.group(2))
            n, k = PRIM[ty], self.kind(ty)
            if ty == "i1":
                raise Inconclusive("load i1")

            def run(env):
                env[dst] = self.load(p(env), n, k)
            return run
        if op == "store":
            m = re.match(r"store (?:volatile )?(.*)$", ins)
            v, p = split_top(re.sub(r", align \d+$", "", m.group(1)))[:2]
            ty, a = self._tyval(v)
            _, q = self._tyval(p)
            n, k = PRIM[ty], self.kind(ty)

            def run(env):
                self.store(q(env), n, k, a(env))
            return run
        if op == "alloca":
            ps = split_top(ins[7:])
            t = self.T.parse(ps[0])
            cnt = None
            for p in ps[1:]:
                if not p.startswith("align"):
                    cnt = self._tyval(p)[1]
            sz = self.T.size(t)

            def run(env):
                c = 1 if cnt is None else cnt(env)
                if not isinstance(c, int):
                    c = ctx().concretise_int(c)
                env[dst] = Ptr(Region(sz * c, name="local"), 0)
            return run
        if op == "getelementptr":
            ps = split_top(re.sub(r"^getelementptr (?:inbounds |nuw |nusw )*", "", ins))
            t = self.T.parse(ps[0])
            _, base = self._tyval(ps[1])
            idx = [self._tyval(p) for p in ps[2:]]
            tys = [x[0] for x in idx]

            def run(env):
                env[dst] = self._gep(t, base(env), [f(env) for _, f in idx], tys)
            return run
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            m = re.match(r"\w+ (?:nneg |nuw |nsw )*(.*)$", ins)
            if op == "freeze":
                _, a = self._tyval(m.group(1))

                def run(env):
                    env[dst] = a(env)
                return run
            src, to = m.group(1).rsplit(" to ", 1)
            ty, a = self._tyval(src)
            f = conv(op, ty, to.strip())

            def run(env):
                v = a(env)
                env[dst] = UNDEF if v is UNDEF else f(v)
            return run
        if op == "select":
            ps = split_top(re.sub(r"^select (?:fast |nnan |ninf |nsz )*", "", ins))
            _, c = self._tyval(ps[0])
            ty, a = self._tyval(ps[1])
            _, b = self._tyval(ps[2])

            def run(env):
                cv, x, y = c(env), a(env), b(env)
                env[dst] = select(cv, x, y, ty)
            return run
        if op in ("call", "tail", "notail", "musttail"):
            m = re.match(r"(?:tail |notail |musttail )?call (?:fast |nnan |ninf |nsz |signext |zeroext |noundef |noalias |nonnull |range\(.*?\) )*(.*)$", ins)
            body = m.group(1)
            # find callee
            m = re.match(r"(.*?)\s*(@[\w.$]+|%[\w.]+)\((.*)\)[^()]*$", body)
            callee = m.group(2)
            fargs = m.group(3)
            # attribute groups with parentheses after the call are cut by the greedy match only when balanced
            fargs = balanced(body, body.index(callee + "(") + len(callee))
            args = []
            for a in split_top(fargs):
                args.append(self._tyval(a))
            fns = [f for _, f in args]
            tys = [t for t, _ in args]
            if callee.startswith("@"):
                n = callee[1:]
                if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.stack", "llvm.assume", "llvm.experimental.noalias")):
                    def run(env):
                        if dst:
                            env[dst] = NULL
                    return run

                def run(env):
                    r = self.call(n, [f(env) for f in fns], tys)
                    if dst:
                        env[dst] = r
                return run
            cv = self.val("ptr", callee)

            def run(env):
                t = cv(env)
                if not isinstance(t, Func):
                    r = self.ext["*indirect"](self, t, [f(env) for f in fns])
                else:
                    r = self.call(t.name, [f(env) for f in fns], tys)
                if dst:
                    env[dst] = r
            return run
        if op == "extractvalue" or op == "insertvalue":
            raise Inconclusive(op)
        raise Inconclusive("llvm op " + ins0[:60])

    @staticmethod
    def _intop(op, n):
        mask = (1 << n) - 1

        def run(x, y):
            if x is UNDEF or y is UNDEF:
                raise CFault("arithmetic on an uninitialised value")
            if isinstance(x, bool) or isinstance(y, bool) or (n == 1):
                if op == "and":
                    return b_and(x, y)
                if op == "or":
                    return b_or(x, y)
                if op == "xor":
                    return b_xor(x, y)
                raise Inconclusive("i1 " + op)
            if isinstance(x, int) and isinstance(y, int):
                if op == "add":
                    return (x + y) & mask
                if op == "sub":
                    return (x - y) & mask
                if op == "mul":
                    return (x * y) & mask
                if op == "and":
                    return x & y
                if op == "or":
                    return x | y
                if op == "xor":
                    return x ^ y
                if op == "shl":
                    return (x << y) & mask
                if op == "lshr":
                    return x >> y
                if op == "ashr":
                    return (signed(x, n) >> y) & mask
                if y == 0:
                    raise CFault("division by zero")
                if op == "udiv":
                    return x // y
                if op == "urem":
                    return x % y
                a, b = signed(x, n), signed(y, n)
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return (q if op == "sdiv" else a - q * b) & mask
            a, b = bv(x, n), bv(y, n)
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}.get(op)
            if r is None:
                raise Inconclusive("symbolic " + op)
            r = z3.simplify(r())
            return r.as_long() if z3.is_bv_value(r) else r
        return run

    # ------------------------------------------------------------ execution
    def call(self, name, args, tys=None):
        e = self.ext.get(name)
        if e is not None:
            return e(self, args)
        if name not in self.funcs:
            raise Inconclusive(f"external C function {name}")
        params, blk, code = self.compile(name)
        env = dict(zip(params, args))
        prev = None
        steps = 0
        while True:
            phis, ops, term = code[blk]
            if phis:
                vs = [(d, inc[prev](env)) for d, inc in phis]
                for d, v in vs:
                    env[d] = v
            for o in ops:
                o(env)
            steps += 1
            if steps > 200000:
                raise Inconclusive("loop bound in " + name)
            k = term[0]
            prev = blk
            if k == "jmp":
                blk = term[1]
            elif k == "br":
                c = term[1](env)
                if c is UNDEF:
                    raise CFault("branch on an uninitialised value")
                blk = term[2] if self.decide(c) else term[3]
            elif k == "ret":
                return term[1](env) if term[1] else None
            elif k == "switch":
                v = term[1](env)
                blk = term[2]
                for cv, lab in term[3]:
                    if self.decide(icmp("eq", v, cv, term[4], "i")):
                        blk = lab
                        break
            else:
                raise CFault("unreachable")

    _oracle = None

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if self._oracle is not None:
            return self._oracle(c)
        return ctx().branch(c)

    def call_merged(self, name, args, limit=64):
        """all paths of a side-effect-free function: [(condition, result)]"""
        out = []
        work = [[]]
        saved = self._oracle
        try:
            while work:
                pre = work.pop()
                dec = list(pre)
                pos = [0]
                conds = []

                def oracle(c):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        return True
                    if z3.is_false(c):
                        return False
                    for q, d in conds:
                        if q.eq(c):
                            return d
                    i = pos[0]
                    if i < len(dec):
                        d = dec[i]
                    else:
                        d = True
                        work.append(dec[:i] + [False])
                        dec.append(True)
                    pos[0] += 1
                    conds.append((c, d))
                    return d

                self._oracle = oracle
                r = self.call(name, args)
                out.append((b_and(*[q if d else b_not(q) for q, d in conds]), r))
                if len(out) > limit:
                    raise Inconclusive("too many paths in " + name)
        finally:
            self._oracle = saved
        return out


def balanced(s, i):
    """text inside the parentheses starting at s[i]"""
    d, q = 0, False
    for k in range(i, len(s)):
        ch = s[k]
        if ch == '"':
            q = not q
        if q:
            continue
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                return s[i + 1:k]
    raise Inconclusive("unbalanced call")


def fcmp(pr, x, y):
    un = b_or(x.nan, y.nan)
    if pr == "ord":
        return b_not(un)
    if pr == "uno":
        return un
    if pr == "true":
        return True
    if pr == "false":
        return False
    base = {"eq": lambda: x.eq(y), "lt": lambda: x.lt(y), "le": lambda: x.le(y), "gt": lambda: y.lt(x), "ge": lambda: y.le(x),
            "ne": lambda: b_and(b_not(un), b_not(x.eq(y)))}[pr[1:]]()
    return base if pr[0] == "o" else b_or(un, base)


def icmp(pr, x, y, n, ty):
    if x is UNDEF or y is UNDEF:
        raise CFault("comparison of an uninitialised value")
    if isinstance(x, (Ptr, Func)) or isinstance(y, (Ptr, Func)):
        eq = x == y if type(x) is type(y) else False
        if isinstance(x, Func) and isinstance(y, Func):
            eq = x.name == y.name
        if pr == "eq":
            return eq
        if pr == "ne":
            return not eq
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
            a, b = x.off, y.off
            return {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pr]
        raise Inconclusive("pointer comparison")
    if n == 1:
        e = b_not(b_xor(x, y))
        return e if pr == "eq" else b_not(e)
    if isinstance(x, int) and isinstance(y, int):
        if pr == "eq":
            return x == y
        if pr == "ne":
            return x != y
        if pr[0] == "s":
            x, y = signed(x, n), signed(y, n)
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr[1:]]
    a, b = bv(x, n), bv(y, n)
    r = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b,
         "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pr]()
    r = z3.simplify(r)
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def select(c, x, y, ty):
    if c is UNDEF:
        raise CFault("select on an uninitialised value")
    if isinstance(c, bool):
        return x if c else y
    if ty in ("float", "double") and x is not UNDEF and y is not UNDEF:
        return XR.ite(c, x, y)
    if ty == "i1":
        from .core import b_ite

        return b_ite(c, x, y)
    if ty[0] == "i" and x is not UNDEF and y is not UNDEF:
        if isinstance(x, int) and isinstance(y, int) and x == y:
            return x
        return z3.If(c, bv(x, ibits(ty)), bv(y, ibits(ty)))
    return x if ctx().branch(c) else y


def conv(op, ty, to):
    if op == "zext" or op == "sext":
        n, m = ibits(ty), ibits(to)

        def f(v):
            if n == 1:
                one = 1 if op == "zext" else (1 << m) - 1
                if isinstance(v, bool):
                    return one if v else 0
                return z3.If(v, z3.BitVecVal(one, m), z3.BitVecVal(0, m))
            if isinstance(v, int):
                return v if op == "zext" else signed(v, n) & ((1 << m) - 1)
            return z3.ZeroExt(m - n, v) if op == "zext" else z3.SignExt(m - n, v)
        return f
    if op == "trunc":
        m = ibits(to)

        def f(v):
            if m == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                return v & ((1 << m) - 1)
            r = z3.simplify(z3.Extract(m - 1, 0, v))
            return r.as_long() if z3.is_bv_value(r) else r
        return f
    if op in ("sitofp", "uitofp"):
        n = ibits(ty)

        def f(v):
            if n == 1:
                raise Inconclusive("i1 to fp")
            if not isinstance(v, int):
                v = z3.BV2Int(v, op == "sitofp")
                return XR(z3.ToReal(v))
            return XR(Fraction(signed(v, n) if op == "sitofp" else v))
        return f
    if op in ("fptosi", "fptoui"):
        m = ibits(to)

        def f(v):
            if ctx().branch(to_z3bool(v.special)):
                raise CFault("conversion of a non-finite value to an integer")
            i = v.trunc_int()
            if not isinstance(i, int):
                i = ctx().concretise_int(i)
            return i & ((1 << m) - 1)
        return f
    if op in ("fpext", "fptrunc"):
        return lambda v: v
    if op == "bitcast" and ty == to:
        return lambda v: v

    def bad(v):
        raise Inconclusive(f"{op} {ty} to {to}")
    return bad


# ---------------------------------------------------------------- building

def scratch():
    d = os.path.join(tempfile.gettempdir(), f"verif-c-{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    return d


def _includes():
    import sysconfig

    import numpy

    return [f"-I{numpy.get_include()}", f"-I{sysconfig.get_paths()['include']}"]


def key_of(path, extra=""):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read() + extra.encode()).hexdigest()[:20]


def to_ir(path, passes="sroa,simplifycfg,early-cse"):
    """textual IR of a C file (regenerated whenever the source changes)"""
    out = os.path.join(scratch(), key_of(path, passes) + ".ll")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        subprocess.run(["clang-18", "-w", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-builtin",
                        *_includes(), path, "-o", tmp + "0"], check=True, capture_output=True)
        subprocess.run(["opt-18", "-S", f"-passes={passes}", tmp + "0", "-o", tmp], check=True, capture_output=True)
        os.unlink(tmp + "0")
        os.replace(tmp, out)
    with open(out) as fh:
        return fh.read()


def build_so(path, modname):
    """compile the current C source to an extension module in scratch space; returns the path"""
    out = os.path.join(scratch(), key_of(path) + "-" + modname + ".so")
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-w", *_includes(), path, "-o", tmp, "-lm"], check=True, capture_output=True)
        os.replace(tmp, out)
    return out


def load_so(path, fullname):
    """import the extension built from the current source under its package name"""
    import importlib
    import importlib.machinery
    import importlib.util
    import sys

    if fullname in sys.modules and getattr(sys.modules[fullname], "__verif_src__", None) == path:
        return sys.modules[fullname]
    so = build_so(path, fullname.rpartition(".")[2])
    loader = importlib.machinery.ExtensionFileLoader(fullname, so)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader(fullname, loader))
    loader.exec_module(m)
    try:
        m.__verif_src__ = path
    except Exception:
        pass
    sys.modules[fullname] = m
    parent = importlib.import_module(fullname.rpartition(".")[0])
    setattr(parent, fullname.rpartition(".")[2], m)
    return m
