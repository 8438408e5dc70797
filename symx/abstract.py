"""Uninterpreted-function abstraction of nonlinear arithmetic in z3 terms."""
from .z3boot import z3

_R = z3.RealSort()
_MUL = z3.Function("nl_mul", _R, _R, _R)
_DIV = z3.Function("nl_div", _R, _R, _R)
_I = z3.IntSort()
_IMUL = z3.Function("nl_imul", _I, _I, _I)


def _num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_algebraic_value(t)


def nonlinear(exprs):
    seen = set()
    stack = list(exprs)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(t):
            op = t.decl().kind()
            if op == z3.Z3_OP_MUL and sum(not _num(a) for a in t.children()) > 1:
                return True
            if op in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not _num(t.arg(1)):
                return True
            if op == z3.Z3_OP_POWER:
                return True
            stack.extend(t.children())
    return False


def abstract(exprs, som=False):
    opts = dict(som=True, hoist_mul=False, max_steps=400000, som_blowup=200) if som else {}
    exprs = [z3.simplify(e, **opts) for e in exprs]
    cache = {}
    keep = []

    def go(root):
        stack = [(root, False)]
        while stack:
            t, done = stack.pop()
            k = t.get_id()
            if k in cache:
                continue
            ch = t.children() if z3.is_app(t) else []
            if not ch:
                cache[k] = t
                keep.append(t)
                continue
            if not done:
                stack.append((t, True))
                stack.extend((c, False) for c in ch if c.get_id() not in cache)
                continue
            a = [cache[c.get_id()] for c in ch]
            op = t.decl().kind()
            if op == z3.Z3_OP_MUL and sum(not _num(x) for x in a) > 1:
                nums = [x for x in a if _num(x)]
                syms = sorted((x for x in a if not _num(x)), key=lambda x: x.get_id())
                f = _IMUL if z3.is_int(t) else _MUL
                r = syms[0]
                for x in syms[1:]:
                    r = f(r, x)
                for n in nums:
                    r = n * r
            elif op == z3.Z3_OP_POWER and _num(a[1]) and a[1].as_fraction().denominator == 1 and 1 < a[1].as_fraction() < 20:
                r = a[0]
                for _ in range(int(a[1].as_fraction()) - 1):
                    r = _MUL(r, a[0])
            elif op == z3.Z3_OP_DIV and not _num(a[1]):
                r = _DIV(*a)
            else:
                r = t.decl()(*a) if not (z3.is_and(t) or z3.is_or(t) or z3.is_add(t) or z3.is_mul(t) or z3.is_distinct(t)) else (
                    z3.And(*a) if z3.is_and(t) else z3.Or(*a) if z3.is_or(t) else z3.Sum(*a) if z3.is_add(t) else z3.Product(*a) if z3.is_mul(t) else z3.Distinct(*a))
            cache[k] = r
            keep.append(t)
            keep.append(r)
        return cache[root.get_id()]

    return [go(e) for e in exprs]
