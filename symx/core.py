"""Path exploration engine: decisions, path conditions, solver queries."""
import time
from fractions import Fraction

from .z3boot import z3


class Infeasible(BaseException):
    """The current path's assumptions are unsatisfiable."""


class Inconclusive(Exception):
    """The engine could not decide something it needed to decide."""


class Stop(BaseException):
    """End this path (e.g. a claim failed and was recorded)."""


class BudgetExceeded(BaseException):
    pass


# ---------------------------------------------------------------- boolean terms
# A boolean is a Python bool or a z3 BoolRef.

def is_sym(x):
    return isinstance(x, z3.ExprRef)


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_xor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return b_not(b)
    if b is True:
        return b_not(a)
    return z3.Xor(a, b)


def b_eq(a, b):
    return b_not(b_xor(a, b))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def to_z3bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- engine

class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.claims = 0
        self.claims_trivial = 0
        self.claims_solver = 0
        self.concretised = 0
        self.infeasible = 0
        self.tolerance_only = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Ctx:
    """State of one path (a deterministic re-execution under a prefix of decisions)."""

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.query_timeout_ms)
        self.counter = 0
        self.known = {}
        self.inputs = {}     # name -> (kind, shape, dtype, array of terms)
        self.defs = []       # definitional constraints (sqrt etc.)
        self.notes = []
        self.scratch = {}
        self.model_cache = None

    # ---- solver helpers
    def _check(self, *extra):
        e = self.engine
        t = time.time()
        if e.deadline and t > e.deadline:
            raise BudgetExceeded()
        r = self.solver.check(*extra)
        e.stats.queries += 1
        e.stats.solver_s += time.time() - t
        if r == z3.sat:
            e.stats.sat += 1
            try:
                self.model_cache = self.solver.model()
            except z3.Z3Exception:
                self.model_cache = None
        elif r == z3.unsat:
            e.stats.unsat += 1
        else:
            e.stats.unknown += 1
        return r

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        self.model_cache = None

    def define(self, cond):
        """Definitional constraint for a fresh variable (always satisfiable)."""
        if cond is True:
            return
        self.add(cond)

    def check_feasible(self):
        if self._check() == z3.unsat:
            raise Infeasible()

    def fresh(self, prefix="t"):
        self.counter += 1
        return f"{prefix}!{self.counter}"

    def _model_says(self, cond):
        """True/False if the cached model (of the current pc) decides cond, else None."""
        m = self.model_cache
        if m is None:
            return None
        try:
            v = m.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a symbolic boolean: follows the prefix, otherwise forks."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key][1]
        nc = z3.simplify(z3.Not(c))
        i = len(self.decisions)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.decisions.append((d, forced))
            if not forced:
                self.add(c if d else nc)
                self.model_cache = None
            self._remember(c, nc, d)
            return d
        hint = self._model_says(c)
        if hint is True:
            t_ok, mt = True, self.model_cache
            rf = self._check(nc)
            f_ok, mf = rf != z3.unsat, self.model_cache if rf == z3.sat else None
        elif hint is False:
            f_ok, mf = True, self.model_cache
            rt = self._check(c)
            t_ok, mt = rt != z3.unsat, self.model_cache if rt == z3.sat else None
        else:
            rt = self._check(c)
            t_ok, mt = rt != z3.unsat, self.model_cache if rt == z3.sat else None
            if not t_ok:
                f_ok, mf = True, None  # pc is feasible by invariant
            else:
                rf = self._check(nc)
                f_ok, mf = rf != z3.unsat, self.model_cache if rf == z3.sat else None
        if t_ok and f_ok:
            d = True
            self.engine.push(self.decisions + [(False, False)])
            self.decisions.append((True, False))
            self.add(c)
            self.model_cache = mt
        elif t_ok or f_ok:
            d = t_ok
            self.decisions.append((d, True))
            self.model_cache = mt if d else mf
        else:
            raise Infeasible()
        self._remember(c, nc, d)
        return d

    def _remember(self, c, nc, d):
        # keep the expressions alive so ids are not reused
        self.known[c.get_id()] = (c, d)
        self.known[nc.get_id()] = (nc, not d)

    def pick_value(self, term):
        """A feasible concrete value for term under the current path condition."""
        m = self.model_cache
        if m is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Inconclusive("no model to concretise with")
            m = self.model_cache
        return m.eval(term, model_completion=True)

    def concretise_int(self, term, signed=True):
        """Enumerate values of an integer term by forking; returns a Python int."""
        t = z3.simplify(term)
        for _ in range(4096):
            if z3.is_int_value(t):
                return t.as_long()
            if z3.is_bv_value(t):
                return t.as_signed_long() if signed else t.as_long()
            # deterministic value order is needed for re-execution: record in decisions
            i = len(self.decisions)
            if i < len(self.prefix):
                v = self.prefix[i][0]
                self.decisions.append(self.prefix[i])
            else:
                mv = self.pick_value(t)
                if z3.is_int_value(mv):
                    v = mv.as_long()
                elif z3.is_bv_value(mv):
                    v = mv.as_signed_long() if signed else mv.as_long()
                else:
                    raise Inconclusive("cannot concretise")
                self.decisions.append((v, True))
            if self.branch(t == v):
                return v
        raise Inconclusive("too many values to concretise")


class Engine:
    def __init__(self, query_timeout_ms=20000, max_paths=100000, deadline=None):
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.work = []
        self.stats = Stats()

    def push(self, prefix):
        self.work.append(prefix)

    def run(self, fn, initial=()):
        """fn(ctx) executed once per feasible path. Yields ctx after each path."""
        self.work.append(list(initial))
        while self.work:
            if self.stats.paths >= self.max_paths:
                raise BudgetExceeded()
            if self.deadline and time.time() > self.deadline:
                raise BudgetExceeded()
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            set_ctx(ctx)
            try:
                fn(ctx)
                self.stats.paths += 1
            except Infeasible:
                self.stats.infeasible += 1
            except Stop:
                self.stats.paths += 1
            finally:
                set_ctx(None)


_CTX = None


def set_ctx(c):
    global _CTX
    _CTX = c


def ctx():
    if _CTX is None:
        raise Inconclusive("no active symbolic context")
    return _CTX


def has_ctx():
    return _CTX is not None


def frac(x):
    if isinstance(x, Fraction):
        return x
    return Fraction(x)
