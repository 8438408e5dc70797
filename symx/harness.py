"""Write a harness once; run it symbolically (solver decides) or on concrete values (replay)."""
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import arr as A
from . import abstract, npcall, npproxy, scal, xreal
from .arr import SymArray, SymScalar, SymSel, lift, obj_full
from .core import (
    BudgetExceeded, Engine, Inconclusive, Infeasible, Stop, b_and, b_not, b_or, ctx, to_z3bool,
)
from .xreal import XR, zr
from .z3boot import z3


class ReplayMismatch(BaseException):
    """Concrete values do not satisfy the harness assumptions."""


class Case:
    def __init__(self, name, fn, tier="quick", timeout=None, query_ms=20000, opaque=False, shims=None, ext=None,
                 max_paths=20000, witness=2, native=None, **params):
        self.name, self.fn, self.params, self.tier = name, fn, params, tier
        self.timeout, self.query_ms, self.opaque = timeout, query_ms, opaque
        self.shims, self.ext, self.max_paths, self.witness = shims, ext, max_paths, witness
        self.native = native or {}  # extension module -> (C source relative to the package root, functions)

    def exts(self):
        from .loader import SRC

        out = dict(self.ext or {})
        for name, (src, functions) in self.native.items():
            if src.endswith(".pyx"):      # the loader translates these
                continue
            from .cpyapi import CExt

            out[name] = CExt(os.path.join(SRC, src), functions)
        return out

    def load_native(self):
        """build the extensions from the current source for runs of the real code"""
        from .llvm import load_so
        from .loader import SRC

        cython = {}
        for name, (src, _) in self.native.items():
            if src.endswith(".pyx"):
                cython[name] = os.path.join(SRC, src)
            else:
                load_so(os.path.join(SRC, src), name)
        if cython:
            from . import pyx

            pyx.load(cython)


class Found(BaseException):
    def __init__(self, rec):
        self.rec = rec


# ---------------------------------------------------------------- environments

def plain(cond):
    """``~`` of a Python truth value is -1 or -2: read those back as False negated and True negated"""
    if isinstance(cond, (int, np.integer)) and not isinstance(cond, (bool, np.bool_)) and int(cond) in (-1, -2):
        return int(cond) == -1
    return cond


class Env:
    sym = False

    def m(self, name):
        return self.mod(name)


class RealEnv(Env):
    """concrete replay on the real package"""

    def __init__(self, values, rtol=1e-4):
        self.values = values
        self.np = np
        self.failed = []
        self.covered = set()
        self.n_claims = 0
        self.scratch = {}
        self.called = False

    def mod(self, name):
        import importlib

        self.called = True

        return importlib.import_module(name)

    def _get(self, name):
        if name not in self.values:
            raise ReplayMismatch(f"no value for {name}")
        return self.values[name]

    def floats(self, name, shape, dtype="f4", **k):
        a = np.array(self._get(name), dtype=dtype).reshape(shape)
        return a if shape != () else a[()]

    ints = bits = bools = None

    def assume(self, cond):
        if not np.all(plain(cond)):
            raise ReplayMismatch("assumption")

    def claim(self, name, cond, detail=None):
        self.n_claims += 1
        if not np.all(plain(cond)):
            self.failed.append((name, detail() if callable(detail) else _short(cond)))

    def same(self, name, got, want, where=None, rtol=1e-4, atol=1e-6, exact=False):
        self.n_claims += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            try:
                np.broadcast_shapes(got.shape, want.shape)
                ok_shape = want.ndim == 0
            except ValueError:
                ok_shape = False
            if not ok_shape:
                self.failed.append((name, f"shape {got.shape} != {want.shape}"))
                return
        if got.dtype.kind == "f" or want.dtype.kind == "f":
            g, w = got.astype(float), want.astype(float)
            with np.errstate(all="ignore"):
                ok = (np.isnan(g) & np.isnan(w)) | (g == w)
                if not exact:
                    ok |= np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w))
        else:
            ok = got == want
        if where is not None:
            ok = ok | ~np.asarray(where, dtype=bool)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(np.broadcast_to(ok, got.shape)))
            ix = tuple(bad[0]) if len(bad) else ()
            gi = np.atleast_1d(got)[ix] if got.ndim or len(ix) else got
            wi = np.atleast_1d(np.broadcast_to(want, got.shape))[ix] if got.ndim or len(ix) else want
            self.failed.append((name, f"at {tuple(int(i) for i in ix)}: got {gi} want {wi}"))

    def cover(self, name, cond=True):
        if np.any(plain(cond)):
            self.covered.add(name)

    def ite(self, c, a, b):
        return np.where(c, a, b)

    def pick(self, name, options):
        return options[int(self._get(name))]

    def integer(self, name, lo, hi):
        return int(self._get(name))

    def real(self, name, lo=None, hi=None):
        return float(self._get(name))

    def const(self, fr):
        return float(fr)

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def opaque(self, name, fn_real, shape, dtype="f8"):
        return fn_real()


def _real_get(dt_default):
    def f(self, name, shape, dtype=dt_default, *a, **k):
        v = np.array(self._get(name), dtype=dtype).reshape(shape)
        return v if shape != () else v[()]

    return f


RealEnv.ints = _real_get("i8")
RealEnv.bits = _real_get("u4")


def _real_bools(self, name, shape):
    v = np.array(self._get(name), dtype=bool).reshape(shape)
    return v if shape != () else bool(v)


RealEnv.bools = _real_bools


def _short(c):
    try:
        a = np.asarray(c)
        if a.ndim:
            return f"false at {[tuple(int(i) for i in x) for x in np.argwhere(~a)[:3]]}"
    except Exception:
        pass
    return ""


class SymEnv(Env):
    sym = True

    def __init__(self, runner, c):
        self.runner = runner
        self.c = c
        self.np = npproxy.NP
        self.n_claims = 0
        self.covered = runner.covered
        self.inputs = {}
        self.scratch = {}

    def mod(self, name):
        return self.runner.loader.load(name)

    # ---- inputs
    def _reg(self, name, kind, a):
        if name in self.inputs:
            raise ValueError(f"duplicate input {name}")
        self.inputs[name] = (kind, a.shape, a.o.copy(), a.dtype)
        return A.scalar(a.o[()], a.dtype) if a.ndim == 0 else a

    def floats(self, name, shape, dtype="f4", lo=None, hi=None, nan=False, inf=False, integer=False):
        dt = np.dtype(dtype)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            n = name + "".join(f"_{i}" for i in ix)
            v = z3.Real(n)
            self.runner.real_vars.append(v)
            if integer:
                iv = z3.Int(n + "_i")
                v = z3.ToReal(iv)
            if lo is not None:
                self.c.add(v >= zr(Fraction(lo)))
            if hi is not None:
                self.c.add(v <= zr(Fraction(hi)))
            isnan = z3.Bool(n + "_nan") if nan else False
            pinf = ninf = False
            if inf:
                p, q = z3.Bool(n + "_pinf"), z3.Bool(n + "_ninf")
                pinf = b_and(b_not(isnan), p)
                ninf = b_and(b_not(isnan), b_not(p), q)
            o[ix] = XR(v, isnan, pinf, ninf)
        return self._reg(name, "f", SymArray(o, dt))

    def ints(self, name, shape, dtype="i8", lo=None, hi=None):
        dt = np.dtype(dtype)
        ii = np.iinfo(dt)
        lo, hi = ii.min if lo is None else lo, ii.max if hi is None else hi
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            n = name + "".join(f"_{i}" for i in ix)
            if dt.kind == "u":
                v = z3.BitVec(n, dt.itemsize * 8)
                self.c.add(z3.And(z3.ULE(lo, v), z3.ULE(v, hi)))
            else:
                v = z3.Int(n)
                self.c.add(z3.And(v >= lo, v <= hi))
            o[ix] = v
        return self._reg(name, "i", SymArray(o, dt))

    def bits(self, name, shape, dtype="u4", mask=None):
        """arbitrary flag words using only the bits of mask"""
        dt = np.dtype(dtype)
        w = dt.itemsize * 8
        mask = (1 << w) - 1 if mask is None else mask
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            n = name + "".join(f"_{i}" for i in ix)
            v = None
            t = z3.BitVec(n, w)
            if mask != (1 << w) - 1:
                self.c.add(t & z3.BitVecVal(((1 << w) - 1) ^ mask, w) == 0)
            o[ix] = t
        return self._reg(name, "i", SymArray(o, dt))

    def bools(self, name, shape):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = z3.Bool(name + "".join(f"_{i}" for i in ix))
        return self._reg(name, "b", SymArray(o, np.dtype(bool)))

    def pick(self, name, options):
        v = z3.Int(name)
        self.c.add(z3.And(v >= 0, v < len(options)))
        self.inputs[name] = ("i", (), obj_full((), v), np.dtype("i8"))
        return options[self.c.concretise_int(v)]

    def integer(self, name, lo, hi):
        v = z3.Int(name)
        self.c.add(z3.And(v >= lo, v <= hi))
        self.inputs[name] = ("i", (), obj_full((), v), np.dtype("i8"))
        return self.c.concretise_int(v)

    def real(self, name, lo=None, hi=None):
        """a Python float"""
        s = self.floats(name, (), "f8", lo=lo, hi=hi)
        return A.pyfloat(s.o[()])

    def const(self, fr):
        """an exact rational constant"""
        return A.pyfloat(XR.of(Fraction(fr)))

    def arr(self, x, dtype=None):
        return A.make_array(x, dtype=dtype)

    def opaque(self, name, fn_real, shape, dtype="f8"):
        raise NotImplementedError

    # ---- conditions
    def _cond(self, cond):
        cond = plain(cond)
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        if isinstance(cond, z3.BoolRef):
            return cond
        if isinstance(cond, SymSel):
            cond = cond.force()
        a = lift(cond)
        return b_and(*[scal.truth(v, A.native(a.dtype)) for v in a.o.ravel()])

    def _terms(self, cond):
        cond = plain(cond)
        if isinstance(cond, (bool, np.bool_)):
            return [bool(cond)]
        if isinstance(cond, z3.BoolRef):
            return [cond]
        if isinstance(cond, SymSel):
            cond = cond.force()
        a = lift(cond)
        return [scal.truth(v, A.native(a.dtype)) for v in a.o.ravel()]

    def assume(self, cond):
        self.c.assume(self._cond(cond))

    def cover(self, name, cond=True):
        if name in self.covered:
            return
        t = b_or(*self._terms(cond))
        if t is False:
            self.runner.cover_names.add(name)
            return
        self.runner.cover_names.add(name)
        if t is True or self.c._check(t) == z3.sat:
            self.covered.add(name)

    def ite(self, c, a, b):
        return npcall.np_where(c, a, b)

    # ---- claims
    def claim(self, name, cond, detail=None):
        self.runner.decide(self, name, self._terms(cond))

    def same(self, name, got, want, where=None, rtol=1e-4, atol=1e-6, exact=False):
        g = got.force() if isinstance(got, SymSel) else lift(got)
        w = want.force() if isinstance(want, SymSel) else lift(want)
        if g.shape != w.shape and w.ndim != 0:
            self.runner.decide(self, name, [False])
            return
        if A.misordered(g) or A.misordered(w):  # bytes in the wrong order: arbitrary values
            self.runner.decide(self, name, [False])
            return
        wo = np.broadcast_to(w.o, g.shape)
        wh = None
        if where is not None:
            m = lift(where)
            wh = np.broadcast_to(A.cast_obj(m.o, A.native(m.dtype), scal.BOOL), g.shape)
        terms, tol, big = [], [], []
        gd, wd = A.native(g.dtype), A.native(w.dtype)
        isf = gd.kind == "f" or wd.kind == "f"
        if gd.kind == "O" or wd.kind == "O":
            terms = [bool(a == b) for a, b in zip(g.o.ravel(), wo.ravel())]
            self.runner.decide(self, name, terms)
            return
        rd = np.result_type(gd, wd) if not isf else scal.F8
        for ix in np.ndindex(*g.shape):
            a, b = g.o[ix], wo[ix]
            guard = True if wh is None else wh[ix]
            if guard is False:
                continue
            a, b = scal.cast(a, gd, rd), scal.cast(b, wd, rd)
            t = scal.same(a, b, rd)
            ng = b_not(guard)
            terms.append(b_or(ng, t))
            if isf:
                tol.append(b_or(ng, a.close(b, 2 * rtol, 2 * atol)))
                big.append(b_or(ng, a.close(b, 0.05, 0.01)))
        self.runner.decide(self, name, terms, None if exact or not isf else tol, big if isf else None)


# ---------------------------------------------------------------- running one case symbolically

class Runner:
    def __init__(self, case, budget_s, seed=1):
        from .loader import Loader

        self.case = case
        self.loader = Loader(shims=case.shims, stub_ext=case.exts())
        self.deadline = time.time() + budget_s
        self.engine = Engine(case.query_ms, max_paths=case.max_paths, deadline=self.deadline)
        self.covered, self.cover_names = set(), set()
        self.real_vars = []
        self.violation = None
        self.unconfirmed = []
        self.engine_errors = []
        self.undecided = []
        self.witnesses = 0
        self.witness_fail = []
        self.samples = []
        self.notes = {}
        self.feasible = 0
        self.complete = False
        self.decisions = 0
        self.proved = set()
        self.functions = set()
        self.rng = random.Random(seed)

    # ---- claims
    def decide(self, env, name, terms, tol=None, big=None):
        env.n_claims += 1
        st = self.engine.stats
        st.claims += 1
        todo = []
        for i, t in enumerate(terms):
            if t is True:
                continue
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    continue
            todo.append((i, t))
        if not todo:
            st.claims_trivial += 1
            self.proved.add(name)
            return
        st.claims_solver += 1
        neg = z3.Or(*[to_z3bool(b_not(t)) for _, t in todo]) if len(todo) > 1 else to_z3bool(b_not(todo[0][1]))
        if abstract.nonlinear([neg]):
            if self._abstract_proof(env, neg):
                self.proved.add(name)
                return
            if len(todo) > 1:
                # element by element: most close under the abstraction, the rest go to the exact solver
                todo = [(i, t) for i, t in todo if not self._abstract_proof(env, to_z3bool(b_not(t)))]
                if not todo:
                    self.proved.add(name)
                    return
                neg = z3.Or(*[to_z3bool(b_not(t)) for _, t in todo]) if len(todo) > 1 else to_z3bool(b_not(todo[0][1]))
        r = env.c._check(neg)
        if r == z3.unknown and len(todo) > 1:
            res = []
            for i, t in todo:
                ri = env.c._check(to_z3bool(b_not(t)))
                res.append((ri, i, t))
            if all(x[0] == z3.unsat for x in res):
                r = z3.unsat
            else:
                s = [x for x in res if x[0] == z3.sat]
                if s:
                    r, neg = z3.sat, to_z3bool(b_not(s[0][2]))
        if r == z3.unknown:
            r2, neg2 = self._other_solver(env, neg)
            if r2 == z3.unsat:
                r = z3.unsat
        if r == z3.unsat:
            self.proved.add(name)
            return
        if r == z3.unknown:
            # look for a counterexample anyway: nothing is claimed for this path
            self.undecided.append(name)
            self._try_replay(env, name, [z3.And(neg, b) for b in self._nice(env)], quiet=True)
            return
        negs = []
        if tol is not None:
            idx = [i for i, _ in todo]
            nt = b_or(*[b_not(tol[i]) for i in idx])
            rt = z3.unsat if nt is False else env.c._check(to_z3bool(nt))
            if rt == z3.unsat:
                st.tolerance_only += 1
                self.proved.add(name)
                return
            if big is not None:
                nb = to_z3bool(b_or(*[b_not(big[i]) for i in idx]))
                negs.append(nb)
            negs.append(to_z3bool(nt))
        else:
            negs.append(neg)
        self._try_replay(env, name, negs)

    def _abstract_proof(self, env, neg):
        """products/quotients of symbolic terms as uninterpreted functions (sound for unsat)"""
        st = self.engine.stats
        for som in (False, True):
            t0 = time.time()
            try:
                fs = abstract.abstract(env.c.pc + [neg], som)
            except z3.Z3Exception:
                continue
            s = z3.Solver()
            s.set("timeout", min(6000, self.case.query_ms))
            s.add(*fs)
            r = s.check()
            st.queries += 1
            st.solver_s += time.time() - t0
            if r == z3.unsat:
                st.unsat += 1
                return True
        return False

    def _other_solver(self, env, neg):
        """second attempt with a different tactic"""
        t0 = time.time()
        st = self.engine.stats
        for tac in ("qfnra-nlsat", "smt"):
            try:
                s = z3.Then("simplify", "solve-eqs", "purify-arith", tac).solver() if tac != "smt" else z3.SimpleSolver()
                s.set("timeout", self.case.query_ms)
                for p in env.c.pc:
                    s.add(p)
                s.add(neg)
                r = s.check()
            except z3.Z3Exception:
                continue
            st.queries += 1
            if r != z3.unknown:
                st.solver_s += time.time() - t0
                return r, neg
        st.solver_s += time.time() - t0
        return z3.unknown, neg

    def _nice(self, env):
        """constraints that make input values exactly representable and moderate"""
        out = []
        for q, lim in ((1, 4000), (8, 100000)):
            cs = []
            for name, (kind, shape, o, dt) in env.inputs.items():
                if kind != "f":
                    continue
                for v in o.ravel():
                    if isinstance(v.val, Fraction):
                        continue
                    n = str(v.val)
                    k = z3.Int("nice_" + n)
                    cs.append(v.val == z3.ToReal(k) / q)
                    cs.append(z3.And(k <= lim * q, k >= -lim * q))
            out.append(z3.And(*cs) if cs else z3.BoolVal(True))
            if not cs:
                break
        return out

    def _models(self, env, negs, per=3):
        """candidate models violating the claim"""
        nice = self._nice(env)
        s = env.c.solver
        for neg in negs:
            for extra in nice + [z3.BoolVal(True)]:
                s.push()
                try:
                    s.add(neg, extra)
                    s.set("timeout", 6000)
                    for _ in range(per):
                        t = time.time()
                        r = s.check()
                        self.engine.stats.queries += 1
                        self.engine.stats.solver_s += time.time() - t
                        if r != z3.sat:
                            break
                        m = s.model()
                        yield m
                        blk = []
                        for name, (kind, shape, o, dt) in env.inputs.items():
                            for v in o.ravel():
                                e = v.val if kind == "f" else v
                                if isinstance(e, z3.ExprRef):
                                    blk.append(e != m.eval(e, model_completion=True))
                        if not blk:
                            break
                        self.rng.shuffle(blk)
                        s.add(z3.Or(*blk[: max(1, len(blk) // 3)]))
                finally:
                    s.pop()
                    s.set("timeout", self.engine.query_timeout_ms)

    def _try_replay(self, env, name, negs, quiet=False):
        tried = 0
        for m in self._models(env, negs):
            vals = self.extract(env, m)
            tried += 1
            res = self.replay(vals)
            if res["status"] == "violated":
                raise Found({"claim": name, "values": vals, "failed": res["failed"]})
            if tried >= 12 or time.time() > self.deadline:
                break
        if not quiet:
            self.unconfirmed.append(f"{name} ({tried} models replayed)")

    def extract(self, env, m):
        vals = {}
        for name, (kind, shape, o, dt) in env.inputs.items():
            out = []
            for v in o.reshape(-1):
                out.append(_model_value(m, kind, v, dt))
            vals[name] = out if shape != () else out[0]
        return vals

    def replay(self, vals):
        return replay_case(self.case, vals)

    # ---- path function
    def path(self, c):
        env = SymEnv(self, c)
        self.real_vars = []
        xreal.OPAQUE = self.case.opaque
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.case.fn(env, **self.case.params)
            self._finish(env, c)
        except (Infeasible, Stop, BudgetExceeded, Found):
            raise
        except Inconclusive as e:
            self._engine_error(env, c, f"outside the encodable fragment: {e}")
        except RecursionError as e:
            self._engine_error(env, c, f"{type(e).__name__}: {e}")
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            self._engine_error(env, c, f"{type(e).__name__}: {e}", tb, exc=e)
        finally:
            xreal.OPAQUE = False
            for n in c.notes:
                self.notes[n] = self.notes.get(n, 0) + 1
            self.decisions += sum(1 for d in c.decisions if not d[1])

    def _finish(self, env, c):
        r = c._check() if c.model_cache is None else z3.sat
        if r == z3.unsat:
            raise Infeasible()
        self.feasible += 1
        if self.witnesses < self.case.witness and r == z3.sat:
            self._witness(env, c)

    def _witness(self, env, c):
        """reachability witness: a model of this path, run through the real code"""
        for m in self._models(env, [z3.BoolVal(True)], per=1):
            vals = self.extract(env, m)
            res = self.replay(vals)
            if res["status"] == "assumption":
                continue
            self.witnesses += 1
            if len(self.samples) < 2:
                self.samples.append(_trim(vals))
            if res["status"] in ("violated", "harness-error"):
                self.witness_fail.append({"values": vals, "failed": res["failed"]})
            return

    def _engine_error(self, env, c, msg, tb=None, exc=None):
        """the symbolic run raised: does the real code raise on this path too?"""
        n = 0
        for m in self._models(env, [z3.BoolVal(True)], per=4):
            vals = self.extract(env, m)
            res = self.replay(vals)
            if res["status"] == "violated":
                raise Found({"claim": res["failed"][0][0], "values": vals, "failed": res["failed"]})
            if res["status"] == "ok":
                n += 1
            if n >= 8:
                break
        if n == 0 and c._check() == z3.unsat:
            raise Infeasible()
        if len(self.engine_errors) < 20:
            self.engine_errors.append({"msg": msg, "tb": tb, "replayed_ok": n})
        else:
            self.engine_errors.append({"msg": msg})

    def run(self):
        mon = sys.monitoring
        tool = mon.PROFILER_ID
        from .loader import SRC

        def started(code, off):
            if code.co_filename.startswith(SRC):
                self.functions.add(f"{os.path.relpath(code.co_filename, SRC)}:{code.co_qualname}")
            return mon.DISABLE

        try:
            mon.use_tool_id(tool, "symx")
            mon.register_callback(tool, mon.events.PY_START, started)
            mon.set_events(tool, mon.events.PY_START)
        except ValueError:
            tool = None
        try:
            self.engine.run(self.path)
            self.complete = True
        except BudgetExceeded:
            self.complete = False
        except Found as f:
            self.violation = f.rec
        finally:
            if tool is not None:
                mon.set_events(tool, 0)
                mon.free_tool_id(tool)
        return self

    def result(self):
        s = self.engine.stats
        return {
            "case": self.case.name, "violation": self.violation, "unconfirmed": self.unconfirmed[:10],
            "n_unconfirmed": len(self.unconfirmed), "engine_errors": self.engine_errors[:5],
            "n_engine_errors": len(self.engine_errors), "undecided": self.undecided[:20],
            "n_undecided": len(self.undecided), "witnesses": self.witnesses,
            "witness_fail": self.witness_fail, "samples": self.samples, "notes": self.notes,
            "feasible_paths": self.feasible, "complete": self.complete, "decisions": self.decisions,
            "claims_proved": sorted(self.proved), "functions": sorted(self.functions),
            "stats": dict(s.__dict__), "covered": sorted(self.covered),
            "not_covered": sorted(self.cover_names - self.covered),
        }


def _trim(vals):
    out = {}
    for k, v in vals.items():
        out[k] = v if not isinstance(v, list) or len(v) <= 12 else v[:12] + ["..."]
    return out


def _model_value(m, kind, v, dt):
    if kind == "f":
        def tv(b):
            return b if isinstance(b, bool) else z3.is_true(m.eval(b, model_completion=True))
        if tv(v.nan):
            return "nan"
        if tv(v.pinf):
            return "inf"
        if tv(v.ninf):
            return "-inf"
        if isinstance(v.val, Fraction):
            return float(v.val)
        f = A.model_real_to_fraction(m.eval(v.val, model_completion=True))
        try:
            return float(f)
        except OverflowError:
            return "inf" if f > 0 else "-inf"
    if kind == "b":
        return v if isinstance(v, bool) else z3.is_true(m.eval(v, model_completion=True))
    if isinstance(v, int):
        return v
    e = m.eval(v, model_completion=True)
    if z3.is_bv_value(e):
        return e.as_signed_long() if dt.kind == "i" else e.as_long()
    return e.as_long()


def replay_case(case, vals):
    """run the harness on concrete values against the real code"""
    from .core import _CTX, set_ctx

    v2 = {k: (_unstr(v)) for k, v in vals.items()}
    env = RealEnv(v2)
    saved = sys.modules[__package__ + ".core"]._CTX
    set_ctx(None)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            getattr(case, "load_native", lambda: None)()
            case.fn(env, **case.params)
    except ReplayMismatch:
        # a claim that failed before an input made later (or an assumption after it) was reached stands
        if not env.failed:
            return {"status": "assumption", "failed": []}
    except Inconclusive as e:
        # a stand-in that does not cover what the code uses now
        return {"status": "harness-error", "failed": [("stand-in", str(e))]}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any("/stcal/" in f.filename for f in tb)
        if not in_repo and not getattr(e, "_from_code", False):
            # the harness itself failed: a result of the wrong shape or kind is the code's fault, a renamed function is not
            if isinstance(e, (IndexError, KeyError)) or (isinstance(e, ValueError) and env.called) or (isinstance(e, TypeError) and "NoneType" in str(e)):
                return {"status": "violated", "failed": [("result has the expected form", f"{type(e).__name__}: {e}")]}
            return {"status": "harness-error", "failed": [("harness", f"{type(e).__name__}: {e}")]}
        last = [f for f in tb if "/stcal/" in f.filename][-1] if in_repo else tb[-1]
        return {
            "status": "violated",
            "failed": [("no-unexpected-exception", f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}")],
        }
    finally:
        set_ctx(saved)
    if env.failed:
        return {"status": "violated", "failed": [(a, str(b)) for a, b in env.failed[:5]]}
    return {"status": "ok", "failed": []}


def _unstr(v):
    if isinstance(v, list):
        return [_unstr(x) for x in v]
    if v in ("nan", "inf", "-inf"):
        return float(v)
    return v
