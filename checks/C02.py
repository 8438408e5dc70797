"""Jump detection while fitting by Casertano et al.: which resultants are flagged, and the fit of what is left."""
import math

from symx.harness import Case

from .casspec import NATIVE, PKG, Times, combine, fit, segments, weights

BOUNDS = "2 to 5 resultants: a listed ramp plus up to two symbolic departures (any size) of listed shapes; listed flags, thresholds, read patterns and noises"
ASSUMPTIONS = ["real arithmetic instead of float32", "no two differences are exactly equally improbable", "the last difference has a positive expected variance, no other exactly zero",
               "the logarithm in the threshold is the same function on both sides"]
JUMP = 4
P = {
    "single": [[1], [2], [3], [4], [5]],
    "mixed": [[1], [2, 3], [4, 5, 6, 7], [8], [12, 13]],
    "gap": [[1, 2], [5, 6], [9, 10, 11, 12], [17]],
}


def statistic(E, tm, r, noise, slope, a, b, k, d):
    """(significance, is its variance positive) of the difference of resultants k and k+d against the ramp a..b"""
    np = E.np
    dt = tm.t[k + d] - tm.t[k]
    delta = (r[k + d] - r[k]) / E.const(dt) - slope
    var = (noise * noise * E.const((1 / tm_n(tm, k + d)) + (1 / tm_n(tm, k))) + slope * E.const(tm.tau[k + d] + tm.tau[k] - 2 * tm.t[k])) / E.const(dt ** 2)
    v = var - slope / E.const(tm.t[b] - tm.t[a])
    return delta, v


def tm_n(tm, k):
    from fractions import Fraction as F
    return F(tm.n[k])


def residuals(tm, nr, p):
    """all departures from a ramp that change neither its ends nor the fit with weights of power p"""
    from fractions import Fraction as F
    w = weights(tm, 0, nr - 1, p)
    t = tm.t[:nr]
    f0, f1 = sum(w), sum(a * b for a, b in zip(w, t))
    c = [(f0 * b - f1) * a for a, b in zip(w, t)]
    m = max(range(1, nr - 1), key=lambda k: abs(c[k]))
    out = []
    for k in range(1, nr - 1):
        if k == m and c[m]:
            continue
        u = [F(0)] * nr
        u[k] = F(1)
        if c[m]:
            u[m] = -c[k] / c[m]
        out.append(u)
    return tuple(out)


def harness(E, pattern, base, shapes, flags=((0,) * 5,), thresholds=((5.5, 0.0),), noises=(4.0,), read_time=2.0, size=2000, diag=False, default=False, each=False):
    np = E.np
    f = E.mod(PKG + "_fit").fit_ramps
    nr = len(pattern)
    if callable(base):
        base = base(nr)
    if isinstance(shapes, (int, float)):
        shapes = residuals(Times(E, pattern, read_time), nr, shapes)
        shapes = [(s,) for s in shapes] if each else [shapes]
    shape = E.pick("shape", shapes)
    r = np.array(base[:nr], dtype=np.float32)
    for j, s in enumerate(shape):
        r = r + E.real(f"x{j}", lo=-size, hi=size) * E.arr([E.const(v) if not isinstance(v, float) else v for v in s[:nr]])
    r = r.reshape((nr, 1))
    fl = list(E.pick("flags", flags))[:nr]
    th, const = E.pick("threshold", thresholds)
    noise = E.pick("noise", noises)
    dq = np.array([[v] for v in fl], dtype=np.int32)
    r = np.asarray(r, dtype=np.float32)
    kw = {} if default else dict(intercept=th, constant=const)
    out = f(r, dq, np.array([noise], dtype=np.float32), read_time, [list(p) for p in pattern], True, **kw, include_diagnostic=diag)
    tm = Times(E, pattern, read_time)
    col = r[:, 0]
    todo, done, jumps = segments(fl)[::-1], [], []
    new = list(fl)
    while todo:
        a, b = todo.pop()
        got = fit(E, tm, col, noise, a, b)
        if got is None:
            done.append((a, b, got))
            continue
        slope = got[0]
        stats = []
        for k in range(a, b):
            for d in (1, 2):
                if k + d <= b:
                    delta, v = statistic(E, tm, col, noise, slope, a, b, k, d)
                    E.assume(v > 0 if k == b - 1 else v != 0)
                    if k == b - 1 or v > 0:
                        stats.append((delta / np.sqrt(v), k))
        best = stats[0]
        for s in stats[1:]:
            if s[0] > best[0]:
                best = s
        c = np.where(slope > 1, np.where(slope < 1e4, slope, 1e4), 1.0)
        if best[0] > th - const * np.log10(c):
            for s in stats:
                if s[1] != best[1]:
                    E.assume(s[0] < best[0])
            k = best[1]
            new[k] = new[k + 1] = JUMP
            jumps += [k, k + 1]
            if k > a:
                todo.append((a, k - 1))
            if k + 1 < b:
                todo.append((k + 2, b))
        else:
            done.append((a, b, got))
    E.same("resultants next to a jump are flagged, no others", out.dq[:, 0], np.array(new), exact=True)
    s, vr, vp = combine(E, [g for _, _, g in done])
    E.same("rate of what is left", out.parameters[0], E.arr([0.0, s]))
    E.same("variances of what is left", out.variances[0], E.arr([vr, vp, vr + vp]), rtol=1e-3)
    if diag:
        fits = out.fits[0]
        E.claim("jumps listed", sorted(int(v) for v in fits["jumps"]) == sorted(jumps))
        listed = sorted(((int(i["start"]), int(i["end"])), j) for j, i in enumerate(fits["index"]))
        done = sorted(done, key=lambda v: v[:2])
        E.claim("ramps listed", [i for i, _ in listed] == [(a, b) for a, b, _ in done])
        for (_, j), (_, _, g) in zip(listed, done):
            q = fits["fits"][j]
            if g is None:
                E.claim("no fit of a single resultant", np.isnan(q["slope"]))
            else:
                E.same("fit listed", [q["slope"], q["read_var"], q["poisson_var"]], E.arr(list(g)))


def step(k):
    return [0.0] * k + [1.0] * (5 - k)


def spike(k):
    return [0.0] * k + [1.0] + [0.0] * (4 - k)


FLAT = [100.0] * 5
RAMP = [100.0, 140.0, 180.0, 220.0, 260.0]
LOG = ((5.5, 0.25), (4.0, 0.5))
CASES = [
    Case("three", harness, native=NATIVE, pattern=P["single"][:3], base=FLAT, shapes=[(step(1), step(2))]),
    Case("four", harness, native=NATIVE, pattern=P["single"][:4], base=RAMP, shapes=1.0, query_ms=3000, diag=True),
    Case("four-mixed", harness, native=NATIVE, pattern=P["mixed"][:4], base=RAMP, shapes=1.0, query_ms=3000, thresholds=LOG, diag=True),
    Case("four-gap", harness, native=NATIVE, pattern=P["gap"][:4], base=RAMP, shapes=1.0, query_ms=3000, default=True, thresholds=((5.5, 1/3),)),
    Case("four-bright", harness, native=NATIVE, pattern=P["single"][:4], base=[0.0, 100000.0, 200000.0, 300000.0], shapes=1.0, query_ms=3000, thresholds=LOG, size=20000, diag=True),
    Case("four-faint", harness, native=NATIVE, pattern=P["single"][:4], base=[0.0, 0.5, 1.0, 1.5], shapes=1.0, query_ms=3000, thresholds=LOG),
    Case("five", harness, native=NATIVE, pattern=P["single"][:5], base=RAMP, shapes=1.0, query_ms=3000, diag=True),
    Case("five-mixed", harness, tier="thorough", native=NATIVE, pattern=P["mixed"][:5], base=RAMP, shapes=1.0, each=True, query_ms=3000, diag=True),
    Case("five-flagged", harness, native=NATIVE, pattern=P["single"][:5], base=RAMP, shapes=[(step(4),), (spike(1),), (step(2),)], flags=((0, 0, 1, 0, 0), (1, 0, 0, 0, 0), (0, 0, 0, 0, 2)), query_ms=3000, diag=True),
]
