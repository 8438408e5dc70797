"""Casertano ramp fits of whole images: every pixel with its own data, flags and read noise, in any shape and unit."""
from symx.harness import Case

from .casspec import NATIVE, PKG, Times, combine, fit, segments

MOD = "stcal.ramp_fitting.ols_cas22_fit"
BOUNDS = "2 to 3 resultants, images of shapes (), (1,), (3,), (2, 2), (2, 1), (1, 2, 2); any data, any variances and slopes of the fit; listed flags, read noises, thresholds and units"
ASSUMPTIONS = ["real arithmetic instead of float32", "forwarding is decided for any result of the compiled fit, by a stand-in; values end to end for the listed flags",
               "units are numbers that convert by ratio"]


class Quantity:
    def __init__(self, value, unit):
        self.value, self.unit = value, unit
        self.shape = value.shape

    def to(self, unit):
        return Quantity(self.value * (self.unit / unit), unit)


class Units:
    electron = 2.0


def noise_of(E, kind, shape):
    np = E.np
    if kind == "scalar":
        return 4.0
    return np.arange(1, 1 + int(np.prod(np.array(shape, dtype=int))) if shape else 2, dtype=np.float64).reshape(shape) + 3


def forward(E, shape, kind="scalar", unit=None, kw=None, use_jump=None, nr=3):
    np = E.np
    m = E.mod(MOD)
    n = 1
    for s in shape:
        n *= s
    r = E.floats("resultants", (nr,) + shape, "f4", lo=-1e4, hi=1e5)
    dq = E.ints("dq", (nr,) + shape, "i4", lo=0, hi=1 << 20)
    par = E.floats("parameters", (n, 2), "f4", lo=-1e4, hi=1e4)
    var = E.floats("variances", (n, 3), "f4", lo=0, hi=1e4)
    odq = E.ints("dq_out", (nr, n), "i4", lo=0, hi=1 << 20)
    noise = noise_of(E, kind, shape)
    pattern = [[1], [2], [3]][:nr]
    calls = []
    real = m.ols_cas22

    class Fake:
        RampFitOutputs = real.RampFitOutputs

        @staticmethod
        def fit_ramps(resultants, dq, read_noise, read_time, read_pattern, use_jump=False, intercept=5.5, constant=1 / 3, include_diagnostic=False):
            calls.append((resultants, dq, read_noise, read_time, read_pattern, use_jump, intercept, constant))
            return real.RampFitOutputs(par, var, odq)

    r0, dq0 = r.copy(), dq.copy()
    given = r if unit is None else Quantity(r, unit)
    kw = dict(kw or {})
    extra = () if use_jump is None else (use_jump,)
    us = m.u
    m.ols_cas22, m.u = Fake, Units
    try:
        out = m.fit_ramps_casertano(given, dq, noise, 3.5, pattern, *extra, **kw)
    finally:
        m.ols_cas22, m.u = real, us
    E.claim("fitted once", len(calls) == 1)
    c = calls[0]
    scale = 1.0 if unit is None else unit / Units.electron
    E.claim("one column per pixel", tuple(c[0].shape) == (nr, n) and tuple(c[1].shape) == (nr, n) and tuple(c[2].shape) == (n,))
    E.same("electrons of every pixel", c[0], (r0 * scale).reshape((nr, n)))
    E.same("flags of every pixel", c[1], dq0.reshape((nr, n)), exact=True)
    E.same("read noise of every pixel", c[2], np.array([4.0] * n) if kind == "scalar" else noise.reshape((n,)))
    E.claim("read time and pattern", c[3] == 3.5 and [list(q) for q in c[4]] == [[1], [2], [3]][:nr])
    E.claim("jumps are looked for if asked", bool(c[5]) == bool(use_jump))
    E.claim("thresholds", c[6] == kw.get("threshold_intercept", 5.5) and c[7] == kw.get("threshold_constant", 1 / 3))
    E.claim("shapes", tuple(out.parameters.shape) == shape + (2,) and tuple(out.variances.shape) == shape + (3,) and tuple(out.dq.shape) == (nr,) + shape)
    E.same("parameters of every pixel, in electrons", out.parameters, par.reshape(shape + (2,)) * (1.0 if unit is None else Units.electron))
    E.same("variances of every pixel", out.variances, var.reshape(shape + (3,)))
    E.same("flags returned", out.dq, odq.reshape((nr,) + shape), exact=True)
    E.same("caller's data stay as they were", r, r0, exact=True)
    E.same("caller's flags stay as they were", dq, dq0, exact=True)


def whole(E, shape, use_jump=False, kind="image", words=(0, 1), nr=3, high=200):
    np = E.np
    m = E.mod(MOD)
    pattern = [[1, 2], [3], [4]][:nr]
    n = 1
    for s in shape:
        n *= s
    r = E.floats("resultants", (nr,) + shape, "f4", lo=0, hi=high)
    flags = [[0] * n for _ in range(nr)]
    for k in range(nr):
        for p in range(n):
            flags[k][p] = E.pick(f"flag{k}{p}", words) if p == n - 1 else (0 if p % 2 == 0 else (1 if k == 0 else 0))
    dq = np.array(flags, dtype=np.int32).reshape((nr,) + shape)
    noise = noise_of(E, kind, shape)
    dq0 = dq.copy()
    r0 = r.copy()
    # a threshold that no difference reaches
    kw = dict(threshold_intercept=1e6, threshold_constant=0.0) if use_jump else {}
    out = m.fit_ramps_casertano(r, dq, noise, 2.0, pattern, use_jump, **kw)
    tm = Times(E, pattern, 2.0)
    flat = r.reshape((nr, n))
    par, var = [], []
    rn = [4.0] * n if kind == "scalar" else [float(v) for v in noise.reshape((n,))]
    for p in range(n):
        fits = [fit(E, tm, flat[:, p], rn[p], a, b) for a, b in segments([flags[k][p] for k in range(nr)])]
        s, vr, vp = combine(E, fits)
        par.append([0.0, s])
        var.append([vr, vp, vr + vp])
    E.claim("shapes", tuple(out.parameters.shape) == shape + (2,) and tuple(out.variances.shape) == shape + (3,) and tuple(out.dq.shape) == (nr,) + shape)
    E.same("rate of every pixel", out.parameters.reshape((n, 2)), E.arr([v for q in par for v in q]).reshape((n, 2)))
    E.same("variances of every pixel", out.variances.reshape((n, 3)), E.arr([v for q in var for v in q]).reshape((n, 3)), rtol=1e-3)
    E.same("flags returned", out.dq, dq0, exact=True)
    E.same("caller's data stay as they were", r, r0, exact=True)
    E.same("caller's flags stay as they were", dq, dq0, exact=True)


def kept(E, pattern, nr, base):
    """jumps go into the flags returned, and only there"""
    np = E.np
    m = E.mod(MOD)
    x = E.real("x", lo=-2000, hi=2000)
    r = np.asarray((np.array(base, dtype=np.float32) + x * np.array([0.0, 1.0, 1.0][:nr])).reshape((nr, 1)), dtype=np.float32)
    dq = np.zeros((nr, 1), dtype=np.int32)
    r0 = r.copy()
    out = m.fit_ramps_casertano(r, dq, 4.0, 2.0, pattern, True, threshold_intercept=5.5, threshold_constant=0.0)
    E.same("caller's flags stay as they were", dq, np.zeros((nr, 1), dtype=np.int32), exact=True)
    E.same("caller's data stay as they were", r, r0, exact=True)
    new = [int(v) for v in out.dq[:, 0]]
    E.claim("only jump flags appear", all(v in (0, 4) for v in new))
    E.cover("jump found", any(v == 4 for v in new))


def mismatch(E, nr, reads):
    np = E.np
    m = E.mod(MOD)
    r = E.floats("resultants", (nr, 2), "f4", lo=0, hi=100)
    err = None
    try:
        m.fit_ramps_casertano(r, np.zeros((nr, 2), dtype=np.int32), 4.0, 2.0, [[k + 1] for k in range(reads)])
    except RuntimeError as e:
        err = e
    E.claim("refused", err is not None)


CASES = [
    Case("forward-ramp", forward, native=NATIVE, shape=()),
    Case("forward-row", forward, native=NATIVE, shape=(3,), kind="image"),
    Case("forward-image", forward, native=NATIVE, shape=(2, 2), kind="image", use_jump=True),
    Case("forward-stack", forward, native=NATIVE, shape=(1, 2, 2), kw=dict(threshold_constant=0.0), use_jump=True),
    Case("forward-unit", forward, native=NATIVE, shape=(2, 1), unit=3.0, kw=dict(threshold_intercept=0.0), use_jump=False),
    Case("forward-unit-ramp", forward, native=NATIVE, shape=(), unit=2.0, kw=dict(threshold_intercept=4.5, threshold_constant=0.25), use_jump=True),
    Case("whole-ramp", whole, native=NATIVE, shape=(), kind="scalar"),
    Case("whole-row", whole, native=NATIVE, shape=(3,), words=(0, 4), high=50),
    Case("whole-image", whole, native=NATIVE, shape=(2, 2), use_jump=True, kind="scalar", nr=2),
    Case("kept", kept, native=NATIVE, pattern=[[1], [2], [3]], nr=3, base=[100.0, 100.0, 100.0]),
    Case("short-pattern", mismatch, native=NATIVE, nr=3, reads=2),
    Case("long-pattern", mismatch, native=NATIVE, nr=2, reads=3),
]
