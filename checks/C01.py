"""Casertano fit of ramps split at flagged resultants."""
from symx.harness import Case

from .casspec import NATIVE, PKG, Times, combine, fit, segments

BOUNDS = "1 to 6 resultants of the listed reads, 1 or 2 pixels, any data; any pattern of flags of the listed words; listed read noises"
ASSUMPTIONS = ["real arithmetic instead of float32", "powers of fixed numbers are libm's", "read noise is one of the listed values"]

P = {
    "single": [[1], [2], [3], [4]],
    "mixed": [[1], [2, 3], [4, 5, 6, 7], [8], [12, 13]],
    "gap": [[1, 2], [5], [9, 10, 11, 12]],
    "uneven": [[1, 2, 6], [7], [8, 12], [13, 14, 19]],
    "six": [[1], [2], [3, 4], [5, 6], [7, 8, 9, 10], [11]],
}


def harness(E, pattern, words=(0, 1), npix=1, noises=(4.0,), read_time=2.0, varied=None):
    np = E.np
    f = E.mod(PKG + "_fit").fit_ramps
    nr = len(pattern)
    r = E.floats("resultants", (nr, npix), "f4", lo=-200, hi=20000)
    dq = np.zeros((nr, npix), dtype=np.int32)
    flags = [[0] * nr for _ in range(npix)]
    for p in range(npix):
        for k in range(nr):
            flags[p][k] = E.pick(f"flag{p}{k}", words) if varied is None or p in varied else words[(k == 1) * -1]
            dq[k, p] = flags[p][k]
    rn = np.array([E.pick(f"noise{p}", noises) for p in range(npix)], dtype=np.float32)
    own = [list(q) for q in pattern]
    r0 = r.copy()
    out = f(r, dq, rn, read_time, own)
    tm = Times(E, pattern, read_time)
    E.claim("shapes", out.parameters.shape == (npix, 2) and out.variances.shape == (npix, 3) and out.dq.shape == (nr, npix))
    E.claim("read pattern stays as it was", own == [list(q) for q in pattern])
    E.same("data stay as they were", r, r0, exact=True)
    for p in range(npix):
        fits = [fit(E, tm, r[:, p], float(rn[p]), a, b) for a, b in segments(flags[p])]
        s, vr, vp = combine(E, fits)
        E.same("rate, and no intercept", out.parameters[p], E.arr([0.0, s]))
        E.same("variances of read noise, photon noise and both", out.variances[p], E.arr([vr, vp, vr + vp]), rtol=1e-3)
        E.same("flags stay as they were", out.dq[:, p], np.array(flags[p]), exact=True)


CASES = [
    Case("single", harness, native=NATIVE, pattern=P["single"]),
    Case("mixed", harness, native=NATIVE, pattern=P["mixed"]),
    Case("gap", harness, native=NATIVE, pattern=P["gap"], words=(0, 4), npix=2, read_time=0.5, varied=(1,)),
    Case("uneven", harness, native=NATIVE, pattern=P["uneven"]),
    Case("words", harness, native=NATIVE, pattern=P["single"][:3], words=(0, 1, 2, 64, 1 << 30)),
    Case("noiseless", harness, native=NATIVE, pattern=P["mixed"][:3], noises=(0.0,)),
    Case("noisy", harness, native=NATIVE, pattern=P["gap"], noises=(0.25, 16.0, 200.0), read_time=4.0),
    Case("one", harness, native=NATIVE, pattern=[[1, 2]]),
    Case("two", harness, native=NATIVE, pattern=[[1, 2], [3]]),
    Case("same-time", harness, native=NATIVE, pattern=[[2], [1, 3], [2]]),
    Case("six", harness, native=NATIVE, pattern=P["six"], words=(0, 2), tier="thorough"),
    Case("two-pixels", harness, native=NATIVE, pattern=P["mixed"][:4], words=(0, 1), npix=2, noises=(2.0, 8.0), tier="thorough"),
]
