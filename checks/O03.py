"""Weight threshold and median filter used before outlier detection."""
from symx.harness import Case

BOUNDS = "up to 4 weights of any value (zero, NaN or infinite in any place) plus 11 weights with one of any value; filters of 3 and 3x3 on up to 5 and 2x3 values"
ASSUMPTIONS = ["weights are not negative"]


def threshold(E, n, two=False):
    np = E.np
    kinds = [E.pick(f"k{i}", ("value", 0.0, float("nan"), float("inf"))) for i in range(n)]
    v = E.floats("w", (n,), "f4", lo=1, hi=1000)
    w = v.copy()
    for i, k in enumerate(kinds):
        if k != "value":
            w[i] = k
    pct = E.real("pct", lo=0, hi=1)
    good = [i for i, k in enumerate(kinds) if k == "value"]
    keep = w.copy()
    got = E.mod("stcal.outlier_detection.utils").compute_weight_threshold(w.reshape((2, n // 2)) if two else w, pct)
    E.same("weights are left alone", w, keep, exact=True)
    if not good:
        E.claim("no usable weight, no threshold", np.isnan(got))
        return
    E.same("threshold is the requested fraction of the mean of the usable weights", got, sum(v[i] for i in good) / len(good) * pct)
    E.cover("some", len(good) < n)


def clipped(E, base, big=()):
    """one weight among given ones: leaves the mean exactly when further than 3 std from the median (of those left without the big ones)"""
    np = E.np
    x = E.real("x", lo=0.5, hi=60 if big else 1000)
    pct = E.pick("pct", (0.7, 1.0))
    a = np.array(list(base) + [0.0] + list(big), dtype="f8")
    n = len(base) + 1
    a[n - 1] = x
    got = E.mod("stcal.outlier_detection.utils").compute_weight_threshold(a, pct)
    s = sorted(base)
    m = len(s) // 2
    lo, hi = s[m - 1], s[m]            # an even number of given weights: the median is x clamped between the middle two
    med = E.ite(x < lo, lo, E.ite(x > hi, hi, x))
    tot = sum(base)
    sq = sum(b * b for b in base)
    mean = (tot + x) / n
    var = (sq + x * x) / n - mean * mean
    dev = x - med
    out = dev * dev > 9 * var
    want = E.ite(out, tot / len(base), mean) * pct
    edge = np.abs(dev * dev - 9 * var) > 0.001
    E.same("an outlying weight is left out of the mean", got, want, where=edge)
    E.cover("left out", out)
    E.cover("kept", ~out)


def medfilt(E, shape, kern, nan=True):
    np = E.np
    a = E.floats("a", shape, "f8", lo=-100, hi=100, nan=nan)
    got = E.mod("stcal.outlier_detection.utils").medfilt(a, kern)
    p = np.zeros(tuple(s + 2 * (k // 2) for s, k in zip(shape, kern)))
    p[tuple(slice(k // 2, k // 2 + s) for s, k in zip(shape, kern))] = a
    want = np.zeros(shape)
    for ix in __import__("itertools").product(*map(range, shape)):
        want[ix] = np.nanmedian(p[tuple(slice(i, i + k) for i, k in zip(ix, kern))])
    E.same("median of the window, zeros outside, missing values left out", got, want)


CASES = [
    Case("threshold-2", threshold, n=2),
    Case("threshold-3", threshold, n=3),
    Case("threshold-4", threshold, n=4, two=True),
    Case("clip-11", clipped, base=(8.0, 9.0, 9.5, 10.0, 10.0, 10.25, 10.5, 11.0, 11.5, 12.0)),
    Case("clip-13", clipped, base=(1.0, 1.5, 2.0, 3.0, 3.5, 4.0, 4.5, 5.0, 5.0, 5.5, 6.0, 7.0)),
    Case("clip-again", clipped, base=(8.0, 9.0, 9.5, 10.0, 10.0, 10.25, 10.5, 10.5, 10.75, 11.0, 11.5, 12.0), big=(1000.0,)),
    Case("medfilt-1d", medfilt, shape=(4,), kern=[3]),
    Case("medfilt-1d-5", medfilt, shape=(3,), kern=[5]),
    Case("medfilt-2d", medfilt, shape=(2, 2), kern=[3, 3], nan=False),
    Case("medfilt-1x3", medfilt, shape=(2, 3), kern=[1, 3]),
    Case("medfilt-3d", medfilt, shape=(1, 2, 2), kern=[1, 1, 3]),
]
