"""Casertano et al. 2022 ramp fit, written down directly."""
import math

PKG = "stcal.ramp_fitting.ols_cas22."
NATIVE = {PKG + n: (f"stcal/ramp_fitting/ols_cas22/{n}.pyx", None) for n in ("_ramp", "_jump", "_fit")}
TABLE = [(5, 0.0), (10, 0.4), (20, 1.0), (50, 3.0), (100, 6.0), (None, 10.0)]     # signal to noise below -> power of the weights


class Times:
    def __init__(self, E, pattern, read_time):
        self.n = [len(r) for r in pattern]
        f = E.const
        from fractions import Fraction as F
        rt = F(read_time)
        self.t = [rt * sum(F(v) for v in r) / len(r) for r in pattern]
        # variance of the mean time: sum over reads of (2 (n - k) - 1) t_k / n^2
        self.tau = [rt * sum((2 * (len(r) - k) - 1) * F(v) for k, v in enumerate(r)) / len(r) ** 2 for r in pattern]


def power(E, first, last, noise):
    """power of the weights for the signal to noise of a ramp (forks)"""
    np = E.np
    s = last - first
    s = np.where(s > 0, s, 0.0)
    s = s / np.sqrt(noise * noise + s)
    for lim, p in TABLE[:-1]:
        if s < lim:
            return p
    return TABLE[-1][1]


def weights(tm, k0, k1, p):
    """fixed for a ramp and power"""
    from fractions import Fraction as F
    t = tm.t[k0:k1 + 1]
    mid = (t[0] + t[-1]) / 2
    half = (t[-1] - t[0]) / 2
    if half == 0:
        half = 1
    w = []
    for k in range(k0, k1 + 1):
        n = tm.n[k]
        x = abs(tm.t[k] - mid) / half
        w.append(F(1 + F(p)) * n / (1 + F(p) * n) * (x ** int(p) if p == int(p) else F(math.pow(float(x), p))))
    return w


def fit(E, tm, r, noise, k0, k1):
    """(slope, variance of read noise, variance of photon noise per unit slope) of resultants k0..k1, or None"""
    from fractions import Fraction as F
    if k1 <= k0:
        return None
    w = weights(tm, k0, k1, power(E, r[k0], r[k1], noise))
    t = tm.t[k0:k1 + 1]
    f0, f1, f2 = (sum(a * b ** q for a, b in zip(w, t)) for q in range(3))
    det = f2 * f0 - f1 ** 2
    if det == 0:
        return 0.0, E.const(F(0)), E.const(F(0))
    c = [(f0 * b - f1) * a / det for a, b in zip(w, t)]
    slope = 0.0
    for k in range(len(c)):
        slope = slope + E.const(c[k]) * r[k0 + k]
    vr = sum(a * a / n for a, n in zip(c, tm.n[k0:k1 + 1]))
    vp = F(0)
    for i in range(len(c)):
        for j in range(len(c)):
            vp += c[i] * c[j] * (tm.tau[k0 + i] if i == j else min(t[i], t[j]))
    return slope, E.const(vr) * noise * noise, E.const(vp)


def segments(flags):
    """(first, last) of every run of unflagged resultants"""
    out, start = [], None
    for k, f in enumerate(list(flags) + [1]):
        if not f and start is None:
            start = k
        elif f and start is not None:
            out.append((start, k - 1))
            start = None
    return out


def combine(E, fits):
    """average of the ramps of a pixel, weighted by read noise"""
    np = E.np
    fits = [f for f in fits if f is not None]
    tot, s, vr, vp = 0.0, 0.0, 0.0, 0.0
    for slope, v, q in fits:
        w = np.where(v == 0, 0.0, 1 / np.where(v == 0, 1.0, v))
        tot = tot + w
        s, vr, vp = s + w * slope, vr + w * w * v, vp + w * w * q
    if len(fits):
        one = np.where(tot == 0, 1.0, tot)
        s, vr, vp = s / one, vr / (one * one), vp / (one * one)
    return s, vr, vp * np.where(s > 0, s, 0.0)
