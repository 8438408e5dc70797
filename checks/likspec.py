"""Reference solution of the likelihood ramp fit: generalised least squares of a line through the used differences, by exact elimination."""
from fractions import Fraction as Fr

FLAGS = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "NO_GAIN_VALUE": 8, "UNRELIABLE_SLOPE": 1 << 24, "CHARGELOSS": 128, "PERSISTENCE": 32}


def covariance(times, rate, gain, rn):
    """covariance of the scaled differences of resultants with the given read times (photon part, read part)"""
    t = [[Fr(x) for x in (r if hasattr(r, "__len__") else [r])] for r in times]
    n = len(t)
    mean = [sum(r) / len(r) for r in t]

    def shared(i, j):
        return sum(min(a, b) for a in t[i] for b in t[j]) / (len(t[i]) * len(t[j]))
    dt = [mean[k + 1] - mean[k] for k in range(n - 1)]
    ph = [[Fr(0)] * (n - 1) for _ in range(n - 1)]
    rd = [[Fr(0)] * (n - 1) for _ in range(n - 1)]
    for a in range(n - 1):
        for b in range(n - 1):
            c = shared(a + 1, b + 1) - shared(a + 1, b) - shared(a, b + 1) + shared(a, b)
            ph[a][b] = c * Fr(rate) / Fr(gain) / (dt[a] * dt[b])
            own = sum(s * Fr(1, len(t[k])) for k, s in ((a + 1, 1 if b == a else -1 if b == a + 1 else 0), (a, 1 if b == a else -1 if b == a - 1 else 0)))
            rd[a][b] = own * Fr(rn) ** 2 / (dt[a] * dt[b])
    return ph, rd


def inverse(m):
    n = len(m)
    a = [list(r) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = next(k for k in range(i, n) if a[k][i] != 0)
        a[i], a[p] = a[p], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for k in range(n):
            if k != i and a[k][i] != 0:
                a[k] = [v - a[k][i] * w for v, w in zip(a[k], a[i])]
    return [r[n:] for r in a]


class Line:
    """weights and variances of the best constant through the differences `use` (indices); chi square as a quadratic form"""

    def __init__(self, times, rate, gain, rn, use):
        ph, rd = covariance(times, rate, gain, rn)
        self.use = use
        c = [[ph[a][b] + rd[a][b] for b in use] for a in use]
        self.inv = inverse(c)
        self.tot = sum(sum(r) for r in self.inv)
        self.w = [sum(r) / self.tot for r in self.inv]

        def var(m):
            return sum(self.w[i] * self.w[j] * m[a][b] for i, a in enumerate(use) for j, b in enumerate(use))
        self.var_p, self.var_r, self.var = var(ph), var(rd), 1 / self.tot

    def rate(self, E, d):
        s = 0.0
        for w, k in zip(self.w, self.use):
            s = s + E.const(w) * d[k]
        return s

    def chisq(self, E, d):
        """sum of d' V^-1 d minus the squared projection on the constant"""
        s = 0.0
        for i, a in enumerate(self.use):
            for j, b in enumerate(self.use):
                if j >= i:
                    q = self.inv[i][j] - self.w[i] * self.w[j] * self.tot
                    s = s + E.const(q if i == j else 2 * q) * d[a] * d[b]
        return s
