"""Covariance of the differences in the likelihood fit follows the read times."""
import types

from symx.harness import Case

BOUNDS = "2 to 5 resultants of 1 to 4 reads; any increasing read times; any frame time for evenly spaced reads"
ASSUMPTIONS = ["read times increase"]


def mins(np, E, a, b):
    """mean of the smaller of every pair of times, for two resultants with ordered times"""
    s = 0.0
    for x in a:
        for y in b:
            s = s + np.where(x < y, x, y)
    return s / (len(a) * len(b))


def harness(E, counts, scalar=False, even=None):
    np = E.np
    C = E.mod("stcal.ramp_fitting.likely_algo_classes").Covar
    n = sum(counts)
    if even:
        L = E.mod("stcal.ramp_fitting.likely_fit")
        nframes, gap = even
        ft = E.real("frame_time", lo=0.5, hi=20)
        rd = types.SimpleNamespace(read_pattern=None, nframes=nframes, groupgap=gap, frame_time=ft, data=np.zeros((1, len(counts), 1, 1)))
        got = L.get_readtimes(rd)
        times = [[(k * (nframes + gap) + 1 + i) * ft for i in range(nframes)] for k in range(len(counts))]
        E.claim("as many resultants as groups", len(got) == len(times))
        for g, w in zip(got, times):
            E.same("reads are a frame time apart, gaps skipped", g, E.arr(w))
    else:
        if scalar:       # numbers without a length, as single read times come
            step = E.pick("step", ([1.5, 0.5, 2.25, 1.0, 3.0, 0.75, 1.0, 4.0], [1.0] * 8, [8.0, 0.25, 0.5, 5.0, 1.0, 1.0, 2.0, 3.0]))
        else:
            step = E.floats("step", (n,), "f8", lo=0.25, hi=8)
        t, times, k = 0.0, [], 0
        for c in counts:
            r = []
            for _ in range(c):
                t = t + step[k]
                r.append(t)
                k += 1
            times.append(r)
        got = [r[0] if scalar and len(r) == 1 else E.arr(r) for r in times]
    cov = C(got)
    mean = [sum(r[1:], r[0]) / len(r) for r in times]
    m = len(times)
    E.same("time between the resultants", cov.delta_t, E.arr([mean[k + 1] - mean[k] for k in range(m - 1)]))
    E.claim("number of reads", [int(v) for v in cov.Nreads] == [len(r) for r in times])
    sh = {(i, j): mins(np, E, times[i], times[j]) for i in range(m) for j in range(max(0, i - 2), min(m, i + 3))}
    for k in range(m - 1):
        dt = mean[k + 1] - mean[k]
        v = sh[k + 1, k + 1] + sh[k, k] - 2 * sh[k, k + 1]
        E.same("photon noise of a difference", cov.alpha_phnoise[k] * dt ** 2, v)
        E.same("read noise of a difference", cov.alpha_readnoise[k] * dt ** 2, 1 / len(times[k]) + 1 / len(times[k + 1]))
        if k + 2 < m:
            du = mean[k + 2] - mean[k + 1]
            v = sh[k + 1, k + 2] - sh[k + 1, k + 1] - sh[k, k + 2] + sh[k, k + 1]
            E.same("photon noise shared with the next difference", cov.beta_phnoise[k] * (dt * du), v)
            E.same("read noise shared with the next difference", cov.beta_readnoise[k] * (dt * du), -1 / len(times[k + 1]))
    E.claim("one shared term per pair of neighbours", cov.beta_phnoise.shape == (m - 2,) and cov.alpha_phnoise.shape == (m - 1,))


CASES = [
    Case("single-reads", harness, counts=(1, 1, 1, 1)),
    Case("scalar-times", harness, counts=(1, 1, 1), scalar=True),
    Case("pairs", harness, counts=(2, 2, 2)),
    Case("mixed", harness, counts=(1, 3, 2)),
    Case("mixed-scalar", harness, counts=(2, 1, 4, 1), scalar=True),
    Case("four-reads", harness, counts=(4, 1, 2)),
    Case("even-1", harness, counts=(1, 1, 1, 1), even=(1, 0)),
    Case("even-gap", harness, counts=(1, 1, 1, 1), even=(1, 3)),
    Case("even-4", harness, counts=(4,) * 5, even=(4, 1)),
    Case("even-2", harness, counts=(2,) * 4, even=(2, 0)),
]
