"""The likelihood fit is the generalised least-squares solution over the usable differences."""
from symx.harness import Case

from .likspec import Line

BOUNDS = "3 to 12 differences of 1 or 2 pixels; any differences, the listed sets of unusable ones, read times, noise parameters and rate guesses"
ASSUMPTIONS = ["rate guess, read noise and gain of a pixel are of the listed values (the covariance is then fixed)", "square roots and powers of fixed numbers are libm's"]

PAR = [(0.0, 1.0, 1.0), (25.0, 2.0, 4.0), (400.0, 1.5, 10.0)]          # rate guess, gain, read noise


def setup(E, counts, gap=0):
    t, times = 0, []
    for c in counts:
        r = []
        for _ in range(c):
            t += 2
            r.append(float(t))
        times.append(r)
        t += gap
    C = E.mod("stcal.ramp_fitting.likely_algo_classes").Covar
    return times, C([E.np.array(r) for r in times])


def harness(E, counts, masks, gap=0, npix=1, rescale=True, detect=False):
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    times, cov = setup(E, counts, gap)
    nd = len(counts) - 1
    d = E.floats("diffs", (nd, npix), "f8", lo=-2000, hi=5000)
    ms = [E.pick(f"mask{p}", masks) for p in range(npix)]
    use = np.array([[m[k] for m in ms] for k in range(nd)], dtype=np.uint8)
    par = [E.pick(f"par{p}", PAR) for p in range(npix)]
    guess, gain, rn = (np.array([q[i] for q in par]) for i in range(3))
    d0 = d.copy()
    r = L.fit_ramps(d, cov, gain, rn, count_rate_guess=guess, diffs2use=use, detect_jumps=detect, rescale=rescale)
    E.same("differences stay as they were", d, d0, exact=True)
    for p in range(npix):
        keep = [k for k in range(nd) if ms[p][k]]
        if not keep:
            E.claim("no rate without usable differences", np.isnan(r.countrate[p]))
            continue
        ln = Line(times, *par[p], keep)
        dp = d[:, p]
        E.same("rate", r.countrate[p], ln.rate(E, dp))
        E.same("chi square", r.chisq[p], ln.chisq(E, dp), atol=1e-3)
        E.same("error squared", r.uncert[p] * r.uncert[p], E.const(ln.var))
        E.same("variance due to photon noise", r.var_poisson[p], E.const(ln.var_p))
        E.same("variance due to read noise", r.var_rnoise[p], E.const(ln.var_r))
        if not detect:
            continue
        for k in range(nd):
            left = [j for j in keep if j != k]
            if len(left) < 1:
                continue
            o = Line(times, *par[p], left)
            E.same("without one difference: rate", r.countrate_one_omit[k, p], o.rate(E, dp))
            E.same("without one difference: chi square", r.chisq_one_omit[k, p], o.chisq(E, dp), atol=1e-3)
            E.same("without one difference: error squared", r.uncert_one_omit[k, p] * r.uncert_one_omit[k, p], E.const(o.var))
            left = [j for j in keep if j not in (k, k + 1)]
            if len(left) < 1 or k + 1 >= nd:
                continue
            o = Line(times, *par[p], left)
            E.same("without two neighbouring differences: rate", r.countrate_two_omit[k, p], o.rate(E, dp))
            E.same("without two neighbouring differences: chi square", r.chisq_two_omit[k, p], o.chisq(E, dp), atol=1e-3)
            E.same("without two neighbouring differences: error squared", r.uncert_two_omit[k, p] * r.uncert_two_omit[k, p], E.const(o.var))


def unguessed(E, counts, masks):
    """without a guess the covariance is that of the mean of the usable differences, if positive"""
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    times, cov = setup(E, counts)
    nd = len(counts) - 1
    m = E.pick("mask", masks)
    d = np.array(E.pick("diffs", [[3.0, 5.0, 1000.0, 2.0][:nd], [-3.0, 1.0, -20.0, 0.5][:nd], [4.0, 4.0, 4.0, 4.0][:nd]])).reshape((nd, 1))
    add = E.real("extra", lo=-10, hi=10)
    d = d + E.arr([[0.0], [1.0], [-1.0], [0.0]][:nd]) * add if all(m) else d
    use = np.array([[v] for v in m], dtype=np.uint8)
    g, rn = np.array([2.0]), np.array([4.0])
    r = L.fit_ramps(d, cov, g, rn, diffs2use=use if not all(m) else None)
    mean = sum(d[k, 0] for k in range(nd) if m[k]) / sum(m)
    q = L.fit_ramps(d, cov, g, rn, count_rate_guess=np.where(mean > 0, mean, 0.0).reshape((1,)), diffs2use=use)
    for n in ("countrate", "chisq", "uncert", "var_poisson", "var_rnoise"):
        E.same(f"{n} as with the mean of the usable differences for a guess", getattr(r, n)[0], getattr(q, n)[0])


def all_masks(n, least=1):
    out = []
    for v in range(1 << n):
        m = [v >> k & 1 for k in range(n)]
        if sum(m) >= least:
            out.append(m)
    return out


def some(n, *gone):
    return [[int(k not in g) for k in range(n)] for g in gone]


CASES = [
    Case("three", harness, counts=(1, 1, 1, 1), masks=all_masks(3)),
    Case("three-reads", harness, counts=(4, 4, 4, 4), masks=all_masks(3), gap=2),
    Case("four-mixed", harness, counts=(1, 3, 2, 4, 1), masks=all_masks(4)),
    Case("two-pixels", harness, counts=(2, 1, 3, 1), masks=all_masks(3, 2), npix=2),
    Case("unscaled", harness, counts=(2, 2, 1, 3, 1), masks=some(4, (), (1,), (0, 3)), rescale=False),
    Case("nine", harness, counts=(2,) * 10, masks=some(9, (), (4,), (0, 1, 8))),
    Case("twelve", harness, counts=(1, 2) * 6 + (3,), masks=some(12, (), (5, 6), (11,)), gap=1),
    Case("unguessed", unguessed, counts=(2, 1, 3, 1), masks=all_masks(3)),
    Case("unguessed-4", unguessed, counts=(1, 1, 1, 1, 1), masks=some(4, (), (1, 2))),
    Case("none", harness, counts=(1, 1, 1, 1), masks=[[0, 0, 0], [0, 1, 0]]),
    Case("omit-three", harness, counts=(1, 2, 1, 3), masks=all_masks(3, 2), detect=True),
    Case("omit-four", harness, counts=(2, 4, 1, 1, 2), masks=all_masks(4, 3), detect=True),
    Case("omit-even", harness, counts=(2,) * 5, masks=some(4, ()), detect=True),
    Case("omit-five", harness, counts=(2, 2, 2, 2, 2, 2), masks=some(5, (), (2,), (0,)), detect=True),
]
