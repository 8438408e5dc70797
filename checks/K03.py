"""Jump decisions of the likelihood fit."""
from symx.harness import Case

from .K02 import setup

BOUNDS = "3 to 5 differences of 1 or 2 pixels; any improvements of chi square, thresholds and unusable differences within the bounds, up to 2 rounds of rejection"
ASSUMPTIONS = ["the fit itself is a stand-in that returns any rates and chi squares (K02 is about the fit)", "thresholds are positive and the improvements of different choices differ"]


class Result:
    pass


def harness(E, counts, masks, npix=1, rounds=2):
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    times, cov = setup(E, counts)
    nd = len(counts) - 1
    t1 = E.real("threshold_one", lo=1, hi=50)
    t2 = E.real("threshold_two", lo=1, hi=60)
    d = E.floats("diffs", (nd, npix), "f8", lo=-100, hi=100)
    gain = np.array([1.5, 2.0][:npix])
    rn = np.array([4.0, 8.0][:npix])
    ms = [E.pick(f"mask{p}", masks) for p in range(npix)]
    use = np.array([[m[k] for m in ms] for k in range(nd)], dtype=np.uint8)
    calls = []
    state = {"live": list(range(npix)), "use": [[bool(v) for v in m] for m in ms], "rate": [None] * npix}

    def fit(diffs, covar, g, r, count_rate_guess=None, diffs2use=None, detect_jumps=False, **k):
        """checks what is asked for, returns anything"""
        j = len(calls)
        live = state["live"]
        if diffs.shape[1] == 0:           # nothing left to look at
            E.claim("no pixel left out", not live)
            e = Result()
            e.chisq = e.countrate = np.zeros(0)
            e.chisq_one_omit = e.countrate_one_omit = np.zeros((nd, 0))
            e.chisq_two_omit = e.countrate_two_omit = np.zeros((nd - 1, 0))
            return e
        calls.append(j)
        E.claim("asked for the pixels still changing, with jumps", diffs.shape == (nd, len(live)) and detect_jumps is True and covar is cov)
        E.same("their differences", diffs, d[:, live], exact=True)
        E.same("their usable differences", diffs2use, np.array([[int(state["use"][p][q]) for p in live] for q in range(nd)], dtype=np.uint8), exact=True)
        E.same("their gain", g, gain[live], exact=True)
        E.same("their read noise", r, rn[live], exact=True)
        med = np.median(d[:, live], axis=0)
        E.same("guess: the median difference, not negative", np.ravel(count_rate_guess), np.where(med > 0, med, 0.0))
        res = Result()
        n = len(live)
        E.assume(j < rounds)
        res.chisq = E.floats(f"chisq{j}", (n,), "f8", lo=0, hi=500)
        res.countrate = E.floats(f"rate{j}", (n,), "f8", lo=-100, hi=100)
        one = E.floats(f"gain_one{j}", (nd, n), "f8", lo=0, hi=300)
        two = E.floats(f"gain_two{j}", (nd - 1, n), "f8", lo=0, hi=300)
        res.countrate_one_omit = E.floats(f"rate_one{j}", (nd, n), "f8", lo=-100, hi=100)
        res.countrate_two_omit = E.floats(f"rate_two{j}", (nd - 1, n), "f8", lo=-100, hi=100)
        ok = np.array([[state["use"][p][q] for p in live] for q in range(nd)])
        one = np.where(ok, one, 0.0)                   # nothing changes without a difference not used anyway
        both = np.where(ok[1:] & ok[:-1], two, np.where(ok[1:], one[1:], one[:-1]))
        both = np.where(ok[1:] | ok[:-1], both, 0.0)
        # what is known of a step, per pixel
        for i in range(n):
            for a in range(nd):
                for b in range(a):
                    E.assume(~(ok[a, i] & ok[b, i]) | (np.abs(one[a, i] - one[b, i]) > 0.01))
            for a in range(nd - 1):
                for b in range(a):
                    E.assume((np.abs(both[a, i] - both[b, i]) > 0.01) | ~((ok[a, i] | ok[a + 1, i]) & (ok[b, i] | ok[b + 1, i])) | (both[a, i] < t2))
        res.chisq_one_omit = res.chisq - one
        res.chisq_two_omit = res.chisq - both
        step(res, one, both, live)
        return res

    def step(res, one, two, live):
        nxt = []
        for i, p in enumerate(live):
            state["rate"][p] = res.countrate[i] if state["rate"][p] is None else state["rate"][p]
            pairs = [k for k in range(nd - 1) if len(times[k + 1]) > 1]       # pairs around a resultant of several reads
            b1, i1 = best(one[:, i], range(nd))
            b2, i2 = best(two[:, i], pairs)
            if bool(b1 - t1 > b2 - t2):
                if not bool(b1 > t1):
                    continue
                state["use"][p][i1] = False
                state["rate"][p] = res.countrate_one_omit[i1, i]
            else:
                if not bool(b2 > t2):
                    continue
                state["use"][p][i2] = state["use"][p][i2 + 1] = False
                state["rate"][p] = res.countrate_two_omit[i2, i]
            if sum(state["use"][p]) > 3:
                nxt.append(p)
            E.cover("a jump", True)
        state["live"] = nxt

    def best(v, ks):
        m, at = 0.0, None
        for k in ks:
            if at is None or bool(v[k] > m):
                m, at = v[k], k
        return m, at

    saved = L.fit_ramps
    L.fit_ramps = fit
    try:
        out, rate = L.mask_jumps(d, cov, rn, gain, threshold_one_omit=t1, threshold_two_omit=t2, diffs2use=use)
    finally:
        L.fit_ramps = saved
    E.claim("fitted at least once", len(calls) >= 1)
    E.same("differences left", out, np.array([[int(state["use"][p][q]) for p in range(npix)] for q in range(nd)], dtype=np.uint8), exact=True)
    E.same("rate of the best choice", rate, E.arr(state["rate"]))


ALL = lambda n: [[1] * n]
CASES = [
    Case("three-single", harness, counts=(1, 1, 1, 1), masks=ALL(3) + [[0, 1, 1]]),
    Case("three-pairs", harness, counts=(2, 2, 2, 2), masks=ALL(3)),
    Case("four-single", harness, counts=(1,) * 5, masks=ALL(4)),
    Case("four-mixed", harness, counts=(1, 2, 1, 3, 1), masks=ALL(4) + [[1, 0, 1, 1]]),
    Case("five-single", harness, counts=(1,) * 6, masks=ALL(5)),
    Case("five-one-pair", harness, counts=(1, 1, 2, 1, 1, 1), masks=ALL(5)),
    Case("five-mixed", harness, counts=(1, 2, 1, 1, 2, 1), masks=ALL(5), tier="thorough"),
    Case("two-pixels", harness, counts=(1, 2, 1, 1), masks=[[1, 1, 1]], npix=2),
    Case("two-pixels-4", harness, counts=(1, 1, 1, 1, 1), masks=[[1, 1, 1, 1]], npix=2, tier="thorough"),
]
