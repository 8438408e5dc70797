"""Ramp fitting of an exposure: what is given to the fit, and by which algorithm."""
import types

from symx.harness import Case

from .rampspec import CHG, DNU, DQ, PERS

BOUNDS = "1 or 2 integrations of 1 to 5 groups of 1x2 or 2x1 pixels; any data, pixel flags, read noise and gain, any flag word in the listed groups"
ASSUMPTIONS = ["the fits themselves are stand-ins that return their result (they are decided by R01 to R10 and K02 to K04)"]


class Model:
    def __init__(self, **k):
        self.__dict__.update(k)

    def hasattr(self, name):
        return name in self.__dict__


def good(w):
    return w & (0xFF & ~PERS) == 0


def harness(E, shape, algorithm, groups=(), suppress=False, dark=False, zero=False, entry="model", extra=None, times=None, words=None):
    np = E.np
    F = E.mod("stcal.ramp_fitting.ramp_fit")
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-100, hi=60000)
    gdq = np.zeros(shape, dtype=np.uint8)
    for g in range(ng):
        if g in groups:
            for i in range(ni):
                if words:
                    for y in range(ny):
                        for x in range(nx):
                            gdq[i, g, y, x] = E.pick(f"w{i}{g}{y}{x}", words) if (i, y, x) == (0, 0, 0) else words[(i + g + y + x) % len(words)]
                else:
                    gdq[i, g] = E.bits(f"w{i}{g}", (ny, nx), "u1")
    pdq = E.bits("pdq", (ny, nx), "u4")
    rn = E.floats("rn", (ny, nx), "f8", lo=0.5, hi=50)
    gain = E.floats("gain", (ny, nx), "f8", lo=0.5, hi=8)
    nframes = E.pick("nframes", (1, 2, 8))
    exposure = types.SimpleNamespace(frame_time=2.5, group_time=10.0, groupgap=1, nframes=nframes, **(extra or {}))
    if times is not None:
        exposure.read_times = times
    m = Model(data=data, groupdq=gdq, pixeldq=pdq, meta=types.SimpleNamespace(instrument=types.SimpleNamespace(name="NIRISS"), exposure=exposure))
    if dark:
        m.average_dark_current = E.floats("dark", (ny, nx), "f4", lo=0, hi=2)
    if zero:
        m.zeroframe = E.floats("zero", (ni, ny, nx), "f4", lo=0, hi=1000)
    d0, g0, p0, rn0, gain0 = data.copy(), gdq.copy(), pdq.copy(), rn.copy(), gain.copy()
    note = {}

    def ols(r, save_opt, readnoise, g, weighting, max_cores):
        note["ols"] = (r, save_opt, readnoise, g, weighting, max_cores)
        return "image", "integ", "opt"

    def likely(r, readnoise, g, *a):
        note["likely"] = (r, readnoise, g)
        return "limage", "linteg", None

    old = F.ols_fit.ols_ramp_fit_multi, F.likely_fit.likely_ramp_fit
    F.ols_fit.ols_ramp_fit_multi, F.likely_fit.likely_ramp_fit = ols, likely
    try:
        got = F.ramp_fit(m, "saved", rn, gain, algorithm, "optimal", "half", DQ, **({"suppress_one_group": True} if suppress else {}))
    finally:
        F.ols_fit.ols_ramp_fit_multi, F.likely_fit.likely_ramp_fit = old
    use = algorithm.upper() == "LIKELY" and ng >= 4
    E.claim("the likelihood fit with four groups or more, else least squares", sorted(note) == (["likely"] if use else ["ols"]))
    E.claim("the results of the fit", got == (("limage", "linteg", None) if use else ("image", "integ", "opt")))
    if use:
        r, noise, g = note["likely"]
        E.same("read noise as it is given", noise, rn0, exact=True)
    else:
        r, save, noise, g, weighting, cores = note["ols"]
        E.claim("options passed on", (save, weighting, cores) == ("saved", "optimal", "half"))
        E.same("read noise of a difference of groups, in electrons", noise, rn0 * gain0 / np.sqrt(2.0 * nframes))
    E.same("gain as it is given", g, gain0, exact=True)
    E.same("the samples", r.data, d0, exact=True)
    E.same("the pixel flags", r.pixeldq, p0, exact=True)
    want = g0.copy()
    if suppress and not use and ng > 1:
        for i in range(ni):
            for y in range(ny):
                for x in range(nx):
                    n = 0
                    for k in range(ng):
                        n = n + np.where(good(g0[i, k, y, x]), 1, 0)
                    for k in range(ng):
                        want[i, k, y, x] = np.where(n == 1, g0[i, k, y, x] | np.uint8(DNU), g0[i, k, y, x])
    E.same("group flags: ramps with a single good group have none, if that is asked for", r.groupdq, want, exact=True)
    if dark:
        E.same("dark current of the exposure", r.average_dark_current, m.average_dark_current, exact=True)
    else:
        E.same("no dark current", r.average_dark_current, np.zeros((ny, nx)), exact=True)
    if zero:
        E.same("frame zero", r.zeroframe, m.zeroframe, exact=True)
    else:
        E.claim("no frame zero", r.zeroframe is None)
    if not use:
        lost = (g0 & CHG != 0).any()
        if r.orig_gdq is None:
            E.claim("flags from before are kept with charge loss", ~lost)
        else:
            E.same("flags from before", r.orig_gdq, g0, exact=True)
        E.claim("flag of charge loss", r.flags_chargeloss == CHG)
    E.claim("times", (r.frame_time, r.group_time, r.groupgap, r.nframes, r.instrument_name) == (2.5, 10.0, 1, nframes, "NIRISS"))
    E.claim("dropped frames", r.drop_frames1 == (extra or {}).get("drop_frames1"))
    E.claim("read times", (r.read_pattern is None) if not times else [list(t) for t in r.read_pattern] == times)
    E.claim("flags", (r.flags_do_not_use, r.flags_saturated, r.flags_jump_det, r.flags_persistence, r.flags_no_gain_val, r.flags_unreliable_slope)
            == (DQ["DO_NOT_USE"], DQ["SATURATED"], DQ["JUMP_DET"], DQ["PERSISTENCE"], DQ["NO_GAIN_VALUE"], DQ["UNRELIABLE_SLOPE"]))
    E.claim("all rows", (r.start_row, r.num_rows) == (0, ny))


T5 = [[2.5], [5.0, 7.5], [10.0], [12.5], [15.0]]
SW = (0, 1, 2, 4, 32, 33, 128, 160)
CASES = [
    Case("plain", harness, shape=(1, 3, 1, 2), algorithm="OLS_C", dark=True, zero=True, extra={"drop_frames1": 3}),
    Case("any-words", harness, shape=(1, 2, 1, 2), algorithm="ols_c", groups=(0, 1)),
    Case("charge-loss", harness, shape=(2, 2, 2, 1), algorithm="OLS_C", groups=(1,)),
    Case("suppress", harness, shape=(1, 2, 1, 1), algorithm="OLS_C", groups=(0, 1), suppress=True),
    Case("suppress-two", harness, shape=(1, 2, 2, 1), algorithm="OLS_C", groups=(1,), suppress=True),
    Case("suppress-words", harness, shape=(2, 3, 1, 2), algorithm="OLS_C", groups=(0, 2), suppress=True, words=SW),
    Case("suppress-one-group", harness, shape=(1, 1, 1, 2), algorithm="OLS_C", groups=(0,), suppress=True),
    Case("likely", harness, shape=(1, 4, 1, 2), algorithm="LIKELY", groups=(1,), dark=True, zero=True),
    Case("likely-suppress", harness, shape=(1, 4, 1, 1), algorithm="likely", groups=(0, 2), suppress=True, words=SW),
    Case("likely-times", harness, shape=(1, 5, 1, 1), algorithm="LIKELY", times=T5),
    Case("likely-no-times", harness, shape=(1, 5, 1, 1), algorithm="LIKELY", times=[]),
    Case("likely-short", harness, shape=(1, 3, 1, 2), algorithm="LIKELY"),
    Case("likely-short-suppress", harness, shape=(1, 3, 1, 1), algorithm="LIKELY", groups=(0, 2), suppress=True, words=SW),
    Case("likely-short-charge-loss", harness, shape=(1, 3, 1, 1), algorithm="LIKELY", groups=(1, 2), words=SW),
]
