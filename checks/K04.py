"""The likelihood fit of an exposure: differences, flags and combination of the integrations."""
import math

from symx.harness import Case

from .likspec import FLAGS
from .rampspec import META

BOUNDS = "1 or 2 integrations of 4 or 5 groups, 1x2 or 2x1 pixels; any data, flags of the listed words in any group, with and without a frame zero and expansion of large events; any results of the fits"
ASSUMPTIONS = ["the fit of a ramp and its jump decisions are stand-ins that return any values (K02, K03 are about them)"]
DNU, SAT, JUMP = 1, 2, 4


class Result:
    pass


def ramp(E, data, gdq, pdq, dark, zero, meta, pattern):
    r = E.mod("stcal.ramp_fitting.ramp_fit_class").RampData()
    r.set_arrays(data, gdq, pdq, dark, zeroframe=zero)
    r.set_meta(name="NIRCAM", **(META | meta))
    r.algorithm = "LIKELY"
    r.set_dqflags(FLAGS)
    r.start_row, r.num_rows = 0, data.shape[2]
    r.read_pattern = pattern
    return r


def harness(E, shape, words=None, zero=False, pattern=None, meta=None, threshold=None, any_words=False, drop=None, snow=None):
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    ni, ng, ny, nx = shape
    meta = dict(frame_time=2.0, group_time=4.0, groupgap=0, nframes=2) | (meta or {})
    data = E.floats("data", shape, "f4", lo=-100, hi=60000)
    if any_words:
        gdq = E.bits("gdq", shape, "u1")
    else:
        gdq = np.zeros(shape, dtype=np.uint8)
        for i in range(ni):
            for g in range(ng):
                for y in range(ny):
                    for x in range(nx):
                        gdq[i, g, y, x] = E.pick(f"w{i}{g}{y}{x}", words[g % len(words)]) if (y, x) == (0, 0) else 0
    pdq = E.bits("pdq", (ny, nx), "u4")
    dark = E.floats("dark", (ny, nx), "f4", lo=0, hi=2)
    zf = E.floats("zero", (ni, ny, nx), "f4", lo=-100, hi=30000) if zero else None
    gain = np.array([[1.5 + y + x for x in range(nx)] for y in range(ny)])
    rn = np.array([[4.0 + 2 * y + x for x in range(nx)] for y in range(ny)])
    own = [list(p) for p in pattern] if pattern else None
    r = ramp(E, data, gdq, pdq, dark, zf, meta, own)
    if threshold:
        r.rejection_threshold = threshold
    d0, g0, p0 = data.copy(), gdq.copy(), pdq.copy()
    nf = meta["nframes"]
    if pattern:
        times = [list(p) for p in pattern]
    else:
        tot = nf + meta["groupgap"]
        times = [[(k * tot + 1 + q) * meta["frame_time"] for q in range(nf)] for k in range(ng)]
    split = zero and len(times[0]) > 1
    if split:
        times = [times[0][:1], times[0][1:]] + times[1:]
    mean = [sum(t) / len(t) for t in times]
    nd = len(times) - 1
    want_d, keep, drops, rates, fits = {}, {}, {}, {}, {}
    for i in range(ni):
        for y in range(ny):
            for x in range(nx):
                s = [d0[i, g, y, x] for g in range(ng)]
                w = [g0[i, g, y, x] for g in range(ng)]
                if split:
                    s = [zf[i, y, x], (s[0] * nf - zf[i, y, x]) / (nf - 1)] + s[1:]
                    w = w[:1] + w
                want_d[i, y, x] = [(s[k + 1] - s[k]) / (mean[k + 1] - mean[k]) for k in range(nd)]
                keep[i, y, x] = [(w[k] == 0) & (w[k + 1] == 0) for k in range(nd)]
    order = [(i, y) for i in range(ni) for y in range(ny)]
    seen = {"jump": 0, "fit": 0, "snow": 0}
    ngd = ng + (1 if split else 0)
    blob = {}        # jumps from the expansion of large events

    def large(g, jumpflag, satflag, data):
        i = seen["snow"]
        seen["snow"] += 1
        E.claim("every row of the integration has been searched for jumps", seen["jump"] == (i + 1) * ny and seen["fit"] == i * ny)
        E.claim("expansion with these flags and settings", (jumpflag, satflag) == (JUMP, SAT) and data is settings and g.shape == (1, ngd, ny, nx))
        for y in range(ny):
            for x in range(nx):
                for k in range(ngd):
                    w = g0[i, max(k - 1, 0) if split else k, y, x]
                    j = np.asarray(drops.get((i, y, x, k - 1), False), dtype=bool)
                    E.same("expanded from the flags with the jumps found", g[0, k, y, x], np.where(j, w | np.uint8(JUMP), w), exact=True)
                    if k in snow:
                        b = E.bools(f"blob{i}{y}{x}{k}", ())
                        blob[i, y, x, k] = b
                        g[0, k, y, x] = np.where(b, g[0, k, y, x] | np.uint8(JUMP), g[0, k, y, x])
        return g, 3

    class Settings:
        expand_large_events = True
    settings = Settings()
    if snow is None:
        settings = E.pick("settings", (None, Settings, object()) if threshold else (None,))
        if settings is Settings:
            settings.expand_large_events = False

    def mask(diffs, covar, rnoise, g, threshold_one_omit=20.25, threshold_two_omit=23.8, diffs2use=None):
        i, y = order[seen["jump"]]
        seen["jump"] += 1
        E.same("differences of a row per time", diffs, E.arr([[want_d[i, y, x][k] for x in range(nx)] for k in range(nd)]))
        E.same("covariance of these read times", covar.mean_t, E.arr(mean))
        E.claim("reads of these resultants", [int(v) for v in covar.Nreads] == [len(t) for t in times])
        E.same("gain of the row", g, gain[y], exact=True)
        E.same("read noise of the row, per read", rnoise * 1.4142135623730951, rn[y])
        E.same("differences of good groups are used", diffs2use != 0, np.array([[bool(keep[i, y, x][k]) for x in range(nx)] for k in range(nd)]) if not any_words
               else E.arr([[keep[i, y, x][k] for x in range(nx)] for k in range(nd)]), exact=True)
        if threshold:
            E.claim("one difference: the threshold squared", abs(threshold_one_omit - threshold ** 2) < 1e-9)
            # two degrees of freedom: exp(-x/2) is the probability of the one-difference threshold (two-sided)
            want = -2 * math.log(math.erfc(threshold / math.sqrt(2)))
            E.claim("two differences: equally improbable", abs(threshold_two_omit - want) < 1e-6)
        else:
            E.claim("default thresholds", (threshold_one_omit, threshold_two_omit) == (20.25, 23.8))
        use = diffs2use.copy()
        for x in range(nx):
            for k in range(nd):
                if drop is None or k in drop:
                    b = E.bools(f"drop{i}{y}{x}{k}", ())
                    drops[i, y, x, k] = b & keep[i, y, x][k]
                    use[k, x] = np.where(b, 0, use[k, x])
                else:
                    drops[i, y, x, k] = False
        rate = E.floats(f"guess{i}{y}", (nx,), "f8", lo=-50, hi=500)
        rates[i, y] = rate
        return use, rate.copy()

    def fit(diffs, covar, g, rnoise, count_rate_guess=None, diffs2use=None, **k):
        i, y = order[seen["fit"]]
        seen["fit"] += 1
        E.same("differences of a row per time, for the fit", diffs, E.arr([[want_d[i, y, x][k] for x in range(nx)] for k in range(nd)]))
        E.same("gain of the row, for the fit", g, gain[y], exact=True)
        E.same("read noise of the row, for the fit", rnoise * 1.4142135623730951, rn[y])
        E.same("differences without jumps are used", diffs2use != 0,
               E.arr([[keep[i, y, x][k] & ~np.asarray(drops[i, y, x, k], dtype=bool) & ~np.asarray(blob.get((i, y, x, k + 1), False), dtype=bool)
                       for x in range(nx)] for k in range(nd)]), exact=True)
        E.same("guess: the rate found, if positive, plus dark current", count_rate_guess, np.where(rates[i, y] > 0, rates[i, y], 0.0) + dark[y])
        o = Result()
        for n, lo in (("countrate", -50), ("uncert", 0), ("var_poisson", 0), ("var_rnoise", 0.5), ("chisq", 0)):
            if ni > 1:        # the combination is checked on its own
                setattr(o, n, np.array([1.0 + lo / 8 + 2 * i + y + 4 * x for x in range(nx)], dtype=np.float32))
            else:
                setattr(o, n, E.floats(f"{n}{i}{y}", (nx,), "f4", lo=lo, hi=500))
            fits[i, y, n] = getattr(o, n).copy()
        return o

    saved = L.mask_jumps, L.fit_ramps, L.flag_large_events
    L.mask_jumps, L.fit_ramps, L.flag_large_events = mask, fit, large
    try:
        image, integ, opt = L.likely_ramp_fit(r, rn, gain, settings) if settings is not None else L.likely_ramp_fit(r, rn, gain)
    finally:
        L.mask_jumps, L.fit_ramps, L.flag_large_events = saved
    E.claim("every row of every integration is fitted once, large events expanded if asked for", seen == {"jump": len(order), "fit": len(order), "snow": ni if snow else 0})
    E.same("data stay as they were", r.data, d0, exact=True)
    E.claim("read times stay as they were", not pattern or own == [list(p) for p in pattern])
    dq = {}
    for i in range(ni):
        for y in range(ny):
            for x in range(nx):
                w = [g0[i, g, y, x] for g in range(ng)]
                jumps = [drops[i, y, x, k] for k in range(nd)]
                if split:
                    late = [np.asarray(j, dtype=bool) for j in jumps]     # difference k ends in group k
                else:
                    late = [np.asarray(False)] + [np.asarray(j, dtype=bool) for j in jumps]
                if snow:
                    off = 1 if split else 0
                    late = [j | np.asarray(blob.get((i, y, x, k + off), False), dtype=bool) for k, j in enumerate(late)]
                new = [np.where(j, v | np.uint8(JUMP), v) for j, v in zip(late, w)]
                for g in range(ng):
                    E.same("a jump is flagged in the group it ends in, other flags stay", r.groupdq[i, g, y, x], new[g], exact=True)
                if split:
                    first = np.where(np.asarray(blob.get((i, y, x, 0), False), dtype=bool), w[0] | np.uint8(JUMP), w[0]) if snow else w[0]
                    new = [first] + new
                gone, sat, jump = True, False, False
                for v in new:
                    gone = gone & (v & (SAT | DNU) != 0)
                    sat = sat | (v & SAT != 0)
                    jump = jump | (v & JUMP != 0)
                f = p0[y, x]
                f = np.where(gone, f | DNU, f)
                f = np.where(sat, f | SAT, f)
                f = np.where(jump, f | JUMP, f)
                dq[i, y, x] = f
                E.same("pixel flags of the integration", integ["dq"][i, y, x], f, exact=True)
        for y in range(ny):
            for key, n in (("slope", "countrate"), ("err", "uncert"), ("var_poisson", "var_poisson"), ("var_rnoise", "var_rnoise"), ("chisq", "chisq")):
                E.same("results of the integration", integ[key][i, y], fits[i, y, n])
    if ni == 1:
        for key in ("slope", "err", "var_poisson", "var_rnoise", "chisq", "dq"):
            E.same("one integration is the image", image[key], integ[key][0], exact=True)
        return
    for y in range(ny):
        for x in range(nx):
            f, alld = 0, True
            for i in range(ni):
                f = f | dq[i, y, x]
                alld = alld & (dq[i, y, x] & DNU != 0)
            f = np.where(alld, f | DNU, f & ~np.uint32(DNU))
            E.same("image flags: any integration's, do-not-use only if all are", image["dq"][y, x], f, exact=True)


def combine(E, ni, free, missing=False):
    """the image of several integrations"""
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    I = E.mod("stcal.ramp_fitting.likely_algo_classes").IntegInfo
    it = I(ni, 1, 1)
    kind = [E.pick(f"kind{i}", ("missing", "plus", "minus", "zero") if missing else ("plus", "minus", "zero")) for i in range(ni)]
    size = E.floats("rate", (ni,), "f8", lo=0.25, hi=200) if free == "rates" else np.array([2.0, 5.0, 1.0][:ni])
    rate = E.arr([{"missing": 1.0, "plus": 1.0, "minus": -1.0, "zero": 0.0}[k] * size[i] for i, k in enumerate(kind)])
    vp = E.arr([E.real("var_p", lo=0, hi=50), 2.0, 5.0][:ni]) if free == "photon" else E.floats("var_p", (ni,), "f8", lo=0, hi=50, nan=False) if free == "photons" else np.array([3.0, 0.0, 5.0][:ni])
    vr = E.floats("var_r", (ni,), "f8", lo=0.5, hi=50, nan=False) if free == "read" else np.array([0.5, 2.0, 8.0][:ni])
    chi = E.floats("chisq", (ni,), "f8", lo=0, hi=50)
    gone = [k == "missing" for k in kind]
    for n, v in (("data", rate), ("var_poisson", vp), ("var_rnoise", vr), ("chisq", chi)):
        setattr(it, n, np.reshape(np.where(np.array(gone) & (n != "chisq"), np.nan, v), (ni, 1, 1)))
    r = E.mod("stcal.ramp_fitting.ramp_fit_class").RampData()
    r.set_dqflags(FLAGS)
    o = L.compute_image_info(it, r)
    ks = [i for i in range(ni) if not gone[i]]
    if not ks:
        E.claim("missing in all integrations: missing in the image", np.isnan(o["slope"][0, 0]) & np.isnan(o["var_poisson"][0, 0]) & np.isnan(o["var_rnoise"][0, 0]))
        return

    def add(v):
        v = np.stack(list(v))
        return np.where(np.all(np.isnan(v)), np.nan, np.nansum(v))
    s = np.median(np.stack([rate[i] for i in ks]))
    for _ in range(2):
        w, p = {}, {}
        for i in ks:
            f = s / rate[i]
            f = np.where(np.isfinite(f) & (f >= 0), f, 0.0)
            p[i] = vp[i] * f
            w[i] = 1 / (p[i] + vr[i])
        tot = add(w.values())
        w = {i: w[i] / tot for i in ks}
        s = add(rate[i] * w[i] for i in ks)
    E.same("weighted mean, each variance as expected for the common rate", o["slope"][0, 0], s)
    q = add(p[i] * w[i] ** 2 for i in ks)
    u = add(vr[i] * w[i] ** 2 for i in ks)
    E.same("photon noise of the mean", o["var_poisson"][0, 0], q)
    E.same("read noise of the mean", o["var_rnoise"][0, 0], u)
    E.same("error", o["err"][0, 0], np.sqrt(o["var_poisson"][0, 0] + o["var_rnoise"][0, 0]))
    t = 0.0
    for i in range(ni):
        t = t + chi[i]
    E.same("chi squares add", o["chisq"][0, 0], t)


def short(E):
    np = E.np
    L = E.mod("stcal.ramp_fitting.likely_fit")
    g = E.integer("groups", 1, 3)
    g = int(g)
    r = ramp(E, np.zeros((1, g, 1, 1), dtype=np.float32), np.zeros((1, g, 1, 1), dtype=np.uint8), np.zeros((1, 1), dtype=np.uint32), np.zeros((1, 1), dtype=np.float32), None, {}, None)
    try:
        L.likely_ramp_fit(r, np.ones((1, 1)), np.ones((1, 1)))
        E.claim("fewer than four groups are refused", False)
    except ValueError:
        E.claim("fewer than four groups are refused", True)


W = [(0, SAT), (0, DNU), (0, SAT | DNU, 16), (0, JUMP)]
CASES = [
    Case("any-words", harness, shape=(1, 4, 1, 1), any_words=True, drop=()),
    Case("any-words-jumps", harness, shape=(1, 4, 1, 1), any_words=True),
    Case("any-words-2", harness, shape=(2, 4, 1, 1), any_words=True, drop=(1,)),
    Case("columns", harness, shape=(1, 4, 1, 2), words=W, meta=dict(groupgap=3, nframes=1)),
    Case("rows", harness, shape=(1, 4, 2, 1), words=[(0,), (0, SAT)], threshold=4.5),
    Case("zero", harness, shape=(1, 4, 1, 1), words=W, zero=True, threshold=3.0),
    Case("zero-2", harness, shape=(2, 4, 1, 1), words=[(0, SAT), (0,)], zero=True, meta=dict(nframes=4, groupgap=1), drop=(0, 1)),
    Case("zero-ignored", harness, shape=(1, 4, 1, 1), words=[(0,), (0, DNU)], zero=True, meta=dict(nframes=1), drop=(0,)),
    Case("pattern", harness, shape=(1, 5, 1, 1), words=[(0,), (0, SAT)], pattern=[[2.0], [4.0, 6.0], [8.0, 10.0, 12.0], [16.0], [20.0, 30.0]], drop=(0, 3)),
    Case("pattern-zero", harness, shape=(2, 4, 1, 1), words=[(0,)], pattern=[[2.0, 4.0], [6.0, 8.0], [10.0, 12.0, 14.0], [16.0]], zero=True, drop=(1,)),
    Case("snowballs", harness, shape=(1, 4, 1, 2), words=W, drop=(1,), snow=(0, 2)),
    Case("snowballs-2", harness, shape=(2, 4, 1, 1), words=[(0,)], drop=(0,), snow=(1, 3)),
    Case("snowballs-zero", harness, shape=(1, 4, 1, 1), words=[(0,)], zero=True, drop=(0, 2), snow=(0, 1, 3)),
    Case("combine-2-rates", combine, ni=2, free="rates", missing=True, tier="thorough"),
    Case("combine-2-photon", combine, ni=2, free="photon", missing=True),
    Case("combine-2-read", combine, ni=2, free="read", missing=True),
    Case("short", short),
]
