"""Reference model of OLS ramp fitting, one pixel at a time, written from the documented algorithm."""
from fractions import Fraction

DNU, SAT, JUMP, PERS, NGV, UNREL, CHG = 1, 2, 4, 32, 8, 1 << 24, 128
DQ = {"GOOD": 0, "DO_NOT_USE": DNU, "SATURATED": SAT, "JUMP_DET": JUMP, "NO_GAIN_VALUE": NGV, "UNRELIABLE_SLOPE": UNREL,
      "CHARGELOSS": CHG, "PERSISTENCE": PERS}
LARGE = 1e6
NATIVE = {"stcal.ramp_fitting.slope_fitter": ("stcal/ramp_fitting/src/slope_fitter.c", ["ols_slope_fitter"])}
META = dict(frame_time=2.0, group_time=8.0, groupgap=1, nframes=3, drop_frames1=None)
KEYS = ("slope", "dq", "var_poisson", "var_rnoise", "err")


def ramp(E, data, gdq, pdq=None, dark=None, zeroframe=None, orig=None, suppress=False, name="NIRCAM", algorithm="OLS_C", meta=None):
    np = E.np
    r = E.mod("stcal.ramp_fitting.ramp_fit_class").RampData()
    ny, nx = data.shape[2:]
    if pdq is None:
        pdq = np.zeros((ny, nx), dtype=np.uint32)
    if dark is None:
        dark = np.zeros((ny, nx), dtype=np.float32)
    r.set_arrays(data, gdq, pdq, dark, orig_gdq=orig, zeroframe=zeroframe)
    r.set_meta(name=name, **(META | (meta or {})))
    r.algorithm = algorithm
    r.set_dqflags(DQ)
    r.start_row, r.num_rows = 0, ny
    r.suppress_one_group_ramps = suppress
    return r


def fit(E, r, rn, gain, opt=False, cores="none"):
    """rn: noise of a group difference in electrons as the fit uses it; the code rescales the read noise it is given"""
    return E.mod("stcal.ramp_fitting.ols_fit").ols_ramp_fit_multi(r, opt, rn, gain, "optimal", cores)


def good(w):
    return w & 0xFF & ~PERS == 0


def segments(words):
    """(start, end) of the runs of good groups; a run after a jump begins at the jump"""
    n = len(words)
    segs, k = [], 0
    while k < n:
        if not good(words[k]):
            k += 1
            continue
        e = k
        while e < n and good(words[e]):
            e += 1
        s = k - 1 if k > 0 and words[k - 1] & ~PERS == JUMP else k
        segs.append((s, e))
        k = e
    if any(e - s > 1 for s, e in segs):
        return [(s, e) for s, e in segs if e - s > 1]
    return segs[:1]


class Timing:
    def __init__(self, meta=None):
        m = META | (meta or {})
        self.group, self.frame = m["group_time"], m["frame_time"]
        self.one = (m["nframes"] + 1.0) * m["frame_time"] / 2.0
        drop = m["drop_frames1"] or 0
        self.ped = Fraction(m["nframes"] + 1 + 2 * drop, 2 * (m["nframes"] + m["groupgap"]))


def kind(words, zframe, suppress):
    """(how the integration is used: normal | first group only | frame zero)"""
    if suppress:
        return "normal"
    n = sum(w == 0 for w in words)
    if n == 1 and words[0] == 0:
        return "0th"
    if n == 0 and zframe:
        return "zframe"
    return "normal"


def median_rate(E, ints, t):
    """ints: (data, words, kind) per integration"""
    np = E.np
    total = 0.0
    for d, w, how in ints:
        n = len(w)
        if n == 1:
            if not w[0] & (DNU | SAT):
                total = total + d[0] / (t.frame if how == "zframe" else t.one)
            continue
        if how == "0th":
            total = total + d[0] / t.one
            continue
        if how == "zframe":
            total = total + d[0] / t.frame
            continue
        bad = [bool(x & (DNU | SAT)) for x in w]
        diffs = [d[k + 1] / t.group - d[k] / t.group for k in range(n - 1) if not bad[k] and not bad[k + 1] and not w[k + 1] & JUMP]
        if diffs:
            total = total + np.median(E.arr(diffs, dtype="f8"))
        elif not bad[0]:
            total = total + d[0] / t.group
    return total / float(len(ints))


def power_of(snr):
    for lim, p in ((5, 0), (10, 0.4), (20, 1), (50, 3), (100, 6)):
        if bool(snr < lim):
            return p
    return 10


def weight(k, n, p):
    w = Fraction(abs(2 * k - (n - 1)), n - 1)
    if p == 0:
        return Fraction(1)
    return w**p if isinstance(p, int) else Fraction(float(w) ** p)


class Seg:
    pass


def fit_segment(E, d, s, e, rn, gain, var0, t, timing):
    """slope and variances of groups s..e-1; var0: max(median rate, 0) + dark current"""
    np = E.np
    n = e - s
    g = Seg()
    g.len, g.start = n, s
    if n == 1:
        g.slope = d[s] / timing
        g.var_p = var0 / (timing * gain)
        q = rn / timing
        g.var_r = 12.0 * q * q / (6.0 * gain * gain)
        g.sigslope = g.yint = g.sigyint = None
    elif n == 2:
        g.slope = (d[s + 1] - d[s]) / t.group
        g.var_p = var0 / (t.group * gain)
        q = rn / t.group
        g.var_r = 12.0 * q * q / (6.0 * gain * gain)
        g.sigslope = g.sigyint = 1.41421356 * rn
        g.yint = d[s + 1] * (1.0 - (s + 1.0)) + d[s] * (s + 1.0)
    else:
        delta = d[e - 1] - d[s]
        den = rn * rn + delta * gain
        if bool(den <= 0.0):
            p = 0
        else:
            p = power_of(delta * gain / np.sqrt(den))
        g.power = p
        wts = [weight(k, n, p) for k in range(n)]
        sw = sum(wts)
        sx = sum((k + s) * w for k, w in enumerate(wts))
        sxx = sum((k + s) ** 2 * w for k, w in enumerate(wts))
        D = sw * sxx - sx * sx
        c = E.const
        sy, sxy = 0.0, 0.0
        for k, w in enumerate(wts):
            sy = sy + d[s + k] * c(w)
            sxy = sxy + d[s + k] * c(w * (k + s))
        g.slope = (sxy * c(sw / D) - sy * c(sx / D)) / t.group
        g.yint = sy * c(sxx / D) - sxy * c(sx / D)
        g.sigslope = np.sqrt(c(sw / D)) * rn
        g.sigyint = np.sqrt(c(sxx / D)) * rn
        g.var_p = var0 / (t.group * gain * (n - 1.0))
        q = rn / t.group
        g.var_r = 12.0 * q * q / (float(n**3 - n) * gain * gain)
    g.var_e = g.var_p + g.var_r
    return g


class Res:
    pass


def unlarge(E, v):
    return E.ite(v >= LARGE, 0.0, v)


def fit_pixel(E, data, words, pdq, rn, gain, dark, zframe=None, suppress=False, meta=None, allow_dq=True):
    """data[i][g], words[i][g] (Python ints), zframe[i] or None (a value that is not zero)"""
    np = E.np
    t = Timing(meta)
    ni, ng = len(data), len(data[0])
    ints = []
    for i in range(ni):
        z = zframe[i] if zframe is not None else None
        how = kind(words[i], z is not None, suppress)
        d, w = list(data[i]), list(words[i])
        if how == "zframe":
            d[0], w[0] = z, 0
        ints.append((d, w, how))
    out = Res()
    out.median = med = median_rate(E, ints, t)
    rate0 = E.ite(med > 0.0, med, 0.0)
    out.ints = []
    out.dq = pdq
    for w in words:
        for x in w:
            out.dq = out.dq | (x & (JUMP | PERS))
    inv_r_sum, inv_p_sum, num_sum = 0.0, 0.0, 0.0
    any_r, any_sat = False, False
    n_dnu = n_sat = 0
    for i, (d, w, how) in enumerate(ints):
        o = Res()
        o.segs = []
        o.dq = pdq
        for x in words[i]:
            o.dq = o.dq | (x & (JUMP | PERS))
        nsat = sum(bool(x & SAT) for x in w)
        nbad = sum(bool(x & (DNU | SAT)) for x in w)
        o.var_p = o.var_r = o.err = 0.0
        o.slope = 0.0
        if w[0] & SAT:
            o.dq = o.dq | DNU | SAT
            o.slope = float("nan")
        else:
            o.segs = [s for s in segments(w)]
        if nbad == ng:
            o.dq = o.dq | DNU
            if nsat == ng:
                o.dq = o.dq | SAT
            o.segs = []
        timing = {"normal": t.group, "0th": t.one, "zframe": t.frame}[how]
        o.segs = [fit_segment(E, d, s, e, rn, gain, rate0 + dark, t, timing) for s, e in o.segs]
        if o.segs:
            inv_r = sum(1.0 / g.var_r for g in o.segs)
            inv_e = sum(1.0 / g.var_e for g in o.segs)
            inv_p = 0.0
            for g in o.segs:
                inv_p = inv_p + E.ite(g.var_p > 0.0, 1.0 / g.var_p, 0.0)
            o.var_p = unlarge(E, E.ite(inv_p > 0.0, 1.0 / inv_p, 0.0))
            o.var_r = unlarge(E, 1.0 / inv_r)
            o.slope = sum(g.slope / g.var_r for g in o.segs) * o.var_r
            o.err = E.ite(1.0 / inv_e > LARGE, 0.0, np.sqrt(1.0 / inv_e))
            inv_r_sum, inv_p_sum, num_sum, any_r = inv_r_sum + inv_r, inv_p_sum + inv_p, num_sum + sum(g.slope / g.var_r for g in o.segs), True
        if bool((o.dq & (DNU | SAT)) != 0):
            o.slope = float("nan")
            o.var_p = o.var_r = o.err = 0.0
        n_dnu += bool((o.dq & DNU) != 0)
        n_sat += bool((o.dq & SAT) != 0)
        o.ped_sat = bool((o.dq & SAT) != 0)
        o.first = d[0]
        if nsat:
            o.dq = o.dq | SAT
            any_sat = True
        out.ints.append(o)
    if n_dnu == ni:
        out.dq = out.dq | DNU
    if n_sat == ni:
        out.dq = out.dq | SAT
    out.var_p = E.ite(inv_p_sum > 0.0, 1.0 / inv_p_sum, 0.0) if any_r else 0.0
    out.var_p = unlarge(E, out.var_p)
    out.var_r = unlarge(E, 1.0 / inv_r_sum) if any_r else 0.0
    out.err = np.sqrt(out.var_p + out.var_r)
    out.slope = num_sum * out.var_r
    if bool((out.dq & (DNU | SAT)) != 0):
        out.slope = float("nan")
        out.var_p = out.var_r = out.err = 0.0
    if any_sat:
        out.dq = out.dq | SAT
    return out


def compare(E, image, integ, want, what=KEYS, y=0, x=0, rtol=1e-4):
    tag = "" if (y, x) == (0, 0) else f" ({y},{x})"
    for k in what:
        a = {"slope": "slope", "dq": "dq", "var_poisson": "var_p", "var_rnoise": "var_r", "err": "err"}[k]
        kw = dict(exact=True) if k == "dq" else dict(rtol=rtol, atol=1e-6)
        E.same(f"exposure {k}{tag}", image[k][y, x], getattr(want, a), **kw)
        for i, o in enumerate(want.ints):
            E.same(f"integration {i} {k}{tag}", integ[k][i, y, x], getattr(o, a), **kw)


def words(E, name, n, options, first=None):
    return [E.pick(f"{name}{k}", list(options if k or first is None else first)) for k in range(n)]


def grid(E, w, pers=None):
    """group flags of one pixel"""
    g = E.np.zeros((len(w), len(w[0]), 1, 1), dtype=E.np.uint8)
    for i, row in enumerate(w):
        for k, x in enumerate(row):
            g[i, k] = x
    return g


def full(E, v, shape=(1, 1), dtype="f4"):
    a = E.np.zeros(shape, dtype=dtype)
    a[...] = v
    return a


def pixel(E, ng, options, ni=1, first=None, what=KEYS, gain=2.0, rn=8.0, dark=0.0, pdq=0, zframe=False, suppress=False, lo=-1000, hi=60000,
          fixed=None, meta=None, nan=False, cover=True, companion=False, persist=False, presuppress=False):
    """one pixel against the reference model; None stands for an arbitrary value"""
    np = E.np
    data = E.floats("data", (ni, ng, 1, 1), "f4", lo=lo, hi=hi, nan=nan)
    w = fixed or [words(E, f"w{i}_", ng, options, first) for i in range(ni)]
    if persist:  # a saturated group stays saturated
        E.assume(all(not a & SAT or b & SAT for row in w for a, b in zip(row, row[1:])))
    if gain is None:
        gain = E.real("gain", lo=0.5, hi=8)
    if rn is None:
        rn = E.real("rn", lo=1, hi=100)
    if dark is None:
        dark = E.real("dark", lo=0, hi=10)
    if pdq is None:
        pdq = E.bits("pdq", (), "u4")
    z, zf = None, None
    if zframe:
        zf = E.floats("zframe", (ni, 1, 1), "f4", lo=0, hi=60000)
        z = [zf[i, 0, 0] if bool(zf[i, 0, 0] != 0) else None for i in range(ni)]
    nx = 2 if companion else 1
    d, g, zz = data, grid(E, w), zf
    if companion:  # an ordinary pixel beside the one of interest
        d = np.zeros((ni, ng, 1, 2), dtype=np.float32)
        d[..., 1] = np.arange(ng).reshape(1, ng, 1) * 10
        d[..., :1] = data
        g2 = np.zeros((ni, ng, 1, 2), dtype=np.uint8)
        g2[..., :1] = g
        g = g2
        if zframe:
            zz = np.zeros((ni, 1, 2), dtype=np.float32)
            zz[..., :1] = zf
    r = ramp(E, d.copy(), g, pdq=full(E, pdq, (1, nx), dtype="u4"), dark=full(E, dark, (1, nx)), zeroframe=zz, suppress=suppress, meta=meta)
    if presuppress:
        E.mod("stcal.ramp_fitting.ramp_fit").suppress_one_good_group_ramps(r)
    image, integ, _ = fit(E, r, full(E, rn, (1, nx)), full(E, gain, (1, nx)))
    if image is None:
        E.claim("only an exposure saturated throughout gives no result", not companion and all(x[0] & SAT for x in w))
        return
    if presuppress:
        w = [[x | DNU for x in row] if sum(good(x) for x in row) == 1 else row for row in w]
    want = fit_pixel(E, [[data[i, k, 0, 0] for k in range(ng)] for i in range(ni)], w, pdq, rn, gain, dark, z, suppress, meta)
    compare(E, image, integ, want, what)
    if cover:
        E.cover("slope", not_nan(E, image["slope"][0, 0]))


def not_nan(E, v):
    return ~E.np.isnan(v)
