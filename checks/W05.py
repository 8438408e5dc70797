"""Variances and errors of the coadded image."""
from symx.harness import Case

from .resamplespec import Wcs, shims
from .W04 import model

BOUNDS = "1..3 input images of 2x2 pixels without shift or with a whole-pixel shift; any variances (zero or missing included), flags, scale ratios of the listed values"
ASSUMPTIONS = ["drizzle coaddition of whole-pixel maps is the weighted mean (drizzle's own code is outside)"]
VARS = ("var_rnoise", "var_poisson", "var_flat")


FL = ([[0, 0], [0, 0]], [[1, 0], [0, 4]], [[1, 0], [0, 0]], [[0, 2], [1, 0]])


def harness(E, n, kind, absent=(), err="from_var", psr=1.0, free=("var_poisson",), nan=False, only=None, shift=False, flags=FL):
    np = E.np
    R = E.mod("stcal.resample.resample").Resample
    ms = []
    out = (2, 3) if shift else (2, 2)
    for k in range(n):
        m = model(E, k, np, (2, 2), (k, 0) if shift else (0, 0), group=f"g{k}", kind=kind, level=False, fixed=True)
        if flags:
            m["dq"] = np.array(E.pick(f"dq{k}", flags[:3 if k == 0 else None]), dtype=np.uint32)
        if kind == "ivm" and "var_rnoise" in free:
            m["var_rnoise"] = E.floats(f"rn{k}", (2, 2), "f4", lo=0, hi=4, nan=nan)
        elif kind == "ivm":
            m["var_rnoise"] = np.array([[4.0, (2.0 + k) ** 2], [(1.0 + k) ** 2, 0.25]], dtype=np.float32)
        for v in VARS:
            if (k, v) in absent:
                m[v] = None
            elif v == "var_rnoise" and kind == "ivm":
                pass
            elif v in free:
                m[v] = E.floats(f"{v}{k}", (2, 2), "f4", lo=0, hi=9, nan=nan is True)
                if nan == "diagonal":
                    d = E.floats(f"{v}{k}-may-miss", (2,), "f4", lo=0, hi=9, nan=True)
                    m[v][[0, 1], [0, 1]] = d
            else:
                m[v] = np.array([[(1.0 + k) ** 2, 4.0], [0.25, (1.5 + k) ** 2]], dtype=np.float32)
        m["err"] = E.floats(f"err{k}", (2, 2), "f4", lo=0, hi=9) if err == "driz_err" else None
        ms.append(m)

    class Mine(R):
        error_from_variances = only

    r = Mine({"wcs": Wcs(np, shape=out), "pixel_scale": 0.1, "pixel_scale_ratio": psr}, n_input_models=n, weight_type=kind, enable_var=True, compute_err=err)
    for m in ms:
        r.add_model(m)
    r.finalize()
    o = r.output_model
    tot = {}
    for v in VARS:
        num = np.zeros(out, dtype=float)
        wt = np.zeros(out, dtype=float)
        for k, m in enumerate(ms):
            for y in range(2):
                for x in range(2):
                    u = x + (k if shift else 0)
                    if not u < out[1]:
                        continue
                    # weight of the input at its own pixel, and of the variance propagation
                    ok = m["dq"][y, x] == 0
                    if kind == "ivm":
                        rn = m["var_rnoise"]
                        if rn is None:
                            w, use = 1.0, ok
                        else:
                            w = rn[y, x]
                            use = ok & (w > 0)
                            w = np.where(use, 1.0 / np.where(use, w, 1.0), 0.0)
                    else:
                        w, use = m["exposure_time"], ok
                    if m[v] is None:
                        continue
                    q = m[v][y, x]
                    use = use & ~np.isnan(q)
                    num[y, u] = num[y, u] + np.where(use, q * w * w, 0.0)
                    wt[y, u] = wt[y, u] + np.where(use, w, 0.0)
        has = wt > 0
        tot[v] = np.where(has, num * (1.0 / psr ** 2) / wt / wt, np.nan)
        E.same(f"{v}: weighted variances over the squared sum of weights", o[v], tot[v])
        E.cover(f"{v} present", has)
    if err == "from_var":
        names = only or VARS
        s = np.zeros(out, dtype=float)
        none = np.ones(out, dtype=bool)
        for v in names:
            s = s + np.where(np.isnan(tot[v]), 0.0, tot[v])
            none = none & np.isnan(tot[v])
        got = o["err"]
        E.same("squared error is the sum of the variances that are there", np.where(np.isnan(got), 0.0, got * got), np.where(none, 0.0, s))
        E.claim("the error is not negative, missing where no variance is there", np.where(none, np.isnan(got), got >= 0))
        E.cover("no error", none)
    elif err is None:
        E.claim("no error unless asked for", "err" not in o)
    if err == "driz_err":
        num = np.zeros(out, dtype=float)
        wt = np.zeros(out, dtype=float)
        for m in ms:
            for y in range(2):
                for x in range(2):
                    ok = m["dq"][y, x] == 0
                    w = 1.0 / m["var_rnoise"][y, x] if kind == "ivm" else m["exposure_time"]
                    num[y, x] = num[y, x] + np.where(ok, w * m["err"][y, x], 0.0)
                    wt[y, x] = wt[y, x] + np.where(ok, w, 0.0)
        E.same("drizzled errors over the pixel scale ratio", o["err"], np.where(wt > 0, num / np.where(wt > 0, wt, 1.0), 0.0) / psr)


S = shims()
CASES = [
    Case("exptime-2", harness, n=2, kind="exptime", shims=S),
    Case("exptime-nan", harness, n=2, kind="exptime", nan="diagonal", psr=2.0, flags=FL[:1], free=("var_flat",), err=None, shims=S),
    Case("exptime-nan-1", harness, n=1, kind="exptime", nan="diagonal", flags=FL[:2], free=("var_flat",), shims=S),
    Case("exptime-nan-all", harness, n=2, kind="exptime", nan=True, psr=2.0, flags=FL[:2], shims=S, tier="thorough"),
    Case("ivm-no-rnoise", harness, n=3, kind="ivm", absent=((0, "var_rnoise"), (2, "var_rnoise")), free=("var_flat",), flags=FL[:1], shims=S),
    Case("exptime-3-shift", harness, n=2, kind="exptime", shift=True, free=("var_flat",), shims=S),
    Case("ivm-2", harness, n=2, kind="ivm", shims=S),
    Case("ivm-1-rn", harness, n=1, kind="ivm", free=("var_rnoise",), err=None, shims=S),
    Case("exptime-absent", harness, n=2, kind="exptime", absent=((0, "var_flat"), (1, "var_poisson")), shims=S),
    Case("ivm-absent", harness, n=2, kind="ivm", absent=((1, "var_poisson"),), only=("var_rnoise", "var_poisson"), shims=S),
    Case("driz-err", harness, n=2, kind="ivm", err="driz_err", psr=2.0, shims=S),
]
