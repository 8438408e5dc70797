"""Iterative jump detection (few usable groups): the largest outlier is flagged and removed until none exceeds the threshold for the number of differences left."""
from symx.harness import Case

from .jumpspec import DNU, JUMP, SAT, params, pattern

BOUNDS = ("iterative detection with up to 2 integrations and 3..5 differences in total; every data value and every DO_NOT_USE / SATURATED pattern, "
          "uniform and non-uniform read patterns, distinct thresholds for 2, 3 and >= 4 differences")
ASSUMPTIONS = ["read noise is positive, or zero in the case without noise", "thresholds positive"]


def harness(E, shape, rp=None, thr=(4.0, 5.0, 6.0), flags=(0, DNU, SAT), fix=None, noise=None, steps=None):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    for ix, v in (fix or {}).items():
        data[ix] = v
    gdq = np.zeros(shape, dtype=np.uint8)
    fl = {}
    for i in range(ni):
        for g in range(ng):
            for x in range(nx):
                fl[i, g, x] = E.pick(f"flag{i}_{g}_{x}", list(flags)) if x == 0 else 0
                gdq[i, g, 0, x] = fl[i, g, x]
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    if noise is not None:
        rn[...] = noise
    kw = {}
    if rp is not None:
        kw["dt_group"], kw["n_reads_groupdiff"] = pattern(np, rp)
    p = params(E, normal_rej_thresh=thr[0], three_diff_rej_thresh=thr[1], two_diff_rej_thresh=thr[2], minimum_groups=2, **kw)
    d0, g0 = data.copy(), gdq.copy()
    out, below, above, n = E.mod("stcal.jump.twopoint_difference").find_crs(data, gdq, rn, p)
    alldnu = [sum(all(fl[i, g, x] & DNU for x in range(nx)) for g in range(ng)) for i in range(ni)]
    if ng - max(alldnu) < 2:
        E.same("too few usable groups: nothing flagged", out, g0)
        return
    dt, nr = kw.get("dt_group", [1.0]), kw.get("n_reads_groupdiff", [2.0])
    for x in range(nx):
        want, going = pixel(E, np, d0, fl, ni, ng, x, dt, nr, rn[0, x], thr, rp is not None, steps, noise)
        for i in range(ni):
            for g in range(ng):
                w = want.get((i, g))
                if w is None:
                    E.same("a group without a usable difference is left alone", out[i, g, 0, x], fl[i, g, x])
                else:
                    f = fl[i, g, x]
                    if going is False:
                        E.same("flagged exactly by the iterative outlier test", out[i, g, 0, x], E.ite(w, f | JUMP, f), exact=True)
                    else:
                        o = out[i, g, 0, x]
                        E.claim("the worst outlier is flagged first", np.logical_or(np.logical_not(w), o == f | JUMP))
                        E.claim("nothing is flagged once the worst ratio is within the threshold", np.logical_or(going, o == E.ite(w, f | JUMP, f)))
                    E.cover("jump", w)


def pixel(E, np, d, fl, ni, ng, x, dt, nr, rn, thr, per_group, steps=None, noise=None):
    """which differences are outliers, and whether the search was still going after the last step followed"""
    keys = [(i, g) for i in range(ni) for g in range(1, ng) if not (fl[i, g, x] & 3 or fl[i, g - 1, x] & 3)]
    ks = [g - 1 if per_group else 0 for _, g in keys]
    a = [np.abs((d[i, g, 0, x] - d[i, g - 1, 0, x]) / dt[k]) for (i, g), k in zip(keys, ks)]
    if len(keys) < 2:
        return {k: False for k in keys}, False
    rem = [True] * len(keys)
    hit = [False] * len(keys)
    going = True
    for _ in range(steps or len(keys) - 1):
        v = np.array([E.ite(r, q, np.nan) for r, q in zip(rem, a)])
        n = sum([E.ite(r, 1, 0) for r in rem], 0)
        top = np.nanmax(v)
        clipped = np.nanmedian(np.where(v == top, np.nan, v))
        med = E.ite(n >= 4, clipped, E.ite(n == 3, np.nanmedian(v), E.ite(n == 2, np.nanmin(v), np.nan)))
        lim = E.ite(n >= 4, thr[0], E.ite(n == 3, thr[1], thr[2]))
        sig = [np.sqrt(np.abs(med) * dt[k] + rn * rn / (0.5 * nr[k])) / dt[k] for k in ks]
        # without any expected noise there is nothing to compare with
        ratio = np.array([E.ite(s > 0, np.abs(v[j] - med) / s, np.nan) if noise == 0 else np.abs(v[j] - med) / s for j, s in enumerate(sig)])
        worst = np.nanmax(ratio)
        found = np.logical_and(going, worst > lim)
        new = [np.logical_and(found, np.logical_and(rem[j], ratio[j] == worst)) for j in range(len(keys))]
        hit = [np.logical_or(h, w) for h, w in zip(hit, new)]
        rem = [np.logical_and(r, np.logical_not(w)) for r, w in zip(rem, new)]
        going = found
    return dict(zip(keys, hit)), going if steps else False


RP4 = [[1], [2, 3], [4, 5, 6], [8]]
CASES = [
    Case("three-groups", harness, shape=(1, 3, 1, 1)),
    Case("four-groups", harness, shape=(1, 4, 1, 1), flags=(0, SAT)),
    Case("four-groups-pattern", harness, shape=(1, 4, 1, 1), rp=RP4, flags=(0, DNU)),
    Case("two-integrations", harness, shape=(2, 3, 1, 1), flags=(0,), noise=10, steps=1, query_ms=2500,
         fix={(0, 0, 0, 0): 0, (0, 1, 0, 0): 100, (0, 2, 0, 0): 210, (1, 0, 0, 0): 50}),
    Case("five-groups", harness, shape=(1, 5, 1, 1), flags=(0,), noise=20, rp=[[1], [2], [4, 5], [6], [10, 11]], steps=1, query_ms=2500, tier="thorough",
         fix={(0, 0, 0, 0): 0, (0, 1, 0, 0): 30, (0, 2, 0, 0): 110, (0, 3, 0, 0): 180}),
    Case("six-groups", harness, shape=(1, 6, 1, 1), flags=(0,), noise=20, steps=1, query_ms=2500,
         fix={(0, 0, 0, 0): 0, (0, 1, 0, 0): 30, (0, 2, 0, 0): 63, (0, 3, 0, 0): 3000, (0, 4, 0, 0): 3033}),
    Case("no-noise", harness, shape=(1, 4, 1, 1), flags=(0, SAT), noise=0, fix={(0, 0, 0, 0): 8, (0, 1, 0, 0): 8, (0, 2, 0, 0): 8}),
    Case("two-pixels", harness, shape=(1, 3, 1, 2), flags=(0, SAT)),
]
