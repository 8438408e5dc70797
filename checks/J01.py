"""Single-pass jump detection: a difference is flagged exactly when it deviates from the pixel's median rate by more than the threshold."""
from symx.harness import Case

from .jumpspec import DNU, JUMP, SAT, params, pattern

BOUNDS = ("single-pass detection with up to 2 integrations, 6 groups, 1x2 pixels; every data value and flag pattern (DO_NOT_USE / SATURATED / pre-set jump), "
          "uniform and non-uniform read patterns, thresholds 1..10")
ASSUMPTIONS = ["read noise is positive, or zero in the cases without noise", "rejection threshold positive"]


def harness(E, shape, rp=None, thresh=4.0, flags=(0, DNU, SAT), ngood=1, noise=None, fix=None):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    for ix, v in (fix or {}).items():
        data[ix] = v
    gdq = np.zeros(shape, dtype=np.uint8)
    fl = {}
    for i in range(ni):
        for g in range(ng):
            for x in range(nx):
                f = E.pick(f"flag{i}_{g}_{x}", list(flags)) if (i, g) >= (0, 0) and x < ngood else 0
                fl[i, g, x] = f
                gdq[i, g, 0, x] = f
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    if noise is not None:
        rn[...] = noise
    kw = {}
    if rp is not None:
        kw["dt_group"], kw["n_reads_groupdiff"] = pattern(np, rp)
    p = params(E, normal_rej_thresh=thresh, min_diffs_single_pass=1, minimum_groups=2, **kw)
    d0, g0 = data.copy(), gdq.copy()
    out, below, above, n = E.mod("stcal.jump.twopoint_difference").find_crs(data, gdq, rn, p)
    # usable groups are counted over the whole image; with everything DNU in too many groups nothing is done
    alldnu = [sum(all(fl[i, g, x] & DNU for x in range(nx)) for g in range(ng)) for i in range(ni)]
    if ng - max(alldnu) < 2:
        E.same("too few usable groups: nothing flagged", out, g0)
        return
    dt, nr = kw.get("dt_group", [1.0]), kw.get("n_reads_groupdiff", [2.0])
    for x in range(nx):
        diffs = {}
        for i in range(ni):
            for g in range(1, ng):
                if not (fl[i, g, x] & 3 or fl[i, g - 1, x] & 3):
                    k = g - 1 if rp is not None else 0
                    diffs[i, g] = (d0[i, g, 0, x] - d0[i, g - 1, 0, x]) / dt[k]
        med = np.median(np.array(list(diffs.values()))) if diffs else None
        for i in range(ni):
            E.same("group flags of the first group are never changed", out[i, 0, 0, x], g0[i, 0, 0, x])
            for g in range(1, ng):
                k = g - 1 if rp is not None else 0
                if (i, g) not in diffs:
                    E.same("a group next to or at an unusable one is left alone", out[i, g, 0, x], g0[i, g, 0, x])
                    continue
                sig = np.sqrt(np.abs(med) * dt[k] + rn[0, x] * rn[0, x] / (0.5 * nr[k])) / dt[k]
                # without any expected noise there is nothing to compare with
                hit = np.logical_and(sig > 0, np.abs(diffs[i, g] - med) > thresh * sig) if noise == 0 else np.abs(diffs[i, g] - med) / sig > thresh
                E.same("flagged exactly when the deviation exceeds the threshold", out[i, g, 0, x], E.ite(hit, fl[i, g, x] | JUMP, fl[i, g, x]), exact=True)
                E.cover("jump", hit)
                E.cover("nojump", np.logical_not(hit))


RP4 = [[1], [2, 3], [4, 5, 6], [8]]
RP5 = [[1], [2], [4, 5], [6], [10, 11]]

CASES = [
    Case("uniform4", harness, shape=(1, 4, 1, 1)),
    Case("uniform4-low-threshold", harness, shape=(1, 4, 1, 1), thresh=1.0, flags=(0, JUMP, SAT)),
    Case("pattern4", harness, shape=(1, 4, 1, 1), rp=RP4),
    Case("two-integrations", harness, shape=(2, 3, 1, 1), thresh=5.5),
    Case("two-integrations-pattern", harness, shape=(2, 3, 1, 1), rp=RP4[:3], flags=(0, SAT)),
    Case("two-pixels", harness, shape=(1, 3, 1, 2), flags=(0, DNU), ngood=2),
    Case("five", harness, shape=(1, 5, 1, 1), flags=(0, DNU)),
    Case("five-pattern", harness, shape=(1, 5, 1, 1), rp=RP5, flags=(0, SAT), thresh=3.0),
    Case("no-noise", harness, shape=(1, 4, 1, 1), flags=(0, SAT), noise=0, fix={(0, 0, 0, 0): 8, (0, 1, 0, 0): 8, (0, 2, 0, 0): 8}),
    Case("no-noise-pattern", harness, shape=(1, 4, 1, 1), rp=RP4, flags=(0, DNU), noise=0, fix={(0, 0, 0, 0): 8, (0, 1, 0, 0): 8}),
    Case("six", harness, shape=(1, 6, 1, 1), flags=(0, SAT), tier="thorough"),
    Case("two-integrations4", harness, shape=(2, 4, 1, 1), rp=RP4, flags=(0, SAT), tier="thorough"),
    Case("seven", harness, shape=(1, 7, 1, 1), flags=(0,), tier="thorough"),
]
