"""Frame-averaged groups preceding saturation: do-not-use exactly where saturation may hide in the average."""
from symx.harness import Case

from .satspec import ATOD, DNU, DQ, FLOOR, SAT, crossings, eff_threshold, grow, inputs

BOUNDS = ("(1..2, 3..4, 3, 3) exposures, growth 0 to 2, the listed read patterns (contiguous, gapped between and within groups, single-read and mixed groups), every pixel value "
          "in [-1000,65535], thresholds in [1,65000] or NaN, optional 2-D or 4-D bias in [0,20000]")
ASSUMPTIONS = ["images at least 2n+1 pixels on each side for growth n", "read patterns start at read >= 1 and increase"]

PATTERNS = {
    "uniform": [[1, 2], [3, 4], [5, 6], [7, 8]],
    "single": [[1], [2], [3], [4]],
    "mixed": [[1], [2, 3, 4], [5], [6, 7, 8]],
    "uneven": [[1, 2, 6], [7, 9], [10, 11, 16], [17, 20]],
    "long": [[1, 2, 3, 4, 5, 6, 7, 8], [9, 10], [11], [12, 13, 14]],
}


def partial_spec(E, data, thr_eff, off, gdq_after, n, rp, thr4):
    """do-not-use caused by partially saturated averaged groups (backward over groups)"""
    np = E.np
    ni, ng, ny, nx = data.shape
    add = np.zeros(data.shape, dtype=bool)
    for i in range(ni):
        cur = [gdq_after[i, g].copy() for g in range(ng)]
        for g in range(ng - 2, -1, -1):
            mean = sum(rp[g]) / len(rp[g])
            dil = mean / rp[g][-1]
            if dil == 1:
                continue
            t = thr_eff[i, g] if thr4 else thr_eff
            lim = np.where(off[i, g] if thr4 else off, t, t * dil)
            hit = (data[i, g] >= lim) & ((cur[g] & (SAT | DNU)) == 0) & ((cur[g + 1] & SAT) != 0)
            add[i, g] = grow(E, hit, n)
            cur[g] = np.where(add[i, g], cur[g] | DNU, cur[g])
    return add


def harness(E, shape, n, pattern, bias_kind=None, thr4=False, bits=DNU | SAT):
    np = E.np
    ni, ng, ny, nx = shape
    rp = [list(x) for x in PATTERNS[pattern][:ng]]
    data, thr, sdq, gdq, pdq = inputs(E, shape, thr4, bits=bits)
    bias = None
    if bias_kind == "2d":
        bias = E.floats("bias", (ny, nx), "f4", lo=0, hi=20000)
    elif bias_kind == "4d":
        bias = E.floats("bias", shape, "f4", lo=0, hi=20000)
    gin, thr_in, sdq_in, din = gdq.copy(), thr.copy(), sdq.copy(), data.copy()
    f = E.mod("stcal.saturation.saturation").flag_saturated_pixels
    out, p, z = f(data, gdq, pdq, thr, sdq, ATOD, DQ, n_pix_grow_sat=n, read_pattern=rp, bias=bias)
    eff, off = eff_threshold(E, thr_in, sdq_in)
    sat = grow(E, crossings(E, din, eff, gin), n)
    low = din <= 0
    after = gin | np.where(sat, SAT, 0).astype(np.uint8) | np.where(low, DNU | FLOOR, 0).astype(np.uint8)
    E.same("saturation flags do not depend on the read pattern", (out & SAT) != 0, sat)
    dnu1 = (after & DNU) != 0
    part = partial_spec(E, din, eff, off, after, n, rp, thr4)
    second = np.zeros(shape, dtype=bool)
    if ng > 2:
        for i in range(ni):
            t = eff[i, 0] if thr4 else eff
            b = 0.0 if bias is None else (bias[i, 0] if bias_kind == "4d" else bias)
            mean0 = sum(rp[0]) / len(rp[0])
            cross = (din[i, 0] - b) / mean0 * rp[2][-1] + b >= t
            jump = din[i, 1] - din[i, 0] > (t - din[i, 0]) / len(rp[1])
            second[i, 1] = ~cross & jump & sat[i, 2] & ~sat[i, 1]
    E.same("do-not-use added exactly where an averaged group may contain saturated reads",
           (out & DNU) != 0, dnu1 | part | second)
    E.claim("no group flag is cleared", (out & gin) == gin)
    E.cover("partial", part & ~dnu1)
    E.cover("second", second & ~dnu1)


CASES = [
    Case("mixed", harness, shape=(1, 4, 3, 3), n=1, pattern="mixed"),
    Case("uniform-bias2d", harness, shape=(1, 4, 3, 3), n=1, pattern="uniform", bias_kind="2d"),
    Case("uniform-bias4d-two-ints", harness, shape=(2, 3, 3, 3), n=0, pattern="uniform", bias_kind="4d"),
    Case("long-n0", harness, shape=(2, 4, 2, 2), n=0, pattern="long"),
    Case("uneven-n0", harness, shape=(1, 4, 2, 2), n=0, pattern="uneven"),
    Case("two-groups-n2", harness, shape=(1, 2, 5, 5), n=2, pattern="uniform"),
    Case("other-flags", harness, shape=(1, 3, 2, 2), n=0, pattern="mixed", bits=0xFF),
    Case("single", harness, shape=(1, 4, 3, 3), n=1, pattern="single"),
    Case("mixed-thresh4d", harness, shape=(2, 3, 3, 3), n=1, pattern="mixed", thr4=True),
    Case("two-groups", harness, shape=(2, 2, 3, 3), n=1, pattern="uniform"),
    Case("long-n1-5x5", harness, shape=(2, 4, 4, 4), n=1, pattern="long", bias_kind="2d", tier="thorough"),
    Case("mixed-n2", harness, shape=(1, 4, 5, 5), n=2, pattern="mixed", tier="thorough"),
]
