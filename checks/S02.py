"""Saturation step bookkeeping: A/D floor flags, untouched data and flags, pixel DQ merge."""
from symx.harness import Case

from .satspec import ATOD, DNU, DQ, FLOOR, NOSAT, SAT, crossings, eff_threshold, grow, inputs

BOUNDS = "as the saturation flag property: (2,3,3,3)/(2,2,3,3) exposures, growth 0/1, 2-D and 4-D thresholds, every flag word over the listed bits"
ASSUMPTIONS = ["images at least 2n+1 pixels on each side for growth n"]


def harness(E, shape, n, thr4=False):
    np = E.np
    data, thr, sdq, gdq, pdq = inputs(E, shape, thr4)
    gin, thr_in, sdq_in, din, pin = gdq.copy(), thr.copy(), sdq.copy(), data.copy(), pdq.copy()
    f = E.mod("stcal.saturation.saturation").flag_saturated_pixels
    out, p, z = f(data, gdq, pdq, thr, sdq, ATOD, DQ, n_pix_grow_sat=n)
    E.same("science samples are not modified", data, din, exact=True)
    low = din <= 0
    E.same("a group at or below zero is flagged A/D floor, no other", (out & FLOOR) != 0, low | ((gin & FLOOR) != 0))
    E.same("a group at or below zero is flagged do-not-use, no other", (out & DNU) != 0, low | ((gin & DNU) != 0))
    others = 0xFF & ~(SAT | DNU | FLOOR)
    E.same("other group flags are unchanged", out & others, gin & others)
    E.claim("no group flag is cleared", (out & gin) == gin)
    want = sdq_in | np.where(np.isnan(thr_in), NOSAT, 0).astype(np.uint32)
    E.same("pixel quality is the union of its input, the reference flags and no-check for NaN thresholds", p, pin | want)
    E.claim("no frame-zero product invented", z is None)
    E.cover("floor", low)


def harness_never(E, shape, n):
    """a pixel with no threshold is never saturated by itself; with no growth it keeps its input flag"""
    np = E.np
    data, thr, sdq, gdq, pdq = inputs(E, shape)
    thr_in, sdq_in, gin = thr.copy(), sdq.copy(), gdq.copy()
    f = E.mod("stcal.saturation.saturation").flag_saturated_pixels
    out, p, z = f(data, gdq, pdq, thr, sdq, ATOD, DQ, n_pix_grow_sat=0)
    off = np.isnan(thr_in) | ((sdq_in & NOSAT) != 0)
    E.claim("pixels without a usable threshold are never flagged saturated",
            ~off | ((out & SAT) == (gin & SAT)))
    E.claim("pixels without a usable threshold are marked as not checked", ~off | ((p & NOSAT) != 0))
    E.cover("off", off)


CASES = [
    Case("n1", harness, shape=(2, 3, 3, 3), n=1),
    Case("n0", harness, shape=(2, 3, 2, 2), n=0),
    Case("n1-thresh4d", harness, shape=(2, 2, 3, 3), n=1, thr4=True),
    Case("never", harness_never, shape=(2, 3, 2, 3), n=0),
    Case("n2", harness, shape=(2, 3, 5, 5), n=2, tier="thorough"),
]
