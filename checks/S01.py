"""Saturation flag: exactly the groups at or after the first threshold crossing, grown by the box."""
from symx.harness import Case

from .satspec import ATOD, DQ, NOSAT, SAT, crossings, eff_threshold, grow, inputs

BOUNDS = ("data (integrations, groups, rows, cols) up to (2,3,3,3) with growth 0/1 and (1,2,5,5) with growth 2; every pixel value in "
          "[-1000, 65535] (reals), thresholds in [1, 65000] or NaN, all flag words over the listed bits; 2-D and 4-D thresholds; no read pattern")
ASSUMPTIONS = ["images at least 2n+1 pixels on each side for growth n", "science samples finite and not above the A/D limit"]


def harness(E, shape, n, thr4=False):
    np = E.np
    data, thr, sdq, gdq, pdq = inputs(E, shape, thr4)
    gin, thr_in, sdq_in, din = gdq.copy(), thr.copy(), sdq.copy(), data.copy()
    f = E.mod("stcal.saturation.saturation").flag_saturated_pixels
    out, p, z = f(data, gdq, pdq, thr, sdq, ATOD, DQ, n_pix_grow_sat=n)
    eff, off = eff_threshold(E, thr_in, sdq_in)
    want = grow(E, crossings(E, din, eff, gin), n)
    E.same("a group is flagged saturated iff it or an earlier group of a box neighbour reached its threshold",
           (out & SAT) != 0, want)
    E.cover("saturated", want)
    E.cover("threshold off", off)


CASES = [
    Case("n1", harness, shape=(2, 3, 3, 3), n=1),
    Case("n0", harness, shape=(2, 3, 2, 2), n=0),
    Case("n1-rect", harness, shape=(1, 2, 3, 4), n=1),
    Case("n1-thresh4d", harness, shape=(2, 2, 3, 3), n=1, thr4=True),
    Case("n2", harness, shape=(1, 2, 5, 5), n=2),
    Case("n1-big", harness, shape=(2, 4, 4, 5), n=1, tier="thorough"),
    Case("n2-big", harness, shape=(1, 3, 6, 6), n=2, tier="thorough"),
    Case("n3", harness, shape=(1, 1, 7, 7), n=3, tier="thorough"),
]
