"""Frame-zero image: zeroed exactly where its single read is saturated (with growth) or at the A/D floor."""
from symx.harness import Case

from .satspec import ATOD, DQ, FLOOR, SAT, DNU, eff_threshold, grow, inputs

BOUNDS = "(2,2,3,3) exposures with a frame-zero image per integration, growth 0/1/2 (5x5), 2-D and 4-D thresholds"
ASSUMPTIONS = ["images at least 2n+1 pixels on each side for growth n"]


def harness(E, shape, n, thr4=False):
    np = E.np
    ni, ng, ny, nx = shape
    data, thr, sdq, gdq, pdq = inputs(E, shape, thr4)
    zf = E.floats("zframe", (ni, ny, nx), "f4", lo=-1000, hi=65535)
    zin, thr_in, sdq_in, gin = zf.copy(), thr.copy(), sdq.copy(), gdq.copy()
    f = E.mod("stcal.saturation.saturation").flag_saturated_pixels
    out, p, z = f(data, gdq, pdq, thr, sdq, ATOD, DQ, n_pix_grow_sat=n, zframe=zf)
    eff, off = eff_threshold(E, thr_in, sdq_in)
    for i in range(ni):
        t = eff[i, 0] if thr4 else eff
        bad = grow(E, zin[i] >= t, n) | (zin[i] <= 0)
        E.same(f"frame zero of integration {i} is zero where unusable and unchanged elsewhere", z[i],
               np.where(bad, 0, zin[i]), exact=True)
        E.cover("bad", bad)
        E.cover("kept", ~bad)


CASES = [
    Case("n1", harness, shape=(2, 2, 3, 3), n=1),
    Case("n0", harness, shape=(2, 2, 2, 2), n=0),
    Case("n1-thresh4d", harness, shape=(2, 2, 3, 3), n=1, thr4=True),
    Case("n2", harness, shape=(2, 1, 5, 5), n=2),
]
