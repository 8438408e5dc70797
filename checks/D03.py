"""Dark subtraction when the dark is shorter than the science exposure: linear extrapolation of the missing groups."""
from symx.harness import Case

from .darkspec import check

BOUNDS = "darks of 2..4 groups extended by up to 6 groups, 3-D and 4-D, matched and averaged readouts, 1x2 pixels; all values (NaN allowed in the dark)"
ASSUMPTIONS = ["the dark has at least two groups"]


def harness(E, **kw):
    check(E, **kw)


CASES = [
    Case("3d-one", harness, sci=(1, 3, 1, 0), drk=(1, 2, 1, 0), four=False),
    Case("3d-three", harness, sci=(1, 5, 1, 0), drk=(1, 2, 1, 0), four=False, nx=2),
    Case("3d-gapped", harness, sci=(2, 4, 2, 3), drk=(1, 2, 2, 3), four=False),
    Case("3d-averaged", harness, sci=(1, 3, 2, 1), drk=(1, 3, 1, 0), four=False),
    Case("4d", harness, sci=(2, 4, 1, 0), drk=(2, 2, 1, 0), four=True),
    Case("4d-three", harness, sci=(3, 3, 1, 0), drk=(3, 2, 1, 0), four=True),
    Case("4d-gapped", harness, sci=(1, 4, 4, 1), drk=(2, 3, 4, 1), four=True),
    Case("4d-averaged", harness, sci=(2, 3, 2, 0), drk=(2, 3, 1, 0), four=True, save="x"),
    Case("3d-long", harness, sci=(1, 10, 1, 0), drk=(1, 4, 1, 0), four=False, nx=2, tier="thorough"),
    Case("4d-long", harness, sci=(3, 8, 1, 2), drk=(3, 3, 1, 2), four=True, nx=2, tier="thorough"),
]
