"""Dark subtraction, dark and science with the same readout: integration matching, flags, NaN, incompatible darks."""
from symx.harness import Case

from .darkspec import check

BOUNDS = "up to 4 science and 4 dark integrations, up to 4 groups, up to 2x2 pixels; all dark and science values (NaN allowed), all flag words over the listed bits"
ASSUMPTIONS = ["the dark has at least as many groups as the science (shorter darks: D03)"]


def harness(E, **kw):
    check(E, **kw)


CASES = [
    Case("3d", harness, sci=(2, 2, 1, 0), drk=(1, 3, 1, 0), four=False, ny=1, nx=2),
    Case("3d-save", harness, sci=(1, 2, 2, 1), drk=(1, 2, 2, 1), four=False, save="averaged.fits"),
    Case("4d", harness, sci=(3, 2, 4, 1), drk=(2, 2, 4, 1), four=True),
    Case("4d-more-dark", harness, sci=(2, 2, 1, 0), drk=(3, 3, 1, 0), four=True, ny=2),
    Case("4d-first-segment", harness, sci=(2, 1, 1, 0), drk=(3, 2, 1, 0), four=True, intstart=1),
    Case("4d-later-segment", harness, sci=(2, 2, 1, 0), drk=(3, 2, 1, 0), four=True, intstart=(1, 2, 3, 4, 50)),
    Case("4d-save", harness, sci=(1, 2, 1, 0), drk=(2, 2, 1, 0), four=True, save="d.fits"),
    Case("skip-frames", harness, sci=(2, 2, 1, 0), drk=(1, 3, 2, 0), four=False),
    Case("skip-gap", harness, sci=(2, 2, 2, 1), drk=(2, 3, 2, 2), four=True),
    Case("skip-gap-frames4", harness, sci=(1, 2, 4, 0), drk=(1, 8, 1, 1), four=False),
    Case("4d-later-segment-few", harness, sci=(3, 1, 1, 0), drk=(2, 1, 1, 0), four=True, intstart=(1, 2, 3, 7)),
    Case("4d-same-count", harness, sci=(3, 1, 1, 0), drk=(3, 1, 1, 0), four=True, intstart=(None, 1, 2, 3)),
    Case("models-3d", harness, sci=(2, 2, 1, 0), drk=(1, 2, 1, 0), four=False, models=True),
    Case("models-4d-segment", harness, sci=(2, 1, 1, 1), drk=(3, 2, 1, 1), four=True, intstart=(None, 1, 2), save="d.fits", models=True),
    Case("models-skip", harness, sci=(1, 2, 1, 0), drk=(1, 3, 2, 0), four=False, models=True),
    Case("infinite", harness, sci=(2, 2, 1, 0), drk=(2, 2, 1, 0), four=True, inf=True),
    Case("large", harness, sci=(4, 4, 1, 0), drk=(4, 5, 1, 0), four=True, ny=2, nx=2, tier="thorough"),
    Case("large-later", harness, sci=(4, 3, 2, 3), drk=(3, 4, 2, 3), four=True, ny=2, nx=2, intstart=5, tier="thorough"),
]
