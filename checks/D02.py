"""Dark subtraction, single-frame dark averaged to the science readout pattern."""
from symx.harness import Case

from .darkspec import check

BOUNDS = ("single-frame gapless darks (as delivered) of up to 16 frames x 3 integrations; science patterns up to 4 frames per group, gap up to 3, 4 groups, "
          "3 integrations, 1x2 pixels; all values (NaN allowed in the dark) and flag words")
ASSUMPTIONS = ["dark taken with one frame per group and no gap", "dark long enough (shorter: D03)"]


def harness(E, **kw):
    check(E, **kw)


CASES = [
    Case("3d-avg", harness, sci=(2, 2, 2, 0), drk=(1, 4, 1, 0), four=False, nx=2),
    Case("3d-gap", harness, sci=(1, 3, 1, 1), drk=(1, 6, 1, 0), four=False, save="x"),
    Case("3d-avg-gap", harness, sci=(1, 2, 4, 2), drk=(1, 11, 1, 0), four=False, save="x"),
    Case("4d-avg", harness, sci=(3, 2, 2, 1), drk=(2, 5, 1, 0), four=True),
    Case("4d-avg3", harness, sci=(2, 2, 3, 1), drk=(2, 7, 1, 0), four=True),
    Case("4d-gap", harness, sci=(1, 2, 1, 2), drk=(1, 4, 1, 0), four=True, save="x"),
    Case("4d-gap-two", harness, sci=(2, 2, 1, 2), drk=(2, 4, 1, 0), four=True, save="x"),
    Case("4d-more-dark", harness, sci=(1, 2, 2, 0), drk=(3, 4, 1, 0), four=True, save="x"),
    Case("4d-first-segment", harness, sci=(2, 2, 2, 0), drk=(3, 4, 1, 0), four=True, intstart=1),
    Case("4d-later-segment", harness, sci=(2, 2, 2, 0), drk=(3, 4, 1, 0), four=True, intstart=(1, 2, 3, 4, 50)),
    Case("4d-later-segment-enough", harness, sci=(3, 2, 2, 0), drk=(2, 4, 1, 0), four=True, intstart=4),
    Case("models", harness, sci=(2, 2, 2, 1), drk=(2, 5, 1, 0), four=True, intstart=(None, 3), save="x", models=True),
    Case("large3", harness, sci=(2, 4, 4, 0), drk=(1, 16, 1, 0), four=False, nx=2, tier="thorough"),
    Case("large4", harness, sci=(3, 3, 3, 2), drk=(3, 13, 1, 0), four=True, nx=2, tier="thorough"),
]
