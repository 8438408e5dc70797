"""Variances: per segment from read noise and median rate, combined as inverse variances."""
from symx.harness import Case

from .rampspec import DNU, JUMP, NATIVE, SAT, pixel

BOUNDS = ("1 pixel; 2..4 groups with combinations of good, do-not-use, saturated and jump groups, 2 integrations of 2 groups; "
          "all data values within [-1000, 60000] DN, any gain in [0.5, 8], read noise in [1, 100] electrons and dark current in [0, 10]")
ASSUMPTIONS = []
V = ("var_poisson", "var_rnoise", "err")


def case(name, **k):
    t = k.pop("tier", "quick")
    k = dict(gain=None, rn=None, dark=None) | k
    return Case(name, pixel, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 4000), what=V, **k)


CASES = [
    case("2-groups", ng=2, options=(0, DNU, SAT, JUMP)),
    case("3-groups", ng=3, options=(0, DNU, JUMP), first=(0, JUMP), gain=2.0, rn=8.0),
    case("3-groups-any-gain", ng=3, options=(0, SAT), first=(0,), rn=8.0, hi=200, lo=0),
    case("3-groups-any-noise", ng=3, options=(0,), gain=2.0, hi=200, lo=0),
    case("4-groups", ng=4, options=(0, JUMP, DNU), first=(0,), gain=2.0, rn=8.0),
    case("5-groups", ng=5, options=(0, JUMP), first=(0,), gain=2.0, rn=40.0, lo=0, hi=100),
    case("2-ints", ni=2, ng=2, options=(0, DNU)),
    case("2-ints-noise", ni=2, ng=2, options=(0, SAT), gain=2.0),
    case("1-group", ng=1, ni=2, options=(0, DNU, SAT)),
]
