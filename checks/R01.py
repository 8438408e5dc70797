"""Slopes: optimally weighted fits of each segment, combined over segments and integrations."""
from symx.harness import Case

from .rampspec import DNU, JUMP, NATIVE, PERS, SAT, pixel

BOUNDS = ("1 pixel; 2..4 groups with every combination of good, do-not-use, saturated and jump groups, 5 groups with good/jump groups, 2 integrations of 2..3 groups; "
          "all data values within [-1000, 60000] DN, fixed read noise and gain")
ASSUMPTIONS = ["the C library's pow at rational points is the double-precision value"]
S = ("slope",)


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, pixel, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), what=S, **k)


ALL = (0, DNU, SAT, JUMP)
CASES = [
    case("2-groups", ng=2, options=ALL + (PERS,)),
    case("3-groups", ng=3, options=ALL),
    case("4-groups-good-first", ng=4, options=(0, DNU, JUMP), first=(0,)),
    case("4-groups-bad-first", ng=4, options=(0, JUMP), first=(DNU, JUMP)),
    case("4-groups-saturating", ng=4, options=(0, SAT), first=(0,)),
    case("5-groups-good", ng=5, options=(0,)),
    case("5-groups-jump", ng=5, options=(0, JUMP), first=(0,)),
    case("5-groups-gaps", ng=5, options=(0, DNU), first=(0,), tier="thorough"),
    case("2-ints", ni=2, ng=2, options=(0, DNU, SAT)),
    case("2-ints-3-groups", ni=2, ng=3, options=(0, JUMP), first=(0,)),
    case("1-group", ng=1, ni=2, options=(0, DNU, SAT)),
    case("6-groups", ng=6, options=(0, JUMP), first=(0,), tier="thorough"),
]
