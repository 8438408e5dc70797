"""One-group ramps and frame zero: which sample and which time give the slope."""
from symx.harness import Case

from .rampspec import DNU, JUMP, KEYS, NATIVE, PERS, SAT, pixel

BOUNDS = "1 pixel beside an ordinary one, 1..3 groups, 1..2 integrations, listed flag combinations; any data and frame-zero values within [-1000, 60000]"
ASSUMPTIONS = ["in the 3-group frame-zero case a saturated group stays saturated"]


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, pixel, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 4000), what=k.pop("what", KEYS), **k)


CASES = [
    case("zframe-2", ng=2, options=(0, SAT, DNU | SAT), zframe=True, companion=True),
    case("zframe-3", ng=3, options=(0, SAT, JUMP, DNU), zframe=True, companion=True, persist=True),
    case("zframe-2-ints", ng=2, ni=2, options=(0, SAT), zframe=True, companion=True),
    case("zframe-1-group", ng=1, ni=2, options=(0, SAT, DNU), zframe=True, companion=True),
    case("suppress-2", ng=2, options=(0, SAT, DNU, PERS), zframe=True, suppress=True, presuppress=True, companion=True),
    case("suppress-3", ng=3, options=(0, SAT, JUMP), suppress=True, presuppress=True, companion=True),
    case("no-zframe", ng=3, options=(0, SAT, PERS), companion=True),
]
