"""Flags of the rate and per-integration products."""
from symx.harness import Case

from .rampspec import DNU, JUMP, NATIVE, PERS, SAT, pixel

BOUNDS = ("1 pixel; 2..3 groups, 1..2 integrations with combinations of the listed group flag words, any 32-bit pixel flag word")
ASSUMPTIONS = []
D = ("dq", "slope")


def case(name, **k):
    t = k.pop("tier", "quick")
    k = dict(pdq=None) | k
    return Case(name, pixel, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 4000), what=D, **k)


CASES = [
    case("2-groups", ng=2, options=(0, DNU, SAT, JUMP, PERS, DNU | SAT, SAT | JUMP)),
    case("3-groups", ng=3, options=(0, DNU, SAT, PERS | JUMP)),
    case("2-ints", ni=2, ng=2, options=(0, DNU, SAT, JUMP)),
    case("3-ints", ni=3, ng=2, options=(0, SAT)),
    case("3-ints-dnu", ni=3, ng=2, options=(0, DNU)),
    case("1-group", ni=2, ng=1, options=(0, DNU, SAT, JUMP, PERS)),
]
