"""Samples in do-not-use or saturated groups have no influence on any result."""
from symx.harness import Case

from .R06 import compare_all
from .rampspec import DNU, JUMP, NATIVE, SAT, fit, full, grid, ramp, words

BOUNDS = ("1 pixel, 1..4 groups, 1..2 integrations with the listed flag combinations; any data, and any other values (NaN and infinities included) in the unusable groups")
ASSUMPTIONS = []


def harness(E, ng, options, ni=1, first=None, zframe=False, inf=False):
    np = E.np
    w = [words(E, f"w{i}_", ng, options, first) for i in range(ni)]
    E.assume(any(x & (DNU | SAT) for r in w for x in r))
    data = E.floats("data", (ni, ng, 1, 1), "f4", lo=-100, hi=100)
    junk = E.floats("junk", (ni, ng, 1, 1), "f4", nan=True, inf=inf)
    other = data.copy()
    zf = E.floats("zframe", (ni, 1, 1), "f4", lo=0, hi=100) if zframe else None
    for i in range(ni):
        for g in range(ng):
            if w[i][g] & (DNU | SAT):
                other[i, g] = junk[i, g]

    def run(d):
        return fit(E, ramp(E, d, grid(E, w), zeroframe=None if zf is None else zf.copy()), full(E, 20.0), full(E, 2.0))
    a, b = run(data), run(other)
    E.claim("a result is given in both cases", (a[0] is None) == (b[0] is None))
    if a[0] is not None:
        compare_all(E, "other values in unusable groups", b, a)


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, harness, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), **k)


CASES = [
    case("1-group", ng=1, ni=2, options=(0, DNU, SAT)),
    case("2-groups", ng=2, options=(0, DNU, SAT, JUMP, DNU | JUMP)),
    case("3-groups", ng=3, options=(0, DNU, SAT, JUMP)),
    case("4-groups", ng=4, options=(0, DNU), first=(0, DNU)),
    case("4-groups-jump", ng=4, options=(0, DNU, JUMP), first=(0,)),
    case("2-ints", ng=2, ni=2, options=(0, DNU, SAT)),
    case("2-ints-zframe", ng=2, ni=2, options=(0, DNU), zframe=True),
]
