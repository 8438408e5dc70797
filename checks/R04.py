"""A linear ramp gives its own rate whatever jumps, gaps and saturation interrupt it."""
from symx.harness import Case

from .rampspec import DNU, JUMP, NATIVE, PERS, SAT, fit, full, good, grid, ramp, words

BOUNDS = ("1 pixel, ramps of 3..10 groups in 1..2 integrations with the listed flag patterns; any rate, pedestal and jump heights, arbitrary values in unusable groups")
ASSUMPTIONS = ["at least two consecutive usable groups, or a jump followed by a usable group"]
TG = 8.0


def usable(w):
    return any(good(b) and (good(a) or a & ~PERS == JUMP) for a, b in zip(w, w[1:])) and not w[0] & SAT


def harness(E, ng, options=None, first=None, patterns=None, ni=1, gain=2.0, rn=8.0):
    np = E.np
    if patterns:
        w = [list(E.pick(f"p{i}", patterns)) for i in range(ni)]
    else:
        w = [words(E, f"w{i}_", ng, options, first) for i in range(ni)]
    E.assume(all(usable(x) for x in w))
    rate = E.real("rate", lo=-100, hi=4000)
    data = np.zeros((ni, ng, 1, 1), dtype=np.float32)
    for i in range(ni):
        base = E.real(f"base{i}", lo=-1000, hi=1000)
        for g in range(ng):
            if w[i][g] & (DNU | SAT):
                data[i, g] = E.real(f"junk{i}_{g}", lo=-1e5, hi=1e5)
                continue
            if w[i][g] & JUMP:
                base = base + E.real(f"step{i}_{g}", lo=-1000, hi=1000)
            data[i, g] = base + rate * (g * TG)
    image, integ, _ = fit(E, ramp(E, data, grid(E, w)), full(E, rn), full(E, gain))
    for i in range(ni):
        E.same(f"integration {i} rate", integ["slope"][i, 0, 0], rate, rtol=1e-3, atol=0.02)
    E.same("exposure rate", image["slope"][0, 0], rate, rtol=1e-3, atol=0.02)
    E.cover("steep", rate > 1000)


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, harness, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), **k)


J = JUMP
P8 = ((0,) * 8, (0, 0, 0, J, 0, 0, 0, 0), (0, 0, DNU, 0, 0, J, 0, 0), (DNU, 0, 0, 0, 0, 0, 0, DNU), (0, J, J, 0, 0, 0, SAT, SAT), (0, 0, 0, DNU, J, 0, 0, J),
      (0, 0, J, 0, J, 0, J, 0), (PERS, PERS, 0, 0, J | PERS, 0, 0, 0))
P10 = ((0,) * 10, (0, 0, 0, 0, 0, J, 0, 0, 0, 0), (0, 0, 0, DNU, DNU, 0, 0, 0, SAT, SAT))
CASES = [
    case("3-groups", ng=3, options=(0, J, DNU, SAT)),
    case("4-groups", ng=4, options=(0, J, DNU), first=(0,)),
    case("4-groups-bad-first", ng=4, options=(0, J, DNU), first=(J, DNU), tier="thorough"),
    case("5-groups", ng=5, options=(0, J), first=(0,)),
    case("8-groups", ng=8, patterns=P8[:4]),
    case("8-groups-more", ng=8, patterns=P8[4:]),
    case("10-groups", ng=10, patterns=P10, tier="thorough"),
    case("2-ints", ng=4, ni=2, patterns=((0, 0, 0, 0), (0, J, 0, 0), (0, 0, SAT, SAT))),
]
