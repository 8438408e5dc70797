"""MIRI: leading and final groups that are do-not-use everywhere are dropped before fitting."""
from symx.harness import Case

from .R06 import compare_all, copies
from .rampspec import DNU, JUMP, NATIVE, SAT, fit, full, ramp, words

BOUNDS = "2 pixels, 2..5 groups, 1..2 integrations, listed flag combinations, any data"
ASSUMPTIONS = []


def harness(E, ng, options, lead, last, ni=1, orig=False):
    np = E.np
    shape = (ni, ng, 1, 2)
    data = E.floats("data", shape, "f4", lo=-100, hi=100)
    gdq = np.zeros(shape, dtype=np.uint8)
    for i in range(ni):
        for g in range(ng):
            for x in range(2):
                gdq[i, g, 0, x] = DNU if g < lead or (last and g == ng - 1) else (E.pick(f"w{i}_{g}_{x}", list(options)) if x == 0 else (JUMP if g == lead else 0))
    og = (gdq | 128) if orig else None
    r = ramp(E, data.copy(), gdq.copy(), name="MIRI", orig=None if og is None else og.copy())
    got = fit(E, r, full(E, 20.0, (1, 2)), full(E, 2.0, (1, 2)))
    stop = ng - 1 if last else ng
    if stop - lead < 2:
        E.claim("fewer than two groups are not fitted", got[0] is None and got[1] is None)
        return
    kept = gdq[:, lead:stop].copy()
    if lead:
        kept[:, 0] = kept[:, 0] & (255 - JUMP)
    want = fit(E, ramp(E, data[:, lead:stop].copy(), kept, orig=None if og is None else og[:, lead:stop].copy()), full(E, 20.0, (1, 2)), full(E, 2.0, (1, 2)))
    E.claim("a result is given in both cases", (got[0] is None) == (want[0] is None))
    if want[0] is not None and got[0] is not None:
        compare_all(E, "after dropping", got, want)
    E.cover("result", got[0] is not None)


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, harness, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), **k)


CASES = [
    case("first", ng=3, options=(0, JUMP, SAT), lead=1, last=False),
    case("last", ng=3, options=(0, JUMP, DNU), lead=0, last=True),
    case("both", ng=4, options=(0, JUMP), lead=1, last=True),
    case("two-leading", ng=5, options=(0, JUMP), lead=2, last=True),
    case("none", ng=2, options=(0, JUMP), lead=0, last=False),
    case("too-few", ng=2, options=(0, JUMP), lead=1, last=False),
    case("all", ng=2, options=(0,), lead=2, last=False),
    case("2-ints", ng=3, ni=2, options=(0, JUMP), lead=1, last=False),
]
