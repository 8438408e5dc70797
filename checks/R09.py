"""Read noise variance of ramps with charge loss counts the groups flagged only for charge loss."""
from symx.harness import Case

from .rampspec import CHG, DNU, JUMP, LARGE, NATIVE, SAT, Timing, fit, fit_segment, full, grid, ramp, segments, words

BOUNDS = "1 pixel, 2..5 groups, 1..2 integrations with the listed flag combinations; any data, gain and read noise"
ASSUMPTIONS = ["charge-loss groups are also do-not-use, as the code documents", "each integration keeps at least one usable group"]
CL = CHG | DNU


def harness(E, ng, options, ni=1, first=None, rn=None):
    np = E.np
    w = [words(E, f"w{i}_", ng, options, first) for i in range(ni)]
    E.assume(all(any(x == 0 for x in r) and not r[0] & SAT for r in w) and any(x & CHG for r in w for x in r))
    data = E.floats("data", (ni, ng, 1, 1), "f4", lo=-100, hi=100)
    if rn is None:
        rn = E.real("rn", lo=40, hi=80)
    gdq = grid(E, w)
    keep = gdq.copy()
    got = fit(E, ramp(E, data.copy(), gdq.copy(), orig=keep), full(E, rn), full(E, 2.0))
    ref = fit(E, ramp(E, data.copy(), gdq.copy()), full(E, rn), full(E, 2.0))
    for k in ("slope", "dq", "var_poisson"):
        E.same(f"exposure {k} is unaffected", got[0][k], ref[0][k], exact=True)
        E.same(f"integration {k} is unaffected", got[1][k], ref[1][k], exact=True)
    t = Timing()
    total = 0.0
    for i in range(ni):
        cl = any(x & CHG for x in w[i])
        u = [x & ~CL if x & CHG else x for x in w[i]]
        only0 = sum(x == 0 for x in w[i]) == 1 and w[i][0] == 0
        segs = segments(u)
        inv = sum(1.0 / fit_segment(E, [0.0] * ng, s, e, rn, 2.0, 0.0, t, t.one if only0 else t.group).var_r for s, e in segs)
        if cl:
            E.same(f"integration {i} read noise variance", got[1]["var_rnoise"][i, 0, 0], 1.0 / inv)
        else:
            E.same(f"integration {i} read noise variance", got[1]["var_rnoise"][i, 0, 0], ref[1]["var_rnoise"][i, 0, 0])
        total = total + inv
    E.same("exposure read noise variance", got[0]["var_rnoise"][0, 0], 1.0 / total)
    E.same("the original flags are as before", keep, gdq, exact=True)


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, harness, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), **k)


CASES = [
    case("2-groups", ng=2, options=(0, CL)),
    case("3-groups", ng=3, options=(0, CL, JUMP, DNU)),
    case("4-groups", ng=4, options=(0, CL, SAT | CL), first=(0,)),
    case("2-ints", ng=3, ni=2, options=(0, CL), first=(0,), rn=50.0),
    case("5-groups", ng=5, options=(0, CL), first=(0,)),
]
