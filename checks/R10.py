"""Optional results: per-segment fits, jump heights and pedestals."""
from symx.harness import Case

from .rampspec import DNU, JUMP, NATIVE, SAT, Timing, fit, fit_pixel, full, grid, not_nan, ramp, words

BOUNDS = "1 pixel, 2..5 groups, 1..2 integrations with the listed flag combinations; any data, fixed gain and read noise, dark current in [0, 10]"
ASSUMPTIONS = []


def harness(E, ng, options, ni=1, first=None, drop=None, lo=-1000, hi=60000):
    np = E.np
    w = [words(E, f"w{i}_", ng, options, first) for i in range(ni)]
    data = E.floats("data", (ni, ng, 1, 1), "f4", lo=lo, hi=hi)
    dark = E.real("dark", lo=0, hi=10)
    meta = dict(drop_frames1=drop)
    image, integ, opt = fit(E, ramp(E, data.copy(), grid(E, w), dark=full(E, dark), meta=meta), full(E, 8.0), full(E, 2.0), opt=True)
    if image is None:
        E.claim("only an exposure saturated throughout gives no result", all(x[0] & SAT for x in w))
        return
    ref = fit_pixel(E, [[data[i, g, 0, 0] for g in range(ng)] for i in range(ni)], w, 0, 8.0, 2.0, dark, meta=meta)
    t = Timing(meta)
    nseg = opt["slope"].shape[1]
    for i, o in enumerate(ref.ints):
        E.claim("room for every segment", nseg >= len(o.segs))
        for k in range(min(nseg, len(o.segs))):
            g = o.segs[k]
            for key, v in (("slope", g.slope), ("var_poisson", g.var_p), ("var_rnoise", g.var_r), ("sigslope", g.sigslope), ("yint", g.yint),
                           ("sigyint", g.sigyint), ("weights", 1.0 / g.var_r)):
                if v is not None:
                    E.same(f"integration {i} segment {k} {key}", opt[key][i, k, 0, 0], v, rtol=1e-3, atol=1e-3)
        for k in range(len(o.segs), nseg):
            E.same(f"integration {i} no segment {k}", opt["slope"][i, k, 0, 0], 0.0)
        js = [g for g in range(1, ng) if w[i][g] & JUMP]
        for k, g in enumerate(js):
            d = float("nan") if (w[i][g] | w[i][g - 1]) & SAT else data[i, g, 0, 0] - data[i, g - 1, 0, 0]
            E.same(f"integration {i} jump {k} height", opt["crmag"][i, k, 0, 0], d)
        for k in range(len(js), opt["crmag"].shape[1]):
            E.same(f"integration {i} no jump {k}", opt["crmag"][i, k, 0, 0], 0.0)
        if o.ped_sat or w[i][0] & SAT or o.slope != o.slope and not hasattr(o.slope, "dtype"):
            ped = 0.0
        else:
            ped = o.first - o.slope * E.const(t.ped)
        E.same(f"integration {i} pedestal", opt["pedestal"][i, 0, 0], ped, rtol=1e-3, atol=1e-2)
    E.cover("slope", not_nan(E, image["slope"][0, 0]))


def case(name, **k):
    t = k.pop("tier", "quick")
    return Case(name, harness, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 6000), **k)


CASES = [
    case("2-groups", ng=2, options=(0, DNU, SAT, JUMP)),
    case("3-groups", ng=3, options=(0, DNU, JUMP, SAT), drop=1),
    case("4-groups", ng=4, options=(0, JUMP), first=(0,)),
    case("5-groups", ng=5, options=(0, JUMP), first=(0,), lo=-50, hi=50),
    case("2-ints", ng=3, ni=2, options=(0, JUMP), first=(0,), lo=-50, hi=50),
    case("1-group", ng=1, ni=2, options=(0, SAT)),
]
