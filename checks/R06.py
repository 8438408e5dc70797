"""Each pixel is fitted on its own: image size, row slices and memory layout do not matter."""
from symx.harness import Case

from .J05 import Serial
from .rampspec import DNU, JUMP, KEYS, NATIVE, PERS, SAT, fit, ramp

BOUNDS = ("images of 3..5 rows x 1..2 columns, 2..3 groups, 1..2 integrations, listed flag patterns; all data, frame-zero values and pixel flag words; "
          "2..4 slices; worker processes run one after the other with copied arguments")
ASSUMPTIONS = []
OPT = ("slope", "sigslope", "var_poisson", "var_rnoise", "yint", "sigyint", "pedestal", "weights", "crmag")


def inputs(E, shape, pattern, zframe, suppress, orig):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-100, hi=100)
    gdq = np.zeros(shape, dtype=np.uint8)
    for i in range(ni):
        for y in range(ny):
            for x in range(nx):
                for g, w in enumerate(pattern[(i * ny * nx + y * nx + x) % len(pattern)]):
                    gdq[i, g, y, x] = w
    pdq = E.bits("pdq", (ny, nx), "u4", mask=0xFF000008)
    zf = E.floats("zframe", (ni, ny, nx), "f4", lo=1, hi=100) if zframe else None
    gain = np.full((ny, nx), 2.0, dtype=np.float32)
    rn = np.full((ny, nx), 10.0, dtype=np.float32)
    for y in range(ny):
        gain[y] = 1.5 + y
        rn[y] = 40.0 + y
    dark = E.floats("dark", (ny, nx), "f4", lo=0, hi=1)
    og = None
    if orig:
        og = gdq.copy()
        gdq = gdq | ((gdq >> 7) & 1)
    return dict(data=data, gdq=gdq, pdq=pdq, dark=dark, zeroframe=zf, orig=og, suppress=suppress), rn, gain


def copies(d, f):
    return {k: f(v) if hasattr(v, "ndim") else v for k, v in d.items()}


def part(d, rows, cols):
    def cut(v):
        return v[..., rows, cols].copy()
    return copies(d, cut)


def compare_all(E, what, got, want, opt=False, crop=None):
    for prod, g, w, keys in (("exposure", got[0], want[0], KEYS), ("integration", got[1], want[1], KEYS)) + ((("optional", got[2], want[2], OPT),) if opt else ()):
        for k in keys:
            b = w[k] if crop is None else w[k][..., crop[0], crop[1]]
            E.same(f"{what}: {prod} {k}", g[k], b, exact=True)


def run(E, d, rn, gain, opt, cores="none"):
    return fit(E, ramp(E, **d), rn, gain, opt, cores)


def slices(E, shape, pattern, n, zframe=False, suppress=False, orig=False, opt=False):
    d, rn, gain = inputs(E, shape, pattern, zframe, suppress, orig)
    m = E.mod("stcal.ramp_fitting.ols_fit")
    real = m.multiprocessing, m.cpu_count
    m.multiprocessing = s = Serial(16)
    m.cpu_count = s.cpu_count
    try:
        ref = run(E, copies(d, lambda v: v.copy()), rn.copy(), gain.copy(), opt)
        for k in n:
            res = run(E, copies(d, lambda v: v.copy()), rn.copy(), gain.copy(), opt, str(k))
            E.claim(f"{k} slices give a result like one", (res[0] is None) == (ref[0] is None))
            if ref[0] is not None and res[0] is not None:
                compare_all(E, f"{k} slices", res, ref, opt)
    finally:
        m.multiprocessing, m.cpu_count = real


def alone(E, shape, pattern, zframe=False, suppress=False, orig=False):
    """every pixel fitted in an image of its own (beside an ordinary pixel) gives the same values"""
    d, rn, gain = inputs(E, shape, pattern, zframe, suppress, orig)
    ref = run(E, copies(d, lambda v: v.copy()), rn.copy(), gain.copy(), False)
    ny, nx = shape[2:]
    for y in range(ny):
        for x in range(nx):
            r, c = slice(y, y + 1), slice(x, x + 1)
            res = run(E, part(d, r, c), rn[r, c].copy(), gain[r, c].copy(), False)
            if res[0] is None:
                E.claim("a pixel without a result is saturated", bool(E.np.all(d["gdq"][:, 0, y, x] & SAT)))
                continue
            compare_all(E, f"pixel {y},{x}", res, ref, crop=(r, c))


def layout(E, shape, pattern, how, zframe=False, suppress=False, orig=False):
    """byte order and strides of the inputs do not matter"""
    np = E.np
    d, rn, gain = inputs(E, shape, pattern, zframe, suppress, orig)
    ref = run(E, copies(d, lambda v: v.copy()), rn.copy(), gain.copy(), False)
    if how == "big-endian":
        def f(v):
            return v.astype(v.dtype.newbyteorder(">"))
    else:
        def f(v):
            n = v.ndim
            w = np.zeros(v.shape[:-2] + (2 * v.shape[-1], 2 * v.shape[-2]), dtype=v.dtype)
            u = w[..., ::2, ::-2] if n else w
            u = np.swapaxes(u, -1, -2)
            u[...] = v
            return u
    rn2, gain2 = f(rn), f(gain)
    res = run(E, copies(d, f), rn2, gain2, False)
    compare_all(E, how, res, ref)
    E.same("the read noise array is as before", rn2, rn, exact=True)
    E.same("the gain array is as before", gain2, gain, exact=True)


G3 = ((0, 0, 0), (0, JUMP, 0), (0, 0, SAT), (SAT, SAT, SAT), (DNU, 0, 0), (DNU, DNU, DNU), (0, SAT, SAT))
G2 = ((0, 0), (0, SAT), (SAT, SAT), (DNU, 0), (0, JUMP), (PERS, 0))


def case(name, fn, **k):
    t = k.pop("tier", "quick")
    return Case(name, fn, tier=t, native=NATIVE, query_ms=k.pop("query_ms", 4000), **k)


CASES = [
    case("slices", slices, shape=(1, 3, 4, 1), pattern=G3[:4], n=(2, 3)),
    case("slices-2-ints", slices, shape=(2, 2, 3, 1), pattern=G2, n=(2, 3)),
    case("slices-zframe", slices, shape=(1, 2, 3, 1), pattern=G2, n=(2, 3), zframe=True),
    case("slices-suppress", slices, shape=(1, 2, 3, 1), pattern=((0, 0), (DNU, DNU), (0, 0)), n=(2, 3), zframe=True, suppress=True),
    case("slices-opt", slices, shape=(1, 3, 3, 1), pattern=((0, JUMP, 0), (0, 0, 0), (JUMP, JUMP, 0)), n=(2, 3), opt=True),
    case("slices-chargeloss", slices, shape=(1, 3, 2, 1), pattern=((0, 128, 0), (0, 0, 0)), n=(2,), orig=True),
    case("slices-saturated-row", slices, shape=(1, 2, 3, 1), pattern=((SAT, SAT), (0, 0), (SAT, SAT)), n=(2, 3)),
    case("alone", alone, shape=(1, 3, 2, 2), pattern=G3[:4]),
    case("alone-2-ints", alone, shape=(2, 2, 1, 3), pattern=G2),
    case("alone-order", alone, shape=(1, 2, 3, 2), pattern=((SAT, SAT), (0, 0), (DNU, DNU), (JUMP, 0), (0, SAT)), zframe=True),
    case("big-endian", layout, shape=(1, 2, 2, 2), pattern=G2, how="big-endian"),
    case("big-endian-zframe", layout, shape=(1, 2, 2, 1), pattern=((0, 0), (SAT, SAT)), how="big-endian", zframe=True),
    case("strided", layout, shape=(2, 2, 2, 1), pattern=G2, how="strided"),
    case("strided-wide", layout, shape=(1, 2, 2, 3), pattern=G2, how="strided"),
    case("alone-2-ints-large", alone, shape=(2, 2, 2, 2), pattern=G2, tier="thorough"),
    case("strided-zframe", layout, shape=(1, 2, 2, 2), pattern=G2, how="strided", zframe=True),
]
