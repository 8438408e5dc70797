"""Read-level linearity correction: count rate from first/last safe groups, exact reconstruction, no tiling effect."""
import inspect

from symx.harness import Case

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "NO_LIN_CORR": 1 << 20}
NOLIN = DQ["NO_LIN_CORR"]
BOUNDS = ("2..5 groups x up to 3 rows x 1 column, the listed read patterns, linearity and inverse polynomials of degree 1..2 with symbolic coefficients, "
          "optional saturation cap and additional correction, all saturation flag patterns; tiles of 1, 2 and 3 rows against the whole; two integrations of two pixels, the coefficients of one unusable in either direction, with and without frame zero")
ASSUMPTIONS = ["at least two groups", "the additional correction acts on each read value alone"]
PATTERNS = {
    "mixed": [[1], [2, 3], [4], [5, 6]],
    "two": [[1, 2], [3, 4]],
    "three": [[1], [2, 3], [4, 5, 6]],
    "uneven": [[1, 4], [5, 6, 12], [13], [14, 20]],
    "five": [[1], [2], [3, 4], [5], [6, 7]],
}


def ev(c, v):
    r = c[-1]
    for k in range(len(c) - 2, -1, -1):
        r = r * v + c[k]
    return r


def minimum(E, a, b):
    return E.ite(b < a, b, a)


def harness(E, ng, pattern, deg, ideg, cap=False, extra=False):
    np = E.np
    rp = [list(x) for x in PATTERNS[pattern][:ng]]
    data = E.floats("data", (1, ng, 1, 1), "f8", lo=0, hi=60000)
    flags = E.bools("sat", (ng,))
    sat = [bool(flags[g]) for g in range(ng)]  # one path per flag pattern
    gdq = np.zeros((1, ng, 1, 1), dtype=np.uint8)
    gdq[0, :, 0, 0] = [2 if s else 0 for s in sat]
    co = E.floats("c", (deg + 1, 1, 1), "f8", lo=-2, hi=2)
    ic = E.floats("ic", (ideg + 1, 1, 1), "f8", lo=-2, hi=2)
    E.assume(co[1, 0, 0] != 0)
    E.assume(ic[1, 0, 0] != 0)
    sv = E.floats("satval", (1, 1), "f8", lo=1000, hi=60000) if cap else None
    extra_f = (lambda v: v * 0.25 + 3.0) if extra else None
    pdq, ldq = np.zeros((1, 1), dtype=np.uint32), np.zeros((1, 1), dtype=np.uint32)
    d = [data[0, g, 0, 0] for g in range(ng)]
    c = [co[k, 0, 0] for k in range(deg + 1)]
    q = [ic[k, 0, 0] for k in range(ideg + 1)]
    svv = sv[0, 0] if cap else None
    f = E.mod("stcal.linearity.linearity").linearity_correction
    out, p, z = f(data, gdq, pdq, co, ldq, DQ, ilin_coeffs=ic, additional_correction=extra_f, read_pattern=rp, satval=sv)
    mean = [sum(r) / len(r) for r in rp]
    lin = [d[g] if sat[g] else ev(c, d[g]) for g in range(ng)]
    # last group safely below saturation: one before the last unsaturated one, but at least the second group
    last = max(sum(1 for s in sat if not s) - 1, 2) - 1
    rate = (lin[last] - lin[0]) / (mean[last] - mean[0])
    for g in range(ng):
        reads = [ev(q, lin[0] + rate * (r - mean[0])) for r in rp[g]]
        off = d[g] - sum(reads, 0.0) / len(reads)
        vals = []
        for u in reads:
            u = u + off
            if extra:
                u = u + extra_f(u)
            if cap:
                u = minimum(E, u, 1.2 * svv)
            vals.append(ev(c, u))
        E.same(f"group {g}: mean of its individually linearised reads, or unchanged when saturated",
               out[0, g, 0, 0], d[g] if sat[g] else sum(vals, 0.0) / len(vals))
    E.cover("sat", flags)


def reconstruct(rp, d, sat, c, q):
    """the groups of one pixel, corrected read by read"""
    mean = [sum(r) / len(r) for r in rp]
    lin = [d[g] if sat[g] else ev(c, d[g]) for g in range(len(rp))]
    last = max(sum(1 for s in sat if not s) - 1, 2) - 1
    rate = (lin[last] - lin[0]) / (mean[last] - mean[0])
    out = []
    for g, r in enumerate(rp):
        if sat[g]:
            out.append(d[g])
            continue
        reads = [ev(q, lin[0] + rate * (t - mean[0])) for t in r]
        off = d[g] - sum(reads, 0.0) / len(reads)
        out.append(sum([ev(c, u + off) for u in reads], 0.0) / len(reads))
    return out


def harness_pixels(E, zero=False):
    """coefficients that cannot be used, in either direction: that direction is the identity and the pixel is marked"""
    np = E.np
    rp = PATTERNS["three"]
    ni, ng, nx = 2, 3, 2
    data = E.floats("data", (ni, ng, 1, nx), "f8", lo=0, hi=60000)
    gdq = np.zeros((ni, ng, 1, nx), dtype=np.uint8)
    sat = {}
    for i in range(ni):
        for x in range(nx):
            w = E.pick(f"saturated from {i}{x}", (3, 2) if (i, x) == (1, 1) and not zero else (3,))
            sat[i, x] = [g >= w for g in range(ng)]
            gdq[i, :, 0, x] = [2 if v else 0 for v in sat[i, x]]
    nan = float("nan")
    good = [[0.5, 1.25, 0.25], [-1.0, 0.75, 0.5]]
    inv = [[1.0, 0.5, 0.125], [0.25, 1.5, -0.5]]
    bad = {"nan": [1.0, 1.5, nan], "zero": [1.0, 0.0, 0.5]}
    # pixel 0 may be unusable, pixel 1 is always fine
    kind = E.pick("coefficients", ("fine", "nan", "zero"))
    ikind = E.pick("inverse coefficients", ("fine", "nan") if zero else ("fine", "nan", "zero"))
    flag = E.pick("reference flags", (0,) if zero else (0, NOLIN, 4))
    co, ic = np.zeros((3, 1, nx)), np.zeros((3, 1, nx))
    for x in range(nx):
        co[:, 0, x] = good[x] if x or kind == "fine" else bad[kind]
        ic[:, 0, x] = inv[x] if x or ikind == "fine" else bad[ikind]
    ldq = np.array([[flag, 1]], dtype=np.uint32)
    pdq = E.bits("pdq", (1, nx), "u4", mask=NOLIN | 1)
    p0, d0 = pdq.copy(), data.copy()
    zf = E.floats("zframe", (ni, 1, nx), "f8", lo=-10, hi=60000) if zero else None
    z0 = zf.copy() if zero else None
    f = E.mod("stcal.linearity.linearity").linearity_correction
    out, p, z = f(data, gdq, pdq, co, ldq, DQ, zframe=zf, ilin_coeffs=ic, read_pattern=[list(r) for r in rp])
    one = [0.0, 1.0, 0.0]
    cs = [one if kind != "fine" or flag & NOLIN else good[0], good[1]]
    qs = [one if ikind != "fine" or flag & NOLIN else inv[0], inv[1]]
    for i in range(ni):
        for x in range(nx):
            want = reconstruct(rp, [d0[i, g, 0, x] for g in range(ng)], sat[i, x], cs[x], qs[x])
            for g in range(ng):
                E.same("every pixel with its own coefficients, those that cannot be used left out", out[i, g, 0, x], want[g])
            if zero:
                v = z0[i, 0, x]
                E.same("frame zero with the polynomial, zeros kept", z[i, 0, x], E.ite(v == 0, 0.0, ev(cs[x], v)))
    gain = [NOLIN if kind != "fine" or ikind != "fine" else 0, 0]
    E.same("pixel flags: reference flags, and no correction where either polynomial is unusable", p,
           p0 | ldq | np.array([gain], dtype=np.uint32), exact=True)


def harness_tiles(E, ny, ng, tiles):
    """a row's result does not depend on which rows are processed with it"""
    np = E.np
    m = E.mod("stcal.linearity.linearity")
    rp = [list(x) for x in PATTERNS["three"][:ng]]
    shape = (ng, ny, 1)
    data = E.floats("data", shape, "f8", lo=0, hi=60000)
    gdq = E.bits("gdq", shape, "u1", mask=3)
    co = E.floats("c", (2, ny, 1), "f8", lo=0.5, hi=2)
    ic = E.floats("ic", (2, ny, 1), "f8", lo=0.5, hi=2)
    sv = E.floats("satval", (ny, 1), "f8", lo=1000, hi=60000)
    kw = {}
    whole = {}
    f = m.linearity_correction_int
    has_tile = "tile_rows" in inspect.signature(f).parameters
    single = []
    for y in range(ny):
        s = slice(y, y + 1)
        single.append(f(data[:, s].copy(), gdq[:, s], co[:, s], DQ, ilin_coeffs=ic[:, s], read_pattern=rp, satval=sv[s]))
    for t in tiles:
        kw = {"tile_rows": t} if has_tile else {}
        r = f(data.copy(), gdq, co, DQ, ilin_coeffs=ic, read_pattern=rp, satval=sv, **kw)
        for y in range(ny):
            E.same(f"row {y} is the same alone and among the others", r[:, y], single[y][:, 0])


CASES = [
    Case("two-groups", harness, ng=2, pattern="two", deg=2, ideg=2),
    Case("three-groups", harness, ng=3, pattern="three", deg=1, ideg=2),
    Case("four-groups", harness, ng=4, pattern="mixed", deg=2, ideg=1),
    Case("uneven", harness, ng=4, pattern="uneven", deg=2, ideg=1),
    Case("cap", harness, ng=3, pattern="three", deg=2, ideg=1, cap=True),
    Case("extra", harness, ng=3, pattern="three", deg=2, ideg=1, extra=True, cap=True),
    Case("five-groups", harness, ng=5, pattern="five", deg=1, ideg=1),
    Case("pixels", harness_pixels),
    Case("pixels-zero-frame", harness_pixels, zero=True),
    Case("tiles", harness_tiles, ny=3, ng=3, tiles=(1, 2, 3)),
    Case("four-deg3", harness, ng=4, pattern="mixed", deg=3, ideg=3, cap=True, tier="thorough"),
    Case("tiles5", harness_tiles, ny=5, ng=3, tiles=(1, 2, 3, 4, 5, 64), tier="thorough"),
]
