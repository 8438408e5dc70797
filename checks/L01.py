"""Classic linearity correction: polynomial on usable groups, identity elsewhere, quality flags exact."""
from symx.harness import Case

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "NO_LIN_CORR": 1 << 20}
NOLIN = DQ["NO_LIN_CORR"]
BOUNDS = ("(integrations, groups, rows, cols) up to (2,3,1,2); polynomial degree 1..4 and 8 with symbolic coefficients (any may be NaN, the linear one may be "
          "zero); every reference and group flag word over the listed bits; optional frame-zero image; samples in [-1e5, 1e5]")
ASSUMPTIONS = []


def poly(c, x, y, d):
    """sum of c_k d^k by definition (Horner-free)"""
    r = c[0, y, x]
    p = d
    for k in range(1, c.shape[0]):
        r = r + c[k, y, x] * p
        p = p * d
    return r


def harness(E, shape, deg, zf=False, nanc=True):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-100000, hi=100000)
    gdq = E.bits("gdq", shape, "u1", mask=0x47)
    pdq = E.bits("pdq", (ny, nx), "u4", mask=NOLIN | 1 | 0x100)
    co = E.floats("coeffs", (deg + 1, ny, nx), "f4", lo=-100, hi=100, nan=nanc)
    ldq = E.bits("lindq", (ny, nx), "u4", mask=NOLIN | 1 | 8)
    z = E.floats("zframe", (ni, ny, nx), "f4", lo=-1000, hi=100000) if zf else None
    din, cin, ldin, pin = data.copy(), co.copy(), ldq.copy(), pdq.copy()
    zin = z.copy() if zf else None
    f = E.mod("stcal.linearity.linearity").linearity_correction
    out, p, zo = f(data, gdq, pdq, co, ldq, DQ, zframe=z)
    bad = ((ldin & NOLIN) != 0) | np.any(np.isnan(cin), axis=0) | (cin[1] == 0)
    ident = np.zeros((deg + 1,), dtype=float)
    ident[1] = 1.0
    for y in range(ny):
        for x in range(nx):
            for i in range(ni):
                for g in range(ng):
                    d = din[i, g, y, x]
                    corr = poly(cin, x, y, d)
                    keep = bad[y, x] | ((gdq[i, g, y, x] & 2) != 0)
                    E.same("a usable group gets its pixel's polynomial, a saturated group or unusable pixel keeps its value",
                           out[i, g, y, x], E.ite(keep, d, corr))
                if zf:
                    d = zin[i, y, x]
                    corr = poly(cin, x, y, d)
                    E.same("frame zero is corrected the same way and stays zero where it was zero", zo[i, y, x],
                           E.ite(d == 0, 0.0, E.ite(bad[y, x], d, corr)))
    E.same("pixels that cannot be corrected are flagged, and only those", p, pin | ldin | np.where(bad, NOLIN, 0).astype(np.uint32))
    if not zf:
        E.claim("no frame-zero product invented", zo is None)
    E.cover("bad", bad)
    E.cover("good", ~bad)


CASES = [
    Case("deg1", harness, shape=(1, 2, 1, 2), deg=1),
    Case("deg3", harness, shape=(2, 2, 1, 1), deg=3),
    Case("deg2-zframe", harness, shape=(2, 1, 1, 1), deg=2, zf=True),
    Case("deg4", harness, shape=(1, 3, 1, 1), deg=4),
    Case("deg8", harness, shape=(1, 1, 1, 1), deg=8, nanc=False),
    Case("deg2-two-pixels", harness, shape=(1, 2, 2, 1), deg=2),
    Case("deg4-2x2", harness, shape=(1, 2, 2, 2), deg=4, tier="thorough"),
    Case("deg5", harness, shape=(2, 3, 1, 2), deg=5, tier="thorough"),
    Case("deg4-zframe", harness, shape=(2, 2, 1, 2), deg=4, zf=True, tier="thorough"),
]
