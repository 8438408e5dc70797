"""Pixel scale of a mapping at a position: step of one pixel along each detector axis, measured on the sky."""
from symx.harness import Case

BOUNDS = "linear mappings with any coefficients in [-50, 50] and any reference pixel in [-100, 100]; a sky metric that tells longitude from latitude; frames (ra, dec) and (ra, dec, wavelength)"
ASSUMPTIONS = ["angular separation is an even distance function of the coordinate differences (here |dlon| + 3 |dlat|)",
               "the spatial axes come first in a spectral frame, as in the pipelines that use the package"]


class Sep:
    def __init__(self, value):
        self.value = value


class Coord:
    def __init__(self, ra, dec, unit):
        assert unit == "deg"
        self.ra, self.dec = ra, dec

    def __getitem__(self, i):
        return Coord(self.ra[i], self.dec[i], "deg")

    def separation(self, o):
        return Sep(abs(self.ra - o.ra) + 3 * abs(self.dec - o.dec))


class CoordMod:
    SkyCoord = Coord


class Frame:
    def __init__(self, types):
        self.axes_type = types


class LinWcs:
    def __init__(self, E, pix, A, types, world):
        self.E, self.pix, self.A, self.world = E, pix, A, world
        self.output_frame = Frame(types)
        self.calls = []

    def invert(self, *w, with_bounding_box=True):
        self.calls.append((w, with_bounding_box))
        return tuple(self.pix)

    def __call__(self, *p, with_bounding_box=True):
        self.calls.append(with_bounding_box)
        return tuple(self.A[i][0] * p[0] + self.A[i][1] * p[1] for i in range(len(self.A)))


def scale(E, types=("SPATIAL", "SPATIAL"), disp=None, ratio=False):
    U = E.mod("stcal.alignment.util")
    n = len(types)
    pix = E.floats("pix", (2,), "f8", lo=-100, hi=100)
    A = E.floats("A", (n, 2), "f8", lo=-50, hi=50)
    world = tuple(float(10 + i) for i in range(n))
    k = E.real("ratio", 0.125, 4) if ratio else None
    w = LinWcs(E, [pix[0], pix[1]], [[A[i, 0], A[i, 1]] for i in range(n)], types, world)
    keep = U.coord
    U.coord = CoordMod
    try:
        got = U.compute_scale(w, world, disp_axis=disp, pscale_ratio=k)
    except ValueError:
        E.claim("refused only for a spectral mapping without dispersion axis", n == 3 and disp is None)
        return
    finally:
        U.coord = keep
    E.claim("refused for a spectral mapping without dispersion axis", not (n == 3 and disp is None))
    E.claim("evaluated at the given position, outside the bounding box too", w.calls == [(world, False), False])
    r = k if ratio else 1
    xs = (abs(A[0, 0]) + 3 * abs(A[1, 0])) * r
    ys = (abs(A[0, 1]) + 3 * abs(A[1, 1])) * r
    if n == 3:
        E.same("step along the cross-dispersion axis", got, ys if disp == 1 else xs, rtol=1e-9, atol=1e-9)
    else:
        E.claim("not negative", got >= 0)
        E.same("geometric mean of the steps along x and y", got * got, xs * ys, rtol=1e-9, atol=1e-9)


SPEC = ("SPATIAL", "SPATIAL", "SPECTRAL")
CASES = [Case("imaging", scale, query_ms=5000), Case("imaging ratio", scale, query_ms=5000, ratio=True)] + [
    Case(f"spectral disp {d} {'ratio' if r else ''}".strip(), scale, types=SPEC, disp=d, ratio=r, query_ms=5000)
    for d in (None, 1, 2) for r in (False, True)]
