"""The mean pixel area of an image."""
import math

from symx.harness import Case

from .resamplespec import Frame

MOD = "stcal.resample.utils"
BOUNDS = "images of 2x2 to 8x10 and 70x40 pixels, bounding boxes at pixel edges (also beyond the image or in reverse order), up to 2 rows or columns without sky positions on every side; any scale, shift and stretch along the axes, any area of the polygon"
ASSUMPTIONS = ["the spherical polygon is a stand-in: the area enclosed by its points in the plane, or any value", "the sky is stretched along the pixel axes only"]


class Sky:
    """positions stretched along each axis; margins without positions"""

    def __init__(self, np, shape, sx, sy, qx, qy, bbox=None, margin=(0, 0, 0, 0), spectral=False):
        self.np, self.a = np, (sx, sy, qx, qy)
        self.array_shape, self.bounding_box, self.margin = shape, bbox, margin
        self.output_frame = Frame(3, ("SPECTRAL", "SPATIAL", "SPATIAL")) if spectral else Frame()
        self.spectral = spectral
        self.dead = margin

    def __call__(self, x, y):
        np = self.np
        sx, sy, qx, qy = self.a
        ny, nx = self.array_shape
        b, r, t, left = self.dead
        out = (x < left) | (x > nx - 1 - r) | (y < b) | (y > ny - 1 - t)
        ra = np.where(out, np.nan, 100.0 + sx * x + qx * x * x)
        dec = np.where(out, np.nan, 10.0 + sy * y + qy * y * y)
        return (np.where(out, 1.0, 2.0), ra, dec) if self.spectral else (ra, dec)


def make_polygon(seen, area):
    class Poly:
        @staticmethod
        def from_radec(ra, dec, center=None, degrees=True):
            seen.append((ra, dec, center))
            return Poly()

        def area(self):
            ra, dec, _ = seen[-1]
            if area is not None:
                return area
            tot = 0.0
            n = len(ra)
            for k in range(n):
                j = (k + 1) % n
                tot = tot + ra[k] * dec[j] - ra[j] * dec[k]
            return tot / 2

    return Poly


def harness(E, shape, bbox=None, margin=(0, 0, 0, 0), spectral=False, box=None, free=False, given=None, stretch=True, size=None):
    """box: corners (first and last column, row) of the region expected, if it is determined"""
    np = E.np
    m = E.mod(MOD)
    sx, sy = E.real("sx", lo=0.001, hi=0.01), E.real("sy", lo=0.001, hi=0.01)
    qx, qy = (E.real("qx", lo=0, hi=1e-4), E.real("qy", lo=0, hi=1e-4)) if stretch else (0.0, 0.0)
    area = E.real("area", lo=0.001, hi=12.5) if free else None
    w = Sky(np, shape, sx, sy, qx, qy, bbox, margin, spectral)
    seen = []
    if given is not None:
        w.array_shape = shape
    old = m.SphericalPolygon
    m.SphericalPolygon = make_polygon(seen, area)
    try:
        out = m.compute_mean_pixel_area(w) if given is None else m.compute_mean_pixel_area(w, given)
    finally:
        m.SphericalPolygon = old
    E.claim("an area is found", out is not None)
    ra, dec, center = seen[-1]
    E.claim("every position of the outline is known", np.all(np.isfinite(ra)) & np.all(np.isfinite(dec)))
    if box is not None:
        x1, x2, y1, y2 = box
        n = (x2 - x1) * (y2 - y1)
        if free:
            want = np.where(area > 2 * math.pi, 4 * math.pi - area, area) / n
        else:
            want = (sx + qx * (x1 + x2)) * (sy + qy * (y1 + y2))
        E.same("sky area per pixel", out, want, rtol=1e-5, atol=1e-12)
        E.same("centre", E.arr(list(center)), E.arr([100.0 + sx * ((x1 + x2) / 2) + qx * ((x1 + x2) / 2) ** 2, 10.0 + sy * ((y1 + y2) / 2) + qy * ((y1 + y2) / 2) ** 2]), rtol=1e-5)
        a, d = (100.0 + sx * x1 + qx * x1 * x1, 100.0 + sx * x2 + qx * x2 * x2), (10.0 + sy * y1 + qy * y1 * y1, 10.0 + sy * y2 + qy * y2 * y2)
        for k, (u, v) in enumerate(((a[0], d[0]), (a[1], d[0]), (a[1], d[1]), (a[0], d[1]))):
            near = [(np.abs(ra[i] - u) < 1e-6) & (np.abs(dec[i] - v) < 1e-6) for i in range(len(ra))]
            any_ = near[0]
            for q in near[1:]:
                any_ = any_ | q
            E.claim(f"corner {k} is part of the outline", any_)
    elif stretch is False:
        E.same("sky area per pixel", out, sx * sy, rtol=1e-5, atol=1e-12)


def nothing(E, shape, bbox=None, dead=(0, 0, 0, 0)):
    np = E.np
    m = E.mod(MOD)
    w = Sky(np, shape, E.real("sx", lo=0.001, hi=0.01), E.real("sy", lo=0.001, hi=0.01), 0.0, 0.0, bbox, dead)
    seen = []
    old = m.SphericalPolygon
    m.SphericalPolygon = make_polygon(seen, None)
    try:
        out = m.compute_mean_pixel_area(w)
    finally:
        m.SphericalPolygon = old
    E.claim("no area", out is None)


def shapeless(E):
    w = Sky(E.np, (3, 3), E.real("sx", lo=0.001, hi=0.01), 1.0, 0.0, 0.0)
    w.array_shape = None
    err = None
    try:
        E.mod(MOD).compute_mean_pixel_area(w)
    except ValueError as e:
        err = e
    E.claim("refused", err is not None)


CASES = [
    Case("whole", harness, shape=(5, 7), box=(0, 6, 0, 4)),
    Case("smallest", harness, shape=(2, 2), box=(0, 1, 0, 1)),
    Case("large", harness, shape=(40, 70), box=(0, 69, 0, 39), query_ms=20000),
    Case("box", harness, shape=(8, 10), bbox=((1.5, 7.5), (0.5, 5.5)), box=(2, 7, 1, 5)),
    Case("box-beyond", harness, shape=(6, 5), bbox=((-3.5, 20.5), (-0.5, 4.5)), box=(0, 4, 0, 4)),
    Case("box-reversed", harness, shape=(6, 6), bbox=((4.5, 0.5), (5.5, 1.5)), box=(1, 4, 2, 5)),
    Case("shape-given", harness, shape=(6, 6), given=(4, 5), box=(0, 4, 0, 3)),
    Case("spectral", harness, shape=(4, 4), spectral=True, box=(0, 3, 0, 3)),
    Case("any-area", harness, shape=(4, 6), free=True, box=(0, 5, 0, 3)),
    Case("bottom", harness, shape=(8, 8), margin=(1, 0, 0, 0), stretch=False),
    Case("right", harness, shape=(8, 8), margin=(0, 2, 0, 0), stretch=False),
    Case("top", harness, shape=(8, 8), margin=(0, 0, 2, 0), stretch=False),
    Case("left", harness, shape=(8, 8), margin=(0, 0, 0, 1), stretch=False),
    Case("all-sides", harness, shape=(8, 8), margin=(1, 2, 1, 1), stretch=False),
    Case("no-sky", nothing, shape=(5, 5), dead=(3, 0, 3, 0)),
    Case("line", nothing, shape=(1, 5)),
    Case("empty-box", nothing, shape=(6, 6), bbox=((7.5, 9.5), (0.5, 3.5))),
    Case("no-shape", shapeless),
]
