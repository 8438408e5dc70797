"""Stand-ins for the geometry of sky images: rows of pixels at whole-pixel positions."""
import types

import numpy as real_np


class Rect:
    """region of the sky covered by columns x0..x1 (inclusive, one row or more)"""

    def __init__(self, x0, x1, ny):
        self.x0, self.x1, self.ny = x0, x1, ny

    def area(self):
        return -float(max(0, self.x1 - self.x0 + 1) * self.ny)     # sign as it comes

    def intersection(self, o):
        return Rect(max(self.x0, o.x0), min(self.x1, o.x1), self.ny)

    def to_radec(self):
        if self.x1 < self.x0:
            return iter([])
        assert self.x1 > self.x0 and self.ny > 1, "the real polygon filling needs two pixels each way"
        a, b = float(self.x0), float(self.x1)
        c, d = 0.0, self.ny - 1.0
        return iter([(real_np.array([a, b, b, a, a]), real_np.array([c, c, d, d, c])), (real_np.array([a, b]), real_np.array([c, d]))])

    def copy(self):
        return Rect(self.x0, self.x1, self.ny)


def mean_of(np):
    def stat(data):
        if data.size < 1:
            raise ValueError("no data")
        return data.mean(), data.size
    return stat


def build(E, sizes, starts, masks=None, ny=2, sky0=True, lo=-50, hi=50, nan=False):
    """images of ny x sizes[k] pixels, beginning at column starts[k]"""
    np = E.np
    S = E.mod("stcal.skymatch.skyimage")

    class Mine(S.SkyImage):
        def __init__(self, k, data, mask, x0):
            self.image, self.mask, self.sky_id, self.meta = data, mask, f"i{k}", None
            self.sky = 0.0
            self.is_sky_valid = False
            self._polygon = Rect(x0, x0 + data.shape[1] - 1, ny)
            self._poly_area = real_np.fabs(self._polygon.area())
            self.skystat = mean_of(np)
            self._wcs_inv = lambda ra, dec, with_bounding_box: (ra - x0, dec)

    out = []
    for k, (n, x0) in enumerate(zip(sizes, starts)):
        data = E.floats(f"im{k}", (ny, n), "f8", lo=lo, hi=hi, nan=nan)
        m = (masks or {}).get(k, [[True] * n] * ny)
        m = np.array(m if len(m) == ny else m * ny, dtype=bool)
        im = Mine(k, data, m, x0)
        if sky0:
            im.sky = E.real(f"sky{k}", lo=-5, hi=5)
        out.append(im)
    return out


def pixels(im, other=None):
    """unmasked pixels of the image (inside the other image)"""
    keep = []
    mask = real_np.array([[bool(v) for v in row] for row in im.mask])
    for y in range(im.image.shape[0]):
        for x in range(im.image.shape[1]):
            if mask[y, x] and (other is None or other._polygon.x0 <= x + im._polygon.x0 <= other._polygon.x1):
                keep.append((y, x))
    return keep


def mean_over(im, data, px):
    s = 0.0
    for p in px:
        s = s + data[p]
    return s / len(px)


class Polygon:
    """gwcs.region.Polygon (the real scan, on concrete vertices)"""

    def __init__(self, rid, vertices):
        from gwcs import region

        self.p = region.Polygon(rid, [(float(a), float(b)) for a, b in vertices])

    def scan(self, mask):
        from symx import arr as A

        return A.from_np(self.p.scan(A.lift(mask).to_np()))


def shims():
    g = types.ModuleType("gwcs")
    g.region = types.ModuleType("gwcs.region")
    g.region.Polygon = Polygon
    return {"gwcs": g, "gwcs.region": g.region}
