"""Stand-ins shared by the resampling checks: a shift/scale WCS (used in both worlds) and the drizzle coaddition for whole-pixel maps (symbolic world only)."""
import types

import numpy as _np

from symx import arr as A
from symx import npproxy


class Frame:
    def __init__(self, naxes=2, axes_type=("SPATIAL", "SPATIAL")):
        self.naxes, self.axes_type = naxes, axes_type


class Wcs:
    """world = scale * pixel + offset per axis; outside its bounding box everything is missing, as with gwcs (unless blank is false)"""

    def __init__(self, np, scale=(1, 1), offset=(0, 0), shape=None, bbox=None, axes=("SPATIAL", "SPATIAL"), fail=None, blank=True):
        self.np, self.scale, self.offset, self.fail, self.blank = np, scale, offset, fail, blank
        self.array_shape = shape
        self.pixel_shape = None if shape is None else shape[::-1]
        self.bounding_box = bbox
        self.output_frame = Frame(len(axes), axes)
        self.calls = []

    def _mask(self, v, x, y):
        np = self.np
        if self.bounding_box is None or not self.blank:
            return v
        (x1, x2), (y1, y2) = self.bounding_box
        out = (x < x1) | (x > x2) | (y < y1) | (y > y2)
        return [np.where(out, np.nan, a) for a in v]

    def pixel_to_world_values(self, x, y):
        if self.fail == "from":
            raise RuntimeError("no solution")
        return self._mask([x * self.scale[0] + self.offset[0], y * self.scale[1] + self.offset[1]], x, y)

    def world_to_pixel_values(self, a, b):
        if self.fail == "to":
            raise RuntimeError("no solution")
        x, y = (a - self.offset[0]) / self.scale[0], (b - self.offset[1]) / self.scale[1]
        return self._mask([x, y], x, y)

    __call__ = pixel_to_world_values


class Drizzle:
    """Coaddition of drizzle.resample.Drizzle for maps onto whole output pixels, pixfrac 1"""

    def __init__(self, kernel="square", fillval=None, out_shape=None, out_img=None, out_wht=None, out_ctx=None, out_dq=None,
                 exptime=0.0, begin_ctx_id=0, max_ctx_id=None, disable_ctx=False, **k):
        np = npproxy.NP
        assert kernel == "square" and out_img is None and out_wht is None and out_ctx is None and out_dq is None and not k
        assert not isinstance(exptime, A.SymArray) and exptime == 0.0 and begin_ctx_id == 0
        self.shape = tuple(out_shape)
        fv = float("nan") if isinstance(fillval, str) and fillval.upper() in ("INDEF", "NAN") else float(fillval)
        self.out_img = np.full(self.shape, fv, dtype=np.float32)
        self.out_wht = np.zeros(self.shape, dtype=np.float32)
        self.out_ctx = None if disable_ctx else np.zeros(((max_ctx_id or 0) // 32 + 1,) + self.shape, dtype=np.int32)
        self.out_dq = None
        self.n = 0

    def add_image(self, data, exptime, pixmap, dq=None, iscale=1.0, pixel_scale_ratio=1.0, weight_map=None, wht_scale=1.0,
                  pixfrac=1.0, in_units="cps", xmin=None, xmax=None, ymin=None, ymax=None):
        np = npproxy.NP
        assert pixfrac == 1.0 and in_units == "cps" and wht_scale == 1.0 and data.shape == weight_map.shape == pixmap.shape[:2]
        if bool(exptime <= 0.0):
            raise ValueError("'exptime' *must* be a strictly positive number.")
        ny, nx = data.shape
        xmin, ymin = xmin or 0, ymin or 0
        xmax = nx - 1 if xmax is None else xmax
        ymax = ny - 1 if ymax is None else ymax
        plane, bit = divmod(self.n, 32)
        if self.out_ctx is not None and plane >= self.out_ctx.shape[0]:
            self.out_ctx = np.concatenate([self.out_ctx, np.zeros((1,) + self.shape, dtype=np.int32)])
        self.n += 1
        if dq is not None and self.out_dq is None:
            self.out_dq = np.zeros(self.shape, dtype=np.uint32)
        for y in range(int(ymin), int(ymax) + 1):
            for x in range(int(xmin), int(xmax) + 1):
                px, py = pixmap[y, x, 0], pixmap[y, x, 1]
                if bool(np.isnan(px)) or bool(np.isnan(py)):
                    continue
                u, v = int(px), int(py)
                assert u == px and v == py, "map onto whole pixels"
                if not (0 <= u < self.shape[1] and 0 <= v < self.shape[0]):
                    continue
                w = weight_map[y, x]
                on = w > 0
                tot = self.out_wht[v, u] + w
                first = self.out_wht[v, u] == 0
                one = data[y, x] * iscale
                mix = (self.out_img[v, u] * self.out_wht[v, u] + one * w) / np.where(on, tot, 1.0)
                self.out_img[v, u] = np.where(on, np.where(first, one, mix), self.out_img[v, u])
                self.out_wht[v, u] = np.where(on, tot, self.out_wht[v, u])
                if self.out_ctx is not None:
                    self.out_ctx[plane, v, u] = self.out_ctx[plane, v, u] + np.where(on, 1 << bit, 0).astype("i4")
                if dq is not None:
                    self.out_dq[v, u] = np.where(on, self.out_dq[v, u] | dq[y, x], self.out_dq[v, u])


class Bilinear:
    """scipy.interpolate.RectBivariateSpline of degree one on concrete knots"""

    def __init__(self, x, y, z, kx=3, ky=3, **k):
        assert kx == 1 and ky == 1 and not k
        self.x, self.y = [[float(v) for v in q] for q in (x, y)]
        self.z = A.lift(z)

    @staticmethod
    def weights(knots, v):
        i = max(0, min(len(knots) - 2, int(_np.searchsorted(knots, v, side="right")) - 1))
        t = (min(max(v, knots[0]), knots[-1]) - knots[i]) / (knots[i + 1] - knots[i])
        return [(i, 1 - t), (i + 1, t)]

    def __call__(self, x, y):
        np = npproxy.NP
        out = np.zeros((len(x), len(y)))
        for i, a in enumerate(x):
            for j, b in enumerate(y):
                s = 0.0
                for p, u in self.weights(self.x, float(a)):
                    for q, w in self.weights(self.y, float(b)):
                        if u * w:
                            s = s + self.z[p, q] * (u * w)
                out[i, j] = s
        return out


def shims():
    import drizzle.resample as real
    import scipy
    from scipy import interpolate

    from symx.shims import Sub

    ip = Sub("scipy.interpolate", interpolate, RectBivariateSpline=Bilinear)
    return {"drizzle.resample": Sub("drizzle.resample", real, Drizzle=Drizzle),
            "scipy": Sub("scipy", scipy, interpolate=ip), "scipy.interpolate": ip}


FLAGS = {"DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "HOT": 2048}


def good_word(spec):
    """flags to ignore, per the documented forms"""
    return {None: None, 0: 0, 6: 6, "2,4": 6, "~1": 0xFFFFFFFE, "SATURATED,JUMP_DET": 6, "~DO_NOT_USE+HOT": 0xFFFFFFFF ^ 2049}[spec]
