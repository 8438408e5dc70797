"""Pixel map: where each input pixel lands in the output, bounding boxes honoured and restored."""
from symx.harness import Case

from .resamplespec import Wcs, shims

BOUNDS = "images up to 12x11 pixels, mappings that shift by any amount and scale by the listed factors, bounding boxes with any limits (full evaluation) or listed ones (interpolated)"
ASSUMPTIONS = ["interpolation (RectBivariateSpline) of order one is bilinear"]


class ModelBox:
    """bounding box object as astropy provides it"""

    def __init__(self, b):
        self.b = b

    def bounding_box(self, order=None):
        assert order == "F"
        return self.b

    def __iter__(self):
        return iter(self.b)


def limits(E, name, some):
    if not some:
        return None
    l = [E.real(f"{name}{i}", lo=-2, hi=8) for i in range(4)]
    E.assume((l[0] <= l[1]) & (l[2] <= l[3]))
    return ((l[0], l[1]), (l[2], l[3]))


def outside(np, b, x, y):
    if b is None:
        return np.zeros(x.shape, dtype=bool)
    (x1, x2), (y1, y2) = b
    return (x < x1) | (x > x2) | (y < y1) | (y > y2)


def full(E, shape, boxes, given=True):
    np = E.np
    wf = E.pick("from box", (True, False) if boxes else (False,))
    wt = E.pick("to box", (True, False) if boxes else (False,))
    bf, bt = limits(E, "f", wf), limits(E, "t", wt)
    off = [E.real(f"o{i}", lo=-5, hi=5) for i in range(2)]
    a = Wcs(np, scale=(0.5, 2), offset=off, shape=shape, bbox=bf)
    b = Wcs(np, scale=(1, 0.25), offset=(1, -2), shape=(3, 3), bbox=bt)
    how = E.pick("disable", ("default", "to", "from", "both", "none"))
    U = E.mod("stcal.resample.utils")
    kw = {} if how == "default" else {"disable_bbox": how}
    m = U.calc_pixmap(a, b, shape if given else None, **kw)
    y, x = np.indices(shape, dtype=float)
    u = (x * 0.5 + off[0] - 1) / 1
    v = (y * 2 + off[1] + 2) / 0.25
    miss = np.zeros(shape, dtype=bool)
    if how not in ("from", "both"):
        miss = miss | outside(np, bf, x, y)
    if how in ("from", "none"):
        miss = miss | outside(np, bt, u, v)
    E.claim("one pair of coordinates per pixel", m.shape == tuple(shape) + (2,))
    E.same("x in the output", m[..., 0], np.where(miss, np.nan, u))
    E.same("y in the output", m[..., 1], np.where(miss, np.nan, v))
    E.claim("bounding boxes are as before", same_box(a.bounding_box, bf) and same_box(b.bounding_box, bt))
    E.cover("missing", miss)


def same_box(a, b):
    if a is None or b is None:
        return a is b
    return all(p is q for r, s in zip(a, b) for p, q in zip(r, s))


def error(E):
    np = E.np
    a = Wcs(np, shape=(2, 2), bbox=((0, 1), (0, 1)), fail="from" if E.pick("who", (0, 1)) else None)
    b = Wcs(np, shape=(2, 2), bbox=((0, 3), (0, 2)), fail="to")
    try:
        E.mod("stcal.resample.utils").calc_pixmap(a, b, (2, 2), disable_bbox=E.pick("d", ("to", "from", "both", "none")))
        E.claim("the error is passed on", False)
    except RuntimeError:
        pass
    E.claim("bounding boxes are restored after an error", a.bounding_box == ((0, 1), (0, 1)) and b.bounding_box == ((0, 3), (0, 2)))


def noshape(E):
    """shape taken from the bounding box when nothing else gives it"""
    np = E.np
    bf = E.pick("box", (((-0.5, 2.5), (-0.5, 1.5)), ((0, 2), (0, 3)), None))
    off = E.real("o", lo=-5, hi=5)
    a = Wcs(np, offset=(off, 0), bbox=bf)
    b = Wcs(np)
    try:
        m = E.mod("stcal.resample.utils").calc_pixmap(a, b)
    except ValueError:
        E.claim("an unknown shape is refused", bf is None)
        return
    E.claim("an unknown shape is refused", bf is not None)
    ny, nx = {((-0.5, 2.5), (-0.5, 1.5)): (2, 3), ((0, 2), (0, 3)): (4, 3)}[bf]
    y, x = np.indices((ny, nx), dtype=float)
    E.same("x in the output", m[..., 0], x + off)


def sparse(E, shape, boxes, wrap=False):
    """interpolated evaluation of a linear mapping gives the mapping itself, missing outside the bounding box"""
    np = E.np
    off = [E.real(f"o{i}", lo=-5, hi=5) for i in range(2)]
    box = E.pick("box", boxes)
    step = E.pick("step", (2, 5, 100))
    how = E.pick("disable", ("to", "both"))
    a = Wcs(np, scale=(0.5, 2), offset=off, shape=shape, bbox=ModelBox(box) if wrap and box else box)
    b = Wcs(np, scale=(1, 0.25), offset=(1, -2), shape=(3, 3), bbox=((0, 1), (0, 1)))
    if wrap:
        a._mask = lambda v, x, y: v
    m = E.mod("stcal.resample.utils").calc_pixmap(a, b, shape, disable_bbox=how, stepsize=step, order=1)
    y, x = np.indices(shape, dtype=float)
    E.claim("one pair of coordinates per pixel", m.shape == tuple(shape) + (2,))
    miss = outside(np, box, x, y)
    E.same("x in the output", m[..., 0], np.where(miss, np.nan, (x * 0.5 + off[0] - 1) / 1))
    E.same("y in the output", m[..., 1], np.where(miss, np.nan, (y * 2 + off[1] + 2) / 0.25))
    E.claim("bounding boxes are as before", tuple(a.bounding_box) == box if box else a.bounding_box is None)
    E.claim("bounding boxes are as before", b.bounding_box == ((0, 1), (0, 1)))


CASES = [
    Case("full", full, shape=(2, 3), boxes=True, shims=shims()),
    Case("full-own-shape", full, shape=(3, 2), boxes=True, given=False, shims=shims()),
    Case("error", error, shims=shims()),
    Case("noshape", noshape, shims=shims()),
    Case("sparse", sparse, shape=(12, 11), boxes=(None, ((-0.5, 10.5), (-0.5, 11.5))), shims=shims()),
    Case("sparse-box", sparse, shape=(12, 13), boxes=(((0.5, 12.5), (-0.5, 11.5)), ((-0.5, 11.5), (0.3, 10.8)), ((1, 11), (0, 9))), shims=shims()),
    Case("sparse-modelbox", sparse, shape=(12, 3), boxes=(((-0.5, 1.5), (-0.5, 11.5)),), wrap=True, shims=shims()),
]
