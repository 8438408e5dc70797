"""Range of input pixels that take part in resampling."""
from symx.harness import Case

BOUNDS = "images of up to 6x6 pixels and any bounding box limits in [-8, 8]"
ASSUMPTIONS = ["bounding box limits are ordered"]


def harness(E, shape, box):
    np = E.np
    ny, nx = shape
    f = E.mod("stcal.resample.utils").resample_range
    if not box:
        got = f(shape, None)
        E.claim("without a bounding box every pixel takes part", tuple(got) == (0, max(nx - 1, 0), 0, max(ny - 1, 0)))
        return
    lim = [E.real(f"l{i}", lo=-8, hi=8) for i in range(4)]
    E.assume((lim[0] <= lim[1]) & (lim[2] <= lim[3]))
    xmin, xmax, ymin, ymax = f(shape, ((lim[0], lim[1]), (lim[2], lim[3])))
    for a, c, n, lo, hi, nm in ((xmin, xmax, nx, lim[0], lim[1], "column"), (ymin, ymax, ny, lim[2], lim[3], "row")):
        E.claim(f"{nm} range starts in the image and is not empty", (a >= 0) & (a <= c))
        hit = (hi >= -0.5) & (lo < n - 0.5)
        E.claim(f"{nm} range ends in the image", (c <= n - 1) | ~hit)
        for i in range(n):
            inside = (lo <= i) & (i <= hi)
            E.claim(f"every {nm} inside the bounding box takes part", ~inside | ((a <= i) & (i <= c)))
            apart = (i + 0.5 < lo) | (i - 0.5 > hi)
            E.claim(f"no {nm} wholly outside the bounding box takes part", ~(hit & apart & (a <= i) & (i <= c)))


def boundary(E, hi=6):
    """outline points of a pixel rectangle: on the perimeter, counter-clockwise from the lower left corner, evenly spaced"""
    np = E.np
    f = E.mod("stcal.resample.utils")._get_boundary_points
    w = E.integer("w", 1, hi)
    h = E.integer("h", 1, hi)
    x0 = E.real("x0", lo=-5, hi=5)
    y0 = E.real("y0", lo=-5, hi=5)
    dx = E.pick("dx", (None, 0, 1, 2, 3))
    dy = E.pick("dy", (None, 0, 1, 2, 3))
    x, y, area, center, b, r, t, l = f(xmin=x0, xmax=x0 + w, ymin=y0, ymax=y0 + h, dx=dx, dy=dy)
    E.same("area", area, w * h)
    E.same("centre", [center[0], center[1]], E.arr([x0 + w / 2, y0 + h / 2]))
    sx = 1 if not dx else -(-(w + 1) // dx)
    sy = 1 if not dy else -(-(h + 1) // dy)
    px, py = [], []
    for i in range(sx):
        px.append(x0 + w * i / sx); py.append(y0)
    for i in range(sy):
        px.append(x0 + w); py.append(y0 + h * i / sy)
    for i in range(sx):
        px.append(x0 + w - w * i / sx); py.append(y0 + h)
    for i in range(sy):
        px.append(x0); py.append(y0 + h - h * i / sy)
    E.same("x of the outline", x, E.arr(px))
    E.same("y of the outline", y, E.arr(py))
    k = [0, sx, sx + sy, 2 * sx + sy, 2 * sx + 2 * sy]
    E.claim("edges", [(s.start, s.stop) for s in (b, r, t, l)] == list(zip(k, k[1:])))


CASES = [
    Case("box-3x4", harness, shape=(3, 4), box=True),
    Case("box-1x1", harness, shape=(1, 1), box=True),
    Case("box-6x2", harness, shape=(6, 2), box=True),
    Case("all", harness, shape=(3, 4), box=False),
    Case("all-empty", harness, shape=(0, 4), box=False),
    Case("outline", boundary, hi=3),
    Case("outline-6", boundary, hi=6, tier="thorough"),
]
