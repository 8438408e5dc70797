"""Outline of an image on the sky, and what images and groups of them start with."""
from symx.core import Inconclusive
from symx.harness import Case

MOD = "stcal.skymatch.skyimage"
BOUNDS = "images of 1 to 12 pixels each way (as unknowns), steps of any size from 1 to 30; any linear mapping to the sky; groups of 1 to 3 images"
ASSUMPTIONS = ["the polygon of given vertices is spherical_geometry's"]


class Polygons:
    """stand-in for SphericalPolygon"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __getattr__(self, name):
        raise Inconclusive(f"polygon stand-in: {name}")

    @classmethod
    def from_radec(cls, ra, dec, center=None, degrees=True):
        return cls("radec", ra, dec, center, degrees)

    @classmethod
    def multi_union(cls, polys):
        return cls("union", list(polys))

    def area(self):
        return -2.5


class Img:
    def __init__(self, shape):
        self.shape = shape


def outline(E, step, nmax=12):
    np = E.np
    m = E.mod(MOD)
    ny, nx = E.integer("ny", 1, nmax), E.integer("nx", 1, nmax)
    if step is None:
        s = None
    else:
        s = E.real("step", step[0], step[1])
    c = E.floats("coef", (6,), "f8", lo=-10, hi=10)
    seen = []

    def fwd(x, y, with_bounding_box=True):
        seen.append((x.copy(), y.copy(), with_bounding_box))
        return c[0] + c[1] * x + c[2] * y, c[3] + c[4] * x + c[5] * y

    old = m.SphericalPolygon
    m.SphericalPolygon = Polygons
    try:
        p = m._calc_bounding_polygon(Img((ny, nx)), fwd, s) if s is not None else m._calc_bounding_polygon(Img((ny, nx)), fwd)
    finally:
        m.SphericalPolygon = old
    E.claim("one mapping, beyond the bounding box too", len(seen) == 1 and seen[0][2] is False)
    x, y, _ = seen[0]
    n = x.shape[0]
    E.claim("closed", (x[0] == x[n - 1]) & (y[0] == y[n - 1]))
    x0, x1, y0, y1 = -0.5, nx - 0.5, -0.5, ny - 0.5
    E.claim("on the outer edge of the outermost pixels", (((x == x0) | (x == x1)) & (y >= y0) & (y <= y1)) | (((y == y0) | (y == y1)) & (x >= x0) & (x <= x1)))
    for cx in (x0, x1):
        for cy in (y0, y1):
            E.claim("every corner is a vertex", ((x == cx) & (y == cy)).any())
    dx, dy = x[1:] - x[:-1], y[1:] - y[:-1]
    E.claim("along the edges, without repeating a vertex", ((dx == 0) & (dy != 0)) | ((dy == 0) & (dx != 0)))
    E.claim("once around, in one sense", (np.abs(dx).sum() == 2 * nx) & (np.abs(dy).sum() == 2 * ny) & ((x[:-1] * dy - y[:-1] * dx).sum() == 2 * nx * ny))
    if s is None:
        E.claim("corners only", n == 5)
    else:
        E.claim("vertices no further apart than the step", (np.abs(dx) <= s + 1e-9) & (np.abs(dy) <= s + 1e-9))
    ra, dec = p.a[0], p.a[1]
    E.claim("polygon of these vertices", p.kind == "radec" and ra.shape == x.shape and p.a[2] is None and p.a[3] is True)
    E.same("their positions on the sky", E.arr([ra[k] for k in range(n)] + [dec[k] for k in range(n)]),
           E.arr([c[0] + c[1] * x[k] + c[2] * y[k] for k in range(n)] + [c[3] + c[4] * x[k] + c[5] * y[k] for k in range(n)]), rtol=1e-9, atol=1e-9)


def start(E):
    """new images and groups have no sky yet, and hold what they were given"""
    np = E.np
    m = E.mod(MOD)
    old = m.SphericalPolygon
    m.SphericalPolygon = Polygons
    other = E.pick("mask shape", ((2, 3), (3, 2), (2, 2)))
    data = E.floats("d", (2, 3), "f8", lo=-5, hi=5)
    keep = data.copy()
    mask = np.ones(other, dtype=bool)
    n = E.pick("n", (0, 1, 3))
    try:
        try:
            ims = [m.SkyImage(image=data, mask=mask, wcs_fwd=lambda x, y, with_bounding_box: (x + 0.0, y + 0.0), wcs_inv="inv", skystat="stat", sky_id=k, stepsize=2, meta={"k": k}) for k in range(max(n, 1))]
        except ValueError:
            E.claim("refused exactly for a mask of another shape", other != (2, 3))
            return
        E.claim("refused for a mask of another shape", other == (2, 3))
        for k, im in enumerate(ims):
            E.claim("holds what it was given", im.image is data and im.mask is mask and im.sky_id == k and im.meta == {"k": k} and im.skystat == "stat")
            E.claim("no sky yet", im.sky == 0 and im.is_sky_valid is False)
        E.same("data unchanged", data, keep, exact=True)
        try:
            g = m.SkyGroup(ims[:n], sky_id="g")
        except ValueError:
            E.claim("a group needs images", n == 0)
            return
        E.claim("a group of images", n > 0 and len(g) == n and all(a is b for a, b in zip(g, ims)) and g[n - 1] is ims[n - 1] and g.sky == 0 and g.sky_id == "g")
        E.claim("covers the area of all of them", g._polygon.kind == "union" and len(g._polygon.a[0]) == n and all(a is b._polygon for a, b in zip(g._polygon.a[0], ims)))
        v, w = E.real("v", -5, 5), E.real("w", -5, 5)
        s = E.floats("s", (n,), "f8", lo=-5, hi=5)
        for k in range(n):
            ims[k].sky = s[k]
        g.sky = v
        g.sky = w
        for k in range(n):
            E.same("images move along with the sky of their group", ims[k].sky, s[k] + w, rtol=1e-9, atol=1e-9)
        E.same("sky of the group", g.sky, w)
    finally:
        m.SphericalPolygon = old


class Bad(Exception):
    pass


def overlap(E):
    """the intersection of the outlines, or the image's own where it cannot be made"""
    m = E.mod(MOD)
    kind = E.pick("kind", ("fine", "malformed", "other"))

    class P:
        def __init__(self, name):
            self.name, self.copied = name, False

        def intersection(self, o):
            if kind == "fine":
                return (self.name, o.name)
            raise (m.MalformedPolygonError("x") if kind == "malformed" else Bad())

        def copy(self):
            c = P(self.name)
            c.copied = True
            return c

    a, b = m.SkyImage.__new__(m.SkyImage), m.SkyImage.__new__(m.SkyImage)
    a._polygon, b._polygon, a.sky_id, b.sky_id = P("a"), P("b"), 1, 2
    if E.pick("with", ("image", "group")) == "group":
        g = m.SkyGroup.__new__(m.SkyGroup)
        g._polygon, g.sky_id, g._images = b._polygon, 3, [b]
        b = g
    try:
        got = a.intersection(b)
    except Bad:
        E.claim("other errors are passed on", kind == "other")
        return
    E.claim("other errors are passed on", kind != "other")
    if kind == "fine":
        E.claim("intersection of the two outlines", sorted(got) == ["a", "b"])
    else:
        E.claim("a copy of the image's own outline", got.name == "a" and got.copied)


CASES = [Case("corners", outline, step=None), Case("steps", outline, step=(3, 30)), Case("small-steps", outline, step=(1, 3), nmax=5), Case("start", start), Case("overlap", overlap)]
