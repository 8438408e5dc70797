"""Sky of one image or group of images."""
from symx.harness import Case

from .skyspec import build, mean_over, pixels, shims

BOUNDS = "images of 2x2 to 2x4 pixels at whole-pixel positions on the sky, groups of 2 or 3; any data (missing included) and earlier sky, listed masks"
ASSUMPTIONS = ["spherical geometry is a stand-in (rectangles on the pixel grid); the statistic is the mean"]


def image(E, sizes, starts, masks=None, ny=2, nan=False, inf=None):
    np = E.np
    a, b = build(E, sizes, starts, masks, ny, nan=nan)
    if inf:
        a.image[inf] = E.pick("endless", (float("inf"), -float("inf")))
    keep = a.image.copy()
    E.same("by default the whole image, less the sky known", E.arr([np.nan if v is None else v for v in a.calc_sky()]),
           E.arr([np.nan if v is None else v for v in a.calc_sky(overlap=None, delta=True)]))
    for over in (None, b):
        for delta in (True, False):
            sky, n, area = a.calc_sky(overlap=over, delta=delta)
            px = pixels(a, over)
            if not px:
                E.claim("no sky without usable pixels", sky is None and n == 0 and area == 0)
                continue
            if inf in px:
                E.claim("no sky where the statistic is not finite", sky is None and n == 0 and area == 0)
                continue
            want = mean_over(a, a.image, px)
            if sky is None:
                E.claim("no sky only when the statistic is missing", np.isnan(want))
                E.claim("no weight without sky", n == 0 and area == 0)
                continue
            E.claim("no sky only when the statistic is missing", ~np.isnan(want))
            E.same("statistic of the usable pixels (in the overlap), less the sky known", sky, want - a.sky if delta else want)
            E.claim("number of pixels used", n == len(px))
            cols = a.image.shape[1] if over is None else min(a._polygon.x1, b._polygon.x1) - max(a._polygon.x0, b._polygon.x0) + 1
            E.claim("area of the overlap", area == cols * ny)
    E.same("data are left alone", a.image, keep, exact=True)


def group(E, sizes, starts, masks=None):
    np = E.np
    ims = build(E, sizes, starts, masks)
    S = E.mod("stcal.skymatch.skyimage")
    g = S.SkyGroup.__new__(S.SkyGroup)
    g._images, g.sky_id, g._sky = ims[:-1], "g", 0.0
    other = ims[-1]
    E.claim("members", len(g) == len(ims) - 1 and list(g)[0] is ims[0] and g[1] is ims[1])
    for delta in (True, False):
        sky, n, area = g.calc_sky(delta=delta)
        each = [(mean_over(i, i.image, pixels(i)) - (i.sky if delta else 0.0), len(pixels(i)), i._poly_area) for i in g if pixels(i)]
        if not each:
            E.claim("no sky without usable pixels", sky is None and n == 0)
        else:
            lo = each[0]
            for e in each[1:]:
                lo = e if bool(e[0] < lo[0]) else lo
            E.same("sky of a group is the smallest of its images", sky, lo[0])
            E.claim("pixels and area of that image", n == lo[1] and area == lo[2])
        sky, n, area = g.calc_sky(overlap=other, delta=delta)
        each = [(mean_over(i, i.image, pixels(i, other)) - (i.sky if delta else 0.0), len(pixels(i, other))) for i in g if pixels(i, other)]
        if not each:
            E.claim("no common pixels", sky is None and n == 0)
        else:
            E.same("in an overlap: mean over its pixels", sky, sum(s * k for s, k in each) / sum(k for _, k in each))
            E.claim("number of pixels in the overlap", n == sum(k for _, k in each))
        # seen from the other image: the group's area is the union of its images
        sky, n, area = other.calc_sky(overlap=g, delta=delta)
        inside = [p for p in pixels(other) if any(i._polygon.x0 <= p[1] + other._polygon.x0 <= i._polygon.x1 for i in g)]
        if not inside:
            E.claim("no overlap with the group", sky is None)
        else:
            E.same("overlap with a group is with all its images", sky, mean_over(other, other.image, inside) - (other.sky if delta else 0.0))
    old = [i.sky for i in g]
    v = E.real("new", lo=-9, hi=9)
    w = E.real("new2", lo=-9, hi=9)
    g.sky = v
    g.sky += w
    E.same("a group's sky", g.sky, v + w)
    for i, o in zip(g, old):
        E.same("sky of a group goes to each image", i.sky, o + v + w)


S = shims()
T, F = True, False
CASES = [
    Case("plain", image, sizes=(3, 2), starts=(0, 1), shims=S),
    Case("rows", image, sizes=(3, 3), starts=(0, 1), masks={0: [[T, F, T], [T, T, F]]}, shims=S),
    Case("left", image, sizes=(3, 3), starts=(0, -1), masks={0: [[F, T, T], [T, T, T]]}, shims=S),
    Case("missing", image, sizes=(3, 2), starts=(0, 1), nan=True, masks={0: [[T, F, T], [F, F, T]]}, shims=S),
    Case("apart", image, sizes=(2, 2), starts=(0, 5), shims=S),
    Case("masked", image, sizes=(2, 2), starts=(0, 0), masks={0: [[F, F]]}, shims=S),
    Case("infinite", image, sizes=(3, 2), starts=(0, 1), inf=(0, 0), shims=S),
    Case("infinite-overlap", image, sizes=(3, 2), starts=(0, 1), inf=(1, 2), masks={0: [[T, T, T], [F, F, T]]}, shims=S),
    Case("one-pixel", image, sizes=(3, 2), starts=(0, 1), masks={0: [[T, F, T], [F, F, F]]}, shims=S),
    Case("group-first-apart", group, sizes=(2, 3, 2, 4), starts=(9, 0, 2, 1), shims=S),
    Case("group-2", group, sizes=(2, 2, 4), starts=(0, 2, 0), shims=S),
    Case("group-masked", group, sizes=(2, 2, 4), starts=(0, 2, 0), masks={0: [[F, F]], 2: [[F, T, T, T], [T, T, T, F]]}, shims=S),
    Case("group-overlap", group, sizes=(3, 3, 3), starts=(0, 1, 1), masks={1: [[F, T, T], [F, F, T]]}, shims=S),
    Case("group-3", group, sizes=(2, 3, 2, 4), starts=(0, 1, 9, 0), shims=S),
    Case("group-apart", group, sizes=(2, 2, 3), starts=(0, 2, 7), masks={0: [[F, F]], 1: [[F, F]]}, shims=S),
]
