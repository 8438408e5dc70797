"""Sky of single images, and one for all."""
from symx.harness import Case

from .B02 import members
from .skyspec import build, mean_over, pixels, shims

BOUNDS = "1 to 3 images or groups of 2x2 to 2x3 pixels, listed masks and overlaps; any data and earlier sky"
ASSUMPTIONS = ["spherical geometry is a stand-in (rectangles on the pixel grid); the statistic is the mean"]


def own(E, np, u, keep):
    """smallest mean over the images of a unit, None without usable pixels"""
    best = None
    for m in members(u):
        px = pixels(m)
        if px:
            v = mean_over(m, m.image, px) - (m.sky if keep else 0.0)
            best = v if best is None else np.where(v < best, v, best)
    return best


def harness(E, sizes, starts, method, masks=None, group=None, subtract=False, gsky=False, known=False):
    np = E.np
    M = E.mod("stcal.skymatch.skymatch")
    S = E.mod("stcal.skymatch.skyimage")
    ims = build(E, sizes, starts, masks, sky0=not group)
    units = list(ims)
    if group:
        g = S.SkyGroup.__new__(S.SkyGroup)
        g._images, g.sky_id, g._sky = [ims[i] for i in group], "g", 0.0
        units = [im for i, im in enumerate(ims) if i not in group] + [g]
        if gsky:
            g.sky = E.real("gsky", lo=-5, hi=5)
    for im in ims:
        im.is_sky_valid = known
    data0 = [im.image.copy() for im in ims]
    old = {id(im): im.sky for im in ims}
    want = [own(E, np, u, not subtract) for u in units]
    if method == "global":
        low = None
        for w in want:
            if w is not None:
                low = w if low is None else np.where(w < low, w, low)
        want = [low] * len(units)
    M.skymatch(units, skymethod=method, subtract=subtract)
    for u, w in zip(units, want):
        for m in members(u):
            E.same("sky of the image" if method == "local" else "smallest sky for all", m.sky - old[id(m)], 0.0 if w is None else w)
            E.claim("marked as known exactly when there is one", m.is_sky_valid is (w is not None))
    for k, im in enumerate(ims):
        E.same("data lowered exactly when asked for", im.image, data0[k] - (im.sky - old[id(im)]) if subtract else data0[k])


def both(E, sizes, starts, masks=None, subtract=False, down=True):
    """matching first, then the smallest remaining sky for all"""
    np = E.np
    M = E.mod("stcal.skymatch.skymatch")
    ims = build(E, sizes, starts, masks, sky0=False)
    data0 = [im.image.copy() for im in ims]
    M.skymatch(ims, skymethod="match", match_down=down, subtract=subtract)
    one = [im.sky for im in ims]
    low = None
    for im in ims:
        w = own(E, np, im, not subtract)
        if w is not None:
            low = w if low is None else np.where(w < low, w, low)
    for im, d in zip(ims, data0):
        im.image, im.sky, im.is_sky_valid = d.copy(), 0.0, False
    M.skymatch(ims, match_down=down, subtract=subtract)
    for im, s, d in zip(ims, one, data0):
        E.same("matched sky plus the smallest one left", im.sky, s + (0.0 if low is None else low), atol=1e-5)
        E.same("data lowered exactly when asked for", im.image, d - im.sky if subtract else d, atol=1e-5)
        E.claim("marked as known", im.is_sky_valid is (low is not None))


def refused(E):
    M = E.mod("stcal.skymatch.skymatch")
    ims = build(E, (2,), (0,))
    for args, kind in (((ims, "mean"), ValueError), (([], "local"), ValueError), (([object()], "local"), TypeError)):
        try:
            M.skymatch(*args)
            E.claim("bad requests are refused", False)
        except kind:
            pass
    E.claim("bad requests are refused", True)


S = shims()
T, F = True, False
N = [[F, F]]
CASES = [
    Case("local-2", harness, sizes=(2, 3), starts=(0, 0), method="local", shims=S),
    Case("local-subtract", harness, sizes=(2, 2), starts=(0, 0), method="local", masks={0: [[T, F], [T, T]]}, subtract=True, shims=S),
    Case("local-none", harness, sizes=(2, 2, 2), starts=(0, 0, 9), method="local", masks={1: N}, subtract=True, shims=S),
    Case("local-group", harness, sizes=(2, 2, 2), starts=(0, 2, 1), method="local", group=(0, 2), shims=S),
    Case("local-group-subtract", harness, sizes=(2, 2, 2), starts=(0, 2, 1), method="local", group=(0, 2), gsky=True, subtract=True, shims=S),
    Case("local-group-known", harness, sizes=(2, 2, 2), starts=(0, 2, 1), method="local", group=(0, 2), gsky=True, masks={0: N, 2: N}, known=True, shims=S),
    Case("local-known", harness, sizes=(2, 2), starts=(0, 0), method="local", masks={0: N}, known=True, shims=S),
    Case("global-group-sky", harness, sizes=(2, 2, 2), starts=(0, 2, 1), method="global", group=(0, 2), gsky=True, shims=S),
    Case("global-3", harness, sizes=(2, 2, 2), starts=(0, 0, 9), method="global", shims=S),
    Case("global-subtract", harness, sizes=(2, 2), starts=(0, 1), method="global", subtract=True, shims=S),
    Case("global-none-first", harness, sizes=(2, 2), starts=(0, 0), method="global", masks={0: N}, shims=S),
    Case("global-none-last", harness, sizes=(2, 2, 2), starts=(0, 0, 0), method="global", masks={1: N}, shims=S),
    Case("global-none", harness, sizes=(2, 2), starts=(0, 0), method="global", masks={0: N, 1: N}, shims=S),
    Case("global-group", harness, sizes=(2, 2, 2), starts=(0, 2, 1), method="global", group=(0, 2), subtract=True, shims=S),
    Case("both", both, sizes=(2, 3), starts=(0, 0), shims=S),
    Case("both-subtract", both, sizes=(2, 3), starts=(0, 0), subtract=True, shims=S),
    Case("both-up-none", both, sizes=(2, 3, 2), starts=(0, 0, 9), down=False, masks={2: N}, shims=S),
    Case("refused", refused, shims=S),
]
