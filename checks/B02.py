"""Sky matching: differences between overlapping images are removed as well as possible."""
import types

from symx.harness import Case

from .skyspec import build, mean_over, pixels, shims

BOUNDS = "2 to 4 images or groups of 2x2 to 2x4 pixels, listed overlaps and masks; any data and earlier sky"
ASSUMPTIONS = ["spherical geometry is a stand-in (rectangles on the pixel grid); the statistic is the mean", "pseudo-inverse and rank of a fixed matrix are numpy's"]


def members(x):
    return list(getattr(x, "_images", [x]))


def sky_in(E, x, over):
    """(mean, number) of the pixels of an image or group inside another"""
    tot, n = 0.0, 0
    for im in members(x):
        px = [p for p in pixels(im) if any(o._polygon.x0 <= p[1] + im._polygon.x0 <= o._polygon.x1 for o in members(over))]
        if px:
            tot = tot + mean_over(im, im.image, px) * len(px)
            n += len(px)
    return (tot / n, n) if n else (None, 0)


def match(E, sizes, starts, masks=None, groups=(), down=True, subtract=False, method="match", sky0=True):
    np = E.np
    M = E.mod("stcal.skymatch.skymatch")
    S = E.mod("stcal.skymatch.skyimage")
    ims = build(E, sizes, starts, masks, sky0=sky0 and not groups)
    units, used = [], set()
    for gs in groups:
        g = S.SkyGroup.__new__(S.SkyGroup)
        g._images, g.sky_id, g._sky = [ims[i] for i in gs], "g", 0.0
        units.append((gs[0], g))
        used |= set(gs)
    units = [u for _, u in sorted([(i, im) for i, im in enumerate(ims) if i not in used] + units, key=lambda t: t[0])]
    data0 = [im.image.copy() for im in ims]
    old = [im.sky for im in ims]
    n = len(units)
    s = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                s[i, j] = sky_in(E, units[i], units[j])
    first = [members(u)[0] for u in units]
    before = [f.sky for f in first]
    M.skymatch(units, skymethod=method.upper() if down else method, match_down=down, subtract=subtract)
    d = [f.sky - b for f, b in zip(first, before)]
    ok = [any(i != j and s[i, j][1] > 0 and s[j, i][1] > 0 for j in range(n)) for i in range(n)]
    base = E.arr([0.0] * n) if subtract else E.arr(before)
    for i in range(n):
        if not ok[i]:
            E.same("images without overlap keep their sky", d[i], 0.0)
            E.claim("images without overlap are marked", all(m.is_sky_valid is False for m in members(units[i])))
            continue
        E.claim("matched images are marked", all(m.is_sky_valid is True for m in members(units[i])))
        r = 0.0
        for j in range(n):
            if j != i and s[i, j][1] > 0 and s[j, i][1] > 0:
                w = 0.5 * (s[i, j][1] + s[j, i][1])
                r = r + w * w * ((d[i] - d[j]) - ((s[i, j][0] - base[i]) - (s[j, i][0] - base[j])))
        E.same("weighted squared differences in the overlaps are least", r, 0.0, atol=1e-5)
    good = [d[i] for i in range(n) if ok[i]]
    if good:
        ext = good[0]
        for q in good[1:]:
            ext = np.where(q < ext, q, ext) if down else np.where(q > ext, q, ext)
        E.same("the lowest sky is left where it is" if down else "the highest sky is left where it is", ext, 0.0, atol=1e-5)
    where = {id(m): i for i, u in enumerate(units) for m in members(u)}
    for k, im in enumerate(ims):
        E.same("all images of a group get the same", im.sky - old[k], d[where[id(im)]])
        E.same("data lowered exactly when asked for", im.image, data0[k] - d[where[id(im)]] if subtract else data0[k], atol=1e-5)


def equal(E, sizes, starts, offsets=None):
    """a scene plus one pedestal per image: pedestals are found up to a common one"""
    np = E.np
    M = E.mod("stcal.skymatch.skymatch")
    ims = build(E, sizes, starts, sky0=False, lo=0, hi=0)
    width = max(a + b for a, b in zip(sizes, starts))
    scene = E.floats("scene", (2, width), "f8", lo=-50, hi=50)
    ped = [E.real(f"ped{k}", lo=-20, hi=20) for k in range(len(ims))]
    for im, x0, p in zip(ims, starts, ped):
        im.image = scene[:, x0:x0 + im.image.shape[1]] + p
    sub = E.pick("subtract", (False, True))
    M.skymatch(ims, skymethod="match", subtract=sub)
    low = ped[0]
    for p in ped[1:]:
        low = np.where(p < low, p, low)
    for im, x0, p in zip(ims, starts, ped):
        E.same("the image's own pedestal above the lowest one", im.sky, p - low, atol=1e-5)
        if sub:
            E.same("data on a common level", im.image, scene[:, x0:x0 + im.image.shape[1]] + low, atol=1e-5)


S = shims()
T, F = True, False
CASES = [
    Case("pair", match, sizes=(3, 3), starts=(0, 1), shims=S),
    Case("pair-up", match, sizes=(3, 3), starts=(0, 1), down=False, shims=S),
    Case("pair-subtract", match, sizes=(4, 2), starts=(0, 1), subtract=True, sky0=False, masks={0: [[T, F, T, T], [T, T, T, F]]}, shims=S),
    Case("chain", match, sizes=(3, 3, 3), starts=(0, 1, 1), shims=S),
    Case("chain-masked", match, sizes=(4, 4, 4), starts=(0, 2, 4), masks={1: [[F, T, T, T], [T, T, T, F]]}, shims=S),
    Case("islands", match, sizes=(2, 2, 2, 3), starts=(0, 0, 9, 8), shims=S),
    Case("alone", match, sizes=(3, 2, 2), starts=(0, 1, 9), shims=S),
    Case("alone-subtract", match, sizes=(3, 2, 2), starts=(0, 1, 9), subtract=True, down=False, shims=S),
    Case("one-pixel", match, sizes=(3, 3), starts=(0, 1), masks={0: [[T, T, F], [T, F, F]]}, shims=S),
    Case("triangle-masked", match, sizes=(4, 4, 4), starts=(0, 1, 2), masks={0: [[T, F, F, T], [T, T, F, F]], 2: [[T, T, T, F], [F, T, T, T]]}, shims=S),
    Case("triangle-masked-subtract", match, sizes=(4, 4, 4), starts=(0, 1, 0), masks={1: [[T, F, F, T], [T, T, F, F]], 2: [[F, F, T, F], [F, T, T, T]]}, subtract=True, sky0=False, shims=S),
    Case("masked-out", match, sizes=(2, 2), starts=(0, 0), masks={1: [[F, F]]}, shims=S),
    Case("group", match, sizes=(2, 2, 4), starts=(0, 2, 0), groups=((0, 1),), shims=S),
    Case("group-subtract", match, sizes=(2, 2, 4, 2), starts=(0, 2, 0, 2), groups=((0, 1),), subtract=True, down=False, shims=S),
    Case("pedestals", equal, sizes=(3, 2, 3), starts=(0, 1, 1), shims=S),
    Case("pedestals-chain", equal, sizes=(2, 4, 2), starts=(0, 0, 2), shims=S),
]
