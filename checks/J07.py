"""Showers: what is searched for extended emission, what is flagged for it, and which flags are taken back."""
import numpy as onp

from symx.harness import Case

from .J06 import Sk, filled, regions
from .jumpspec import DNU, JUMP, REF, SAT

BOUNDS = ("1 to 3 integrations of 3 to 6 groups, images of 7x7 to 13x9 pixels: the data of 1 or 2 pixels over all values, the others fixed; flags of these pixels forked "
          "(good, jump, saturated, with do-not-use); emission regions each there or not (forked); convolution: 3x3 and 5x5 kernels, images up to 4x5, all values, any missing samples of 3 pixels")
ASSUMPTIONS = ["the convolution is a stand-in in the search cases (any image, given by the case) and checked on its own; scipy's oaconvolve is a stand-in (direct sum)",
               "sigma-clipped statistics are a stand-in (any mean, median and deviation)", "skimage runs as it is"]
DEF = dict(extend_snr_threshold=3.0, extend_min_area=6, extend_inner_radius=1, extend_outer_radius=2.6, extend_ellipse_expand_ratio=1.5, grps_masked_after_shower=1,
           max_shower_amplitude=6.0, minimum_sigclip_groups=100, nframes=2, max_extended_width=200)


class Params:
    pass


class Ring:
    def __init__(self, *a):
        self.args = a
        self.array = a


def base_data(shape):
    ni, ng, ny, nx = shape
    i, g, y, x = onp.meshgrid(*[onp.arange(k) for k in shape], indexing="ij")
    return (100 * i + 8 * g + (3 * y + 5 * x + 7 * g * g) % 4 + 0.5 * ((x + g) % 3)).astype(onp.float32)


def search(E, shape, pixels, blobs, flags=(0,), fixed=(), dead_groups=(), pdq_flags=(), min_diffs=2, few=False, lo=0, hi=60, **params):
    """blobs: (integration, group, ellipse); pixels: positions with any data; fixed: (integration, group, y, x, flag) further flags"""
    np = E.np
    ni, ng, ny, nx = shape
    p = Params()
    for k, v in {**DEF, **params}.items():
        setattr(p, k, v)
    p.fl_jump, p.fl_sat, p.fl_dnu, p.fl_ref = JUMP, SAT, DNU, REF
    there = [E.pick(f"emission {k}", [True, False]) for k in range(len(blobs))]
    g0 = onp.zeros(shape, dtype=onp.uint8)
    for i, g, y, x, f in fixed:
        g0[i, g, y, x] |= f
    for i, g in dead_groups:
        g0[i, g] |= DNU
    for k, (y, x) in enumerate(pixels):
        if len(flags) > 1:
            i, g = E.pick(f"flagged {k}", [(i, g) for i in range(ni) for g in range(ng)])
            g0[i, g, y, x] |= E.pick(f"flag {k}", list(flags))
    pd = onp.zeros((ny, nx), dtype=onp.uint32)
    if pdq_flags:
        pd[pixels[0]] = E.pick("pixel flag", list(pdq_flags))
    v = E.floats("v", (ni, ng, len(pixels)), "f4", lo=lo, hi=hi)
    rn = np.array(onp.full((ny, nx), 4.0, dtype=onp.float32))
    data = np.array(base_data(shape))
    for k, (y, x) in enumerate(pixels):
        data[:, :, y, x] = v[:, :, k]
    gdq, pdq = np.array(g0), np.array(pd)
    seen, clip = [], []
    m = E.mod("stcal.jump.jump")
    sigclip = ni >= p.minimum_sigclip_groups
    if sigclip:
        med = E.floats("median", (ng - 1, len(pixels)), "f4", lo=-10, hi=40)
        std = E.floats("deviation", (ng - 1, len(pixels)), "f4", lo=0.5, hi=10)
        medians, sigmas = np.array(onp.full((ng - 1, ny, nx), 8.0, dtype=onp.float32)), np.array(onp.full((ng - 1, ny, nx), 2.0, dtype=onp.float32))
        for k, (y, x) in enumerate(pixels):
            medians[:, y, x], sigmas[:, y, x] = med[:, k], std[:, k]
    order = []
    d0 = set(dead_groups)
    for i in range(ni):
        good = [g for g in range(ng) if (i, g) not in d0]
        order += [(i, g) for g in range((good[0] if good else 0) + 1, ng)]

    def convolve(image, kernel, *a, **k):
        i, g = order[len(seen)]
        seen.append((image.copy(), kernel))
        out = onp.zeros((ny, nx), dtype=onp.float32)
        for t, (bi, bg, e) in zip(there, blobs):
            if t and (bi, bg) == (i, g):
                out[filled((ny, nx), *e)] = 3.5
        return np.array(out)

    class Stats:
        @staticmethod
        def sigma_clipped_stats(x, sigma=3.0, axis=None, **k):
            clip.append((x.copy(), sigma, axis))
            return medians, medians, sigmas

    old = m.convolve_fast, m.Ring2DKernel, m.stats
    m.convolve_fast, m.Ring2DKernel, m.stats = convolve, Ring, Stats
    dc, gc, pc = data.copy(), gdq.copy(), pdq.copy()
    try:
        got, total = m.find_faint_extended(data, gdq, pdq, rn, p, min_diffs_for_shower=min_diffs)
    finally:
        m.convolve_fast, m.Ring2DKernel, m.stats = old
    E.same("data unchanged", data, dc, exact=True)
    E.same("flags given unchanged", gdq, gc, exact=True)
    if few:
        E.claim("no showers", total == 0 and not seen)
        E.same("flags", got, gc, exact=True)
        return
    E.claim("every group after the first good one is searched", len(seen) == len(order))
    # what is searched
    ref = (pd & REF) != 0
    use = onp.ones(shape, dtype=bool)
    use[(g0 & (SAT | JUMP | DNU)) != 0] = False
    diffs = np.where(np.array(use[:, 1:] & use[:, :-1]), dc[:, 1:] - dc[:, :-1], np.nan)
    if sigclip:
        E.same("statistics over the integrations", clip[0][0], diffs, exact=True)
        E.claim("clipped along the integrations at five sigma", clip[0][1] == 5 and clip[0][2] == 0)
    for (i, g), (image, kernel) in zip(order, seen):
        E.claim("ring of the radii given", kernel == (p.extend_inner_radius, p.extend_outer_radius))
        flagged = ((g0[i, g] | pd) & (JUMP | SAT | DNU)) != 0
        flagged |= ref
        for y, x in [*pixels, (0, 0), (ny - 1, nx - 1)]:
            if flagged[y, x]:
                E.claim(f"group {g}: flagged pixel not searched", np.isnan(image[y, x]))
                continue
            d = diffs[i, g - 1, y, x]
            if sigclip:
                mid, sig = medians[g - 1, y, x], sigmas[g - 1, y, x]
            else:
                mid = np.nanmedian(diffs[:, :, y, x])
                sig = np.sqrt(np.abs(mid) + np.float32(16.0) / p.nframes)
            E.same(f"group {g}: significance of the difference", image[y, x], np.abs(d - mid) / sig, rtol=1e-5, atol=1e-6)
    # what is flagged
    new = g0.copy()
    new[:, :, ref] = DNU
    n = 0
    for i, g in order:
        image = onp.zeros((ny, nx), dtype=bool)
        for t, (bi, bg, e) in zip(there, blobs):
            if t and (bi, bg) == (i, g):
                image |= filled((ny, nx), *e)
        for cy, cx, minor, major, th in regions(image, p.extend_min_area):
            n += 1
            grow = (p.extend_ellipse_expand_ratio - 1) * minor
            w = p.max_extended_width
            area = filled((ny, nx), cy, cx, min(minor + grow, w), min(major + grow, w), th)
            blocked = onp.zeros((ny, nx), dtype=bool)
            for h in range(g, min(g + p.grps_masked_after_shower + 1, ng)):
                blocked |= (new[i, h] & SAT) != 0
                new[i, h][area & ~blocked] |= JUMP
    E.claim("number of showers", total == n)
    want = np.array(g0)
    bad = DNU | SAT | JUMP
    for i in range(ni):
        for y in range(ny):
            for x in range(nx):
                rates = []
                for flags_ in (g0, new):
                    ok = [(flags_[i, g, y, x] & bad) == 0 for g in range(ng)]
                    ds = [dc[i, g + 1, y, x] - dc[i, g, y, x] for g in range(ng - 1) if ok[g] and ok[g + 1]]
                    rates.append(np.nanmean(np.array(onp.array(ds)) if not E.sym else E.arr(ds)) if ds else None)
                if (g0[i, :, y, x] == new[i, :, y, x]).all() or None in rates:
                    continue
                keep = np.abs(rates[0] - rates[1]) <= p.max_shower_amplitude
                for g in range(ng):
                    want[i, g, y, x] = E.ite(keep, int(new[i, g, y, x]), int(g0[i, g, y, x]))
    E.same("flags", got, want, exact=True)
    E.cover("a shower is flagged", n > 0 and np.any(got != gc))
    y, x = pixels[0]
    E.cover("flags taken back", n > 0 and np.all(got[:, :, y, x] == gc[:, :, y, x]))


class Signal:
    """direct convolution"""

    def __init__(self, E):
        self.E = E

    def oaconvolve(self, a, k, mode="full", axes=None):
        np = self.E.np
        ky, kx = k.shape
        ay, ax = a.shape
        full = np.zeros((ay + ky - 1, ax + kx - 1), dtype=a.dtype)
        for i in range(ky):
            for j in range(kx):
                if bool(k[i, j] != 0):
                    full[i:i + ay, j:j + ax] = full[i:i + ay, j:j + ax] + a * k[i, j]
        if mode == "same":
            return full[(ky - 1) // 2:(ky - 1) // 2 + ay, (kx - 1) // 2:(kx - 1) // 2 + ax]
        if mode == "valid":
            return full[ky - 1:ay, kx - 1:ax]
        return full


def ring(n):
    k = onp.ones((n, n))
    k[n // 2, n // 2] = 0
    k[0, 0] = k[0, -1] = k[-1, 0] = k[-1, -1] = 0.5 if n == 3 else 0
    return k / 16


def convolution(E, shape, n, missing, allbut=False, copy=False):
    """missing: positions whose sample may be missing; allbut: all others are missing"""
    np = E.np
    ny, nx = shape
    v = E.floats("v", shape, "f8", lo=-100, hi=100)
    gone = onp.zeros(shape, dtype=bool) if not allbut else onp.ones(shape, dtype=bool)
    for y, x in missing:
        gone[y, x] = E.pick(f"missing {y} {x}", [True, False])
    image = np.where(np.array(gone), np.inf if allbut else np.nan, v)
    before = image.copy()
    k = ring(n)
    m = E.mod("stcal.jump.jump")
    old = m.signal
    m.signal = Signal(E)
    try:
        got = m.convolve_fast(image, np.array(k), copy=True) if copy else m.convolve_fast(image, np.array(k))
    finally:
        m.signal = old
    h = n // 2
    want = []
    for y in range(ny):
        row = []
        for x in range(nx):
            num, den = 0.0, 0.0
            for i in range(n):
                for j in range(n):
                    yy, xx = y + i - h, x + j - h
                    inside = 0 <= yy < ny and 0 <= xx < nx
                    if inside and gone[yy, xx]:
                        continue
                    den += k[i, j]
                    if inside:
                        num = num + v[yy, xx] * k[i, j]
            row.append(num / den if den > 0 and not gone[y, x] else np.nan)
        want.append(row)
    E.same("mean over the samples that are there", got, E.arr(want), rtol=1e-9, atol=1e-9)
    if copy:
        E.same("image unchanged", image, before, exact=True)


def axes(E, ratio):
    """the axes of an extended region"""
    np = E.np
    p = Params()
    p.max_extended_width = E.real("width", lo=1, hi=60)
    a, b = E.real("a", lo=0.5, hi=40), E.real("b", lo=0.5, hi=40)
    x = E.real("expansion", lo=1, hi=4)
    got = E.mod("stcal.jump.jump").compute_axes(ratio, ((1.0, 2.0), (a, b), 0.0), x, p)
    small = np.where(a < b, a, b)
    grow = (x - 1) * small if ratio else x
    for one, g in zip((a, b), got):
        w = np.where(one + grow > p.max_extended_width, p.max_extended_width, one + grow) / 2
        E.claim("nearest whole half axis", (g - w <= 0.5 + 1e-9) & (w - g <= 0.5 + 1e-9))


SK = {"skimage": Sk}


def case(name, fn=search, **kw):
    tier = kw.pop("tier", "quick")
    return Case(name, fn, shims=SK, tier=tier, **kw)


P1, P2 = [(3, 3)], [(3, 3), (2, 4)]
B = (0, 2, (3, 3, 4, 5, 0.0))
CASES = [
    case("one-shower", shape=(1, 4, 7, 7), pixels=P1, blobs=[B]),
    case("two-pixels", shape=(1, 4, 7, 7), pixels=P2, blobs=[B]),
    case("two-showers", shape=(1, 5, 7, 7), pixels=P1, blobs=[B, (0, 3, (3, 2, 3, 4, 0.3))], grps_masked_after_shower=0),
    case("last-group", shape=(1, 4, 7, 7), pixels=P1, blobs=[(0, 3, (3, 3, 4, 5, 0.0))], grps_masked_after_shower=5),
    case("two-integrations", shape=(2, 3, 7, 7), pixels=P1, blobs=[(0, 1, (3, 3, 4, 5, 0.0)), (1, 2, (3, 3, 4, 5, 0.0))], grps_masked_after_shower=0),
    case("flagged", shape=(1, 5, 7, 7), pixels=P1, flags=(JUMP, SAT, SAT | JUMP, JUMP | DNU, SAT | DNU, DNU | 16, SAT | 128), blobs=[B]),
    case("flagged-around", shape=(1, 5, 7, 7), pixels=P1, blobs=[B], fixed=[(0, 0, 2, 3, DNU), (0, 3, 3, 4, JUMP), (0, 2, 4, 3, SAT), (0, 3, 4, 3, SAT), (0, 4, 4, 3, SAT), (0, 2, 3, 2, JUMP)]),
    case("pixel-flags", shape=(1, 4, 7, 7), pixels=P1, pdq_flags=(0, DNU, SAT, 16), blobs=[B]),
    case("reference-pixel", shape=(1, 4, 7, 7), pixels=P1, pdq_flags=(REF, REF | DNU, REF | 128), blobs=[B]),
    case("first-group-dead", shape=(1, 5, 7, 7), pixels=P1, dead_groups=[(0, 0)], blobs=[(0, 3, (3, 3, 4, 5, 0.0))]),
    case("later-dead", shape=(2, 4, 7, 7), pixels=P1, dead_groups=[(1, 0)], blobs=[(0, 1, (3, 3, 4, 5, 0.0)), (1, 2, (3, 3, 4, 5, 0.0))]),
    case("earlier-dead", shape=(2, 4, 7, 7), pixels=P1, dead_groups=[(0, 0), (0, 1)], blobs=[(0, 3, (3, 3, 4, 5, 0.0)), (1, 1, (3, 3, 4, 5, 0.0))]),
    case("too-few", shape=(1, 4, 7, 7), pixels=P1, blobs=[B], min_diffs=4, few=True),
    case("just-enough", shape=(1, 4, 7, 7), pixels=P1, blobs=[B], min_diffs=3),
    case("just-enough-two", shape=(2, 3, 7, 7), pixels=P1, blobs=[(1, 1, (3, 3, 4, 5, 0.0))], min_diffs=4, grps_masked_after_shower=0),
    case("reference-pixel-two", shape=(2, 3, 7, 7), pixels=P1, pdq_flags=(REF, REF | 8), blobs=[(1, 1, (3, 3, 4, 5, 0.0))], grps_masked_after_shower=0),
    case("too-few-alive", shape=(2, 4, 7, 7), pixels=P1, dead_groups=[(0, 0), (1, 3)], blobs=[B], min_diffs=5, few=True),
    case("clipped", shape=(2, 4, 7, 7), pixels=P1, blobs=[B, (1, 1, (3, 3, 4, 5, 0.0))], minimum_sigclip_groups=2),
    case("small-region", shape=(1, 4, 9, 13), pixels=[(4, 8)], blobs=[(0, 2, (4, 3, 2, 2, 0.0)), (0, 2, (4, 8, 4, 7, 0.5))], extend_min_area=5),
    case("thin", shape=(1, 4, 13, 9), pixels=[(6, 4)], blobs=[(0, 2, (6, 4, 5, 9, 0.2))], max_extended_width=8, nframes=1),
    case("convolve-3", fn=convolution, shape=(3, 4), n=3, missing=[(0, 0), (1, 1), (2, 3)]),
    case("convolve-3-copy", fn=convolution, shape=(3, 3), n=3, missing=[(0, 1), (1, 1)], copy=True),
    case("convolve-5", fn=convolution, shape=(4, 5), n=5, missing=[(1, 2), (3, 4)]),
    case("convolve-alone", fn=convolution, shape=(5, 5), n=3, missing=[(2, 2), (2, 3), (0, 0)], allbut=True),
    case("axes-ratio", fn=axes, ratio=True),
    case("axes-pixels", fn=axes, ratio=False),
    case("two-pixels-flagged", tier="thorough", shape=(1, 5, 7, 7), pixels=P2, flags=(0, JUMP, SAT), blobs=[B, (0, 3, (3, 2, 3, 4, 0.3))]),
    case("three-integrations", tier="thorough", shape=(3, 4, 7, 7), pixels=P1, blobs=[(0, 1, (3, 3, 4, 5, 0.0)), (1, 2, (3, 3, 4, 5, 0.0)), (2, 3, (3, 3, 3, 5, 0.0))]),
]
