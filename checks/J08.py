"""Which detection is used: skipped with too few groups, sigma clipping with enough; what sigma clipping flags."""
from symx.harness import Case

from .jumpspec import DNU, JUMP, SAT, params

BOUNDS = ("1 to 3 integrations of 2 to 5 groups, 1x1 to 1x3 pixels; all data and read noise; unusable groups per integration and flags of samples forked; "
          "any result of the clipping; limits around the counts that occur")
ASSUMPTIONS = ["astropy's sigma_clip is a stand-in with any mask"]


class Clipped:
    def __init__(self, mask):
        self.mask = mask


def harness(E, shape, only_ints, minclip, mingroups, dead=(0,), flags=(0,), uneven=False, preset=False):
    """dead: numbers of groups unusable in all pixels (the first ones of an integration); flags: of the sample in the last group"""
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    gdq = np.zeros(shape, dtype=np.uint8)
    nd = [E.pick(f"dead{i}", list(dead)) for i in range(ni)]
    fl = {}
    for i in range(ni):
        for g in range(ng):
            for x in range(nx):
                f = DNU if g < nd[i] else 0
                if g == ng - 1 and x == 0 and f == 0:
                    f = E.pick(f"flag{i}", list(flags))
                fl[i, g, x] = f
                gdq[i, g, 0, x] = f
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    kw = {}
    if uneven:
        kw = dict(dt_group=np.array([1.0, 2.0, 1.0, 1.0][:ng - 1]), n_reads_groupdiff=np.array([2.0] * (ng - 1)))
    p = params(E, normal_rej_thresh=4.5, min_diffs_single_pass=1, minimum_groups=mingroups, minimum_sigclip_groups=minclip, only_use_ints=only_ints, **kw)
    m = E.mod("stcal.jump.twopoint_difference")
    mask = E.bools("clip", (ni, ng - 1, ny, nx))
    seen = []

    class Stats:
        @staticmethod
        def sigma_clip(x, sigma=3, axis=None, masked=True, return_bounds=False, **k):
            seen.append((x.copy(), sigma, axis))
            c = Clipped(mask)
            return (c, None, None) if return_bounds else c

    d0, g0 = data.copy(), gdq.copy()
    old = m.stats
    m.stats = Stats
    try:
        out, below, above, n = m.find_crs(data, gdq, rn, p)
    finally:
        m.stats = old
    usable = [sum(any(not fl[i, g, x] & DNU for x in range(nx)) for g in range(ng)) for i in range(ni)]
    enough = (ni if only_ints else sum(usable)) >= minclip
    if not enough and min(usable) < mingroups:
        E.claim("skipped", n == -99 and not seen)
        E.same("flags unchanged", out, g0, exact=True)
        E.cover("skipped", True)
        return
    E.claim("not skipped", n != -99)
    E.claim("clipping is used exactly with enough of evenly spaced groups", bool(seen) == (enough and not uneven))
    if not seen:
        E.cover("other", True)
        return
    x, sigma, axis = seen[0]
    diffs = np.full((ni, ng - 1, ny, nx), np.nan, dtype=np.float32)
    for i in range(ni):
        for g in range(1, ng):
            for k in range(nx):
                if not (fl[i, g, k] & 3 or fl[i, g - 1, k] & 3):
                    diffs[i, g - 1, 0, k] = d0[i, g, 0, k] - d0[i, g - 1, 0, k]
    E.same("differences of usable samples", x, diffs, rtol=1e-6)
    E.claim("clipped along the integrations, or all groups, at the threshold", sigma == 4.5 and (axis == 0 if only_ints else tuple(axis) == (0, 1)))
    want = g0.copy()
    for i in range(ni):
        for g in range(1, ng):
            hit = [np.logical_and(mask[i, g - 1, 0, k], not (fl[i, g, k] & 3 or fl[i, g - 1, k] & 3)) for k in range(nx)]
            marked = [np.logical_or(h, fl[i, g, k] & (DNU | JUMP) != 0) for k, h in enumerate(hit)]
            whole = marked[0]
            for q in marked[1:]:
                whole = np.logical_and(whole, q)
            for k in range(nx):
                jump = np.logical_or(hit[k], fl[i, g, k] & JUMP != 0)
                bare = fl[i, g, k] & ~JUMP == 0
                keep = np.logical_and(jump, np.logical_not(np.logical_and(whole, bare)))
                want[i, g, 0, k] = E.ite(keep, fl[i, g, k] | JUMP, fl[i, g, k] & ~JUMP)
    E.same("flags", out, want, exact=True)
    total = 0
    for v in [out[i, g, 0, k] for i in range(ni) for g in range(ng) for k in range(nx)]:
        total = total + np.where((v & JUMP) != 0, 1, 0)
    E.claim("number of jumps", n == total)
    E.cover("jump", n > 0)


CASES = [
    Case("ints", harness, shape=(3, 3, 1, 2), only_ints=True, minclip=3, mingroups=3),
    Case("ints-flags", harness, shape=(2, 3, 1, 2), only_ints=True, minclip=2, mingroups=3, flags=(0, SAT, DNU, JUMP)),
    Case("ints-dead", harness, shape=(2, 4, 1, 2), only_ints=True, minclip=2, mingroups=3, dead=(0, 1, 3)),
    Case("too-few-ints", harness, shape=(2, 4, 1, 1), only_ints=True, minclip=3, mingroups=3, dead=(0, 1, 2, 4)),
    Case("groups", harness, shape=(1, 4, 1, 3), only_ints=False, minclip=4, mingroups=3),
    Case("groups-dead", harness, shape=(2, 4, 1, 1), only_ints=False, minclip=6, mingroups=3, dead=(0, 1, 2, 3)),
    Case("groups-dead-three", harness, shape=(3, 3, 1, 1), only_ints=False, minclip=7, mingroups=2, dead=(0, 1, 2)),
    Case("groups-flags", harness, shape=(1, 3, 1, 2), only_ints=False, minclip=2, mingroups=2, flags=(0, SAT, DNU, JUMP)),
    Case("uneven", harness, shape=(1, 4, 1, 1), only_ints=False, minclip=3, mingroups=2, uneven=True),
    Case("large", harness, shape=(3, 5, 1, 3), only_ints=True, minclip=2, mingroups=3, dead=(0, 2), flags=(0, SAT, JUMP), tier="thorough"),
]
