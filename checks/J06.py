"""Snowballs: which regions of jumps count, and what is flagged around them and their saturated cores."""
import numpy as onp
import skimage
import skimage.draw
import skimage.measure

from symx.harness import Case
from symx.z3boot import z3

from .jumpspec import DNU, JUMP, SAT

BOUNDS = ("1 to 2 integrations of 2 to 4 groups; images up to 26 x 20 pixels; jump regions and saturated regions of fixed shape, each present or not in "
          "each group (all combinations forked); do-not-use and further flag bits of all samples symbolic; fixed parameters per case")
ASSUMPTIONS = ["skimage's label, regionprops and draw.ellipse run as they are (on the concrete jump and saturation planes)"]


class Sk:
    """stand-in for skimage in the symbolic world: images whose elements are concrete go to the real one"""

    class measure:  # noqa: N801
        @staticmethod
        def label(image, *a, **k):
            return skimage.measure.label(_np(image), *a, **k)

        regionprops = staticmethod(skimage.measure.regionprops)

    class draw:  # noqa: N801
        @staticmethod
        def ellipse(r, c, rr, cr, shape=None, rotation=0.0):
            return skimage.draw.ellipse(float(r), float(c), float(rr), float(cr), shape, float(rotation))


def _np(a):
    """the concrete values of an image (bits known by construction are found by simplification)"""
    if not hasattr(a, "to_np"):
        return onp.asarray(a)
    out = onp.zeros(a.shape, dtype=a.dtype)
    for ix in onp.ndindex(*a.shape):
        v = a.o[ix]
        if hasattr(v, "sexpr"):
            v = z3.simplify(v)
            v = z3.is_true(v) if z3.is_bool(v) else v.as_long()
        out[ix] = v
    return out


class Params:
    pass


def regions(plane, min_area):
    """(row, column, minor axis, major axis, orientation from the row axis) of the connected regions"""
    out = []
    for r in skimage.measure.regionprops(skimage.measure.label(plane.astype(onp.uint8))):
        if r.area_filled >= min_area:
            out.append((float(r.centroid[0]), float(r.centroid[1]), r.axis_minor_length - 1, r.axis_major_length - 1, float(r.orientation)))
    return out


def filled(shape, cy, cx, minor, major, orient):
    """pixels inside the ellipse with the (full) axes rounded to whole half axes"""
    mask = onp.zeros(shape, dtype=bool)
    a, b = round(major / 2), round(minor / 2)
    if a and b:
        rr, cc = skimage.draw.ellipse(round(cy), round(cx), a, b, shape, orient)
        mask[rr, cc] = True
    return mask


def inside(y, x, reg):
    cy, cx, minor, major, th = reg
    dy, dx = y - cy, x - cx
    along = dy * onp.cos(th) + dx * onp.sin(th)
    across = -dy * onp.sin(th) + dx * onp.cos(th)
    return (along / (major / 2)) ** 2 + (across / (minor / 2)) ** 2 <= 1


def spec(J, S, p):
    """J, S: concrete planes (ni, ng, ny, nx) of jumps and saturation; returns new planes and the number of snowballs"""
    J, S = J.copy(), S.copy()
    ni, ng, ny, nx = J.shape
    cores = onp.zeros((ni, ny, nx), dtype=bool)
    total = 0
    for i in range(ni):
        for g in range(1, ng):
            new = S[i, g] & ~S[i, g - 1]
            sats = regions(new, p.min_sat_area)
            nxt = regions(S[i, g + 1] & ~S[i, g], p.min_sat_area) if g < ng - 1 else []
            jumps = regions(J[i, g], p.min_jump_area)
            if p.sat_required_snowball:
                balls = []
                for r in jumps:
                    e = p.edge_size
                    edge = r[0] < e or r[1] < e or r[0] > ny - e or r[1] > nx - e
                    if edge or any(inside(s[0], s[1], r) for s in sats + nxt):
                        balls.append(r)
                for cy, cx, minor, major, th in sats:
                    if minor > p.min_sat_radius_extend:
                        w = p.max_extended_width
                        core = filled((ny, nx), cy, cx, min(minor + p.sat_expand, w), min(major + p.sat_expand, w), th)
                        S[i, g:, core] = True
                        J[i, g:, core] = False
                        cores[i] |= filled((ny, nx), cy, cx, minor, major, th)
            else:
                balls = jumps
            total += len(balls)
            for cy, cx, minor, major, th in balls:
                grow = (p.expand_factor - 1) * minor
                w = p.max_extended_width
                J[i, g] |= filled((ny, nx), cy, cx, min(minor + grow, w), min(major + grow, w), th) & ~S[i, g]
    if p.mask_persist_grps_next_int:
        for i in range(1, ni):
            J[i, 1:min(p.persist_grps_flagged, ng)] |= cores[i - 1]
    return J, S, total


def disc(shape, cy, cx, ry, rx, rot=0.0):
    m = onp.zeros(shape, dtype=bool)
    rr, cc = skimage.draw.ellipse(cy, cx, ry, rx, shape, rot)
    m[rr, cc] = True
    return m


DEFAULT = dict(min_sat_area=1, min_jump_area=6, sat_required_snowball=True, expand_factor=2.0, edge_size=0, mask_persist_grps_next_int=False,
               persist_grps_flagged=0, min_sat_radius_extend=0.5, sat_expand=2, max_extended_width=200)


def harness(E, shape, jumps, sats, other=0x11, grow=True, **params):
    """jumps, sats: lists of (integration, first group, number of groups, mask parameters); each there or not"""
    np = E.np
    ni, ng, ny, nx = shape
    J, S = onp.zeros(shape, dtype=bool), onp.zeros(shape, dtype=bool)
    for k, (i, g, n, where) in enumerate(jumps):
        if E.pick(f"jump region {k}", [True, False]):
            J[i, g:g + n] |= disc((ny, nx), *where)
    for k, (i, g, where) in enumerate(sats):
        if E.pick(f"saturated region {k}", [True, False]):
            S[i, g:] |= disc((ny, nx), *where)
    J &= ~S
    p = Params()
    for key, v in {**DEFAULT, **params}.items():
        setattr(p, key, v)
    p.fl_jump, p.fl_sat, p.fl_dnu = JUMP, SAT, DNU
    noise = E.bits("other", shape, "u1", mask=other) & other
    planes = JUMP * J.astype(onp.uint8) + SAT * S.astype(onp.uint8)
    gdq = np.array(planes) | noise
    m = E.mod("stcal.jump.jump")
    got, total = m.flag_large_events(gdq.copy(), JUMP, SAT, p)
    wj, ws, wn = spec(J, S, p)
    want = np.array(JUMP * wj.astype(onp.uint8) + SAT * ws.astype(onp.uint8)) | noise
    E.claim("number of snowballs", total == wn)
    E.same("flags", got, want, exact=True)
    E.cover("a snowball", wn > 0)
    if grow:
        E.cover("more flags than before", bool((wj & ~J).any()))


SK = {"skimage": Sk}


def case(name, **kw):
    tier = kw.pop("tier", "quick")
    return Case(name, harness, shims=SK, tier=tier, **kw)


R2, R3 = (1, 2, 21, 21), (1, 3, 21, 21)
CASES = [
    case("two-groups", shape=R2, jumps=[(0, 1, 1, (10, 10, 4, 4))], sats=[(0, 1, (10, 10, 2, 2))]),
    case("three-groups", shape=R3, jumps=[(0, 1, 1, (10, 10, 4, 4)), (0, 2, 1, (10, 10, 4, 4))], sats=[(0, 1, (10, 10, 2, 2)), (0, 2, (10, 11, 2.2, 2.2))]),
    case("core-next-group", shape=(1, 4, 17, 17), jumps=[(0, 1, 1, (8, 8, 4, 4)), (0, 2, 1, (8, 8, 4, 4))], sats=[(0, 2, (8, 8, 2, 2)), (0, 3, (8, 4, 2, 2))]),
    case("core-off-centre-vertical", shape=(1, 3, 29, 21), jumps=[(0, 1, 1, (14, 10, 10, 3.5))], sats=[(0, 1, (8, 10, 1.5, 1.5)), (0, 2, (14, 16, 1.5, 1.5))]),
    case("core-off-centre-horizontal", shape=(1, 3, 21, 29), jumps=[(0, 1, 1, (10, 14, 3.5, 10))], sats=[(0, 1, (10, 8, 1.5, 1.5)), (0, 2, (16, 14, 1.5, 1.5))]),
    case("core-off-centre-diagonal", shape=(1, 3, 31, 27), jumps=[(0, 1, 1, (14, 13, 10, 3.5, 0.6))], sats=[(0, 1, (9, 10, 1.5, 1.5)), (0, 2, (9, 17, 1.5, 1.5))]),
    case("edge-wide", shape=(1, 2, 12, 24), edge_size=4, jumps=[(0, 1, 1, (6, 14, 2.5, 2.5)), (0, 1, 1, (6, 21, 2.5, 2.5)), (0, 1, 1, (6, 3, 2.5, 2.5))], sats=[]),
    case("edge-exact", shape=(1, 2, 24, 26), edge_size=5, jumps=[(0, 1, 1, (5, 13, 2.5, 2.5)), (0, 1, 1, (12, 5, 2.5, 2.5)), (0, 1, 1, (19, 13, 2.5, 2.5)), (0, 1, 1, (12, 21, 2.5, 2.5))], sats=[], grow=False),
    case("edge-tall", shape=(1, 2, 24, 12), edge_size=4, jumps=[(0, 1, 1, (14, 6, 2.5, 2.5)), (0, 1, 1, (21, 6, 2.5, 2.5)), (0, 1, 1, (3, 6, 2.5, 2.5))], sats=[]),
    case("no-core-needed", shape=R3, sat_required_snowball=False, jumps=[(0, 1, 1, (10, 10, 4, 4)), (0, 2, 1, (5, 14, 2, 3)), (0, 2, 1, (17, 10, 0.6, 4.5))], sats=[(0, 1, (10, 10, 2, 2)), (0, 2, (12, 9, 3, 2))]),
    case("two-balls", shape=(1, 2, 18, 26), jumps=[(0, 1, 1, (8, 6, 3.5, 3.5)), (0, 1, 1, (9, 18, 4.5, 3.5))], sats=[(0, 1, (8, 6, 2, 2)), (0, 1, (9, 18, 2, 2))]),
    case("small-areas", shape=R2, min_sat_area=12, min_jump_area=30, jumps=[(0, 1, 1, (10, 10, 4, 4)), (0, 1, 1, (4, 4, 2.5, 2.5))], sats=[(0, 1, (10, 10, 1.5, 1.5)), (0, 1, (4, 4, 2.1, 2.1))], grow=False),
    case("growing-core-too-small", shape=R3, min_sat_area=14, jumps=[(0, 1, 1, (10, 10, 6, 6))], sats=[(0, 1, (10, 9, 1.8, 2.1)), (0, 2, (10, 12, 1.8, 1.8))], grow=False),
    case("core-too-small-to-extend", shape=R3, min_sat_radius_extend=2.5, jumps=[(0, 1, 1, (10, 10, 5, 5))], sats=[(0, 1, (10, 10, 1.5, 1.5)), (0, 2, (10, 10, 3, 3))]),
    case("narrow-core", shape=(1, 2, 23, 21), min_sat_radius_extend=3.5, jumps=[(0, 1, 1, (11, 10, 6, 6))], sats=[(0, 1, (11, 10, 2, 6)), (0, 1, (11, 10, 6, 2.5, 0.2))]),
    case("width-limit", shape=(1, 2, 27, 27), max_extended_width=11, sat_expand=6, jumps=[(0, 1, 1, (13, 13, 5, 5))], sats=[(0, 1, (13, 13, 4, 3.4))]),
    case("persist", shape=(2, 4, 17, 15), mask_persist_grps_next_int=True, persist_grps_flagged=3,
         jumps=[(0, 1, 1, (8, 7, 4, 4)), (1, 2, 1, (8, 7, 3, 4))], sats=[(0, 1, (8, 7, 2, 2.2)), (1, 2, (6, 7, 2, 2))]),
    case("persist-all-groups", shape=(2, 3, 15, 15), mask_persist_grps_next_int=True, persist_grps_flagged=25, jumps=[(0, 1, 1, (7, 7, 4, 4))], sats=[(0, 1, (7, 7, 2, 2.2))]),
    case("persist-only-next", shape=(3, 2, 13, 13), mask_persist_grps_next_int=True, persist_grps_flagged=2, jumps=[(0, 1, 1, (6, 6, 4, 4))], sats=[(0, 1, (6, 6, 2, 2.2))]),
    case("persist-zero", shape=(2, 3, 15, 15), mask_persist_grps_next_int=True, persist_grps_flagged=0, jumps=[(0, 1, 1, (7, 7, 4, 4))], sats=[(0, 1, (7, 7, 2, 2.2))]),
    case("image-corner", shape=(1, 3, 16, 19), edge_size=5, jumps=[(0, 1, 2, (2, 2, 3, 3)), (0, 1, 1, (14, 17, 4, 4))], sats=[(0, 1, (1, 1, 2, 2)), (0, 2, (14, 17, 2, 2))]),
    case("tilted-extension", shape=(1, 2, 27, 27), jumps=[(0, 1, 1, (13, 13, 8, 4, 0.7))], sats=[(0, 1, (13, 13, 5, 2.2, 0.7)), (0, 1, (13, 13, 5, 2.2, -0.5))]),
    case("four-groups-two-integrations", tier="thorough", shape=(2, 4, 21, 25), edge_size=3, mask_persist_grps_next_int=True, persist_grps_flagged=3,
         jumps=[(0, 1, 2, (10, 8, 4, 5)), (0, 2, 1, (6, 18, 3, 3)), (1, 1, 1, (14, 12, 4, 3, 0.5)), (1, 3, 1, (3, 3, 3, 3))],
         sats=[(0, 1, (10, 8, 2, 2)), (0, 2, (6, 18, 1.6, 2)), (1, 2, (14, 12, 2, 2)), (1, 3, (3, 3, 1.5, 1.5))]),
]
