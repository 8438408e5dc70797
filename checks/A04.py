"""Combined footprints: the outline keeps its corners, every part of the overlap counts, and the keyword lists them on the sky."""
from fractions import Fraction

from symx.core import Inconclusive
from symx.harness import Case

MOD = "stcal.alignment.resample_utils"
BOUNDS = ("outlines of 3 to 8 points: triangles and quadrilaterals (also tilted, in both directions, from any starting point) of any size from 1 to 4000 pixels, with points on the edges and "
          "points within 0.04 pixels of a corner; 1 to 3 footprints of 4 corners anywhere; overlaps of up to 3 parts of any kind")
ASSUMPTIONS = ["union and intersection of polygons (shapely) are stand-ins with any result", "the mapping to the sky is linear in each axis", "decimal formatting rounds to the nearest value with that many digits"]

SHAPES = {
    "box": ((0, 0), (1, 0), (1, 1), (0, 1)),
    "diamond": ((1, 0), (2, 1), (1, 2), (0, 1)),
    "tilted": ((0, 3), (4, 0), (7, 4), (3, 7)),
    "triangle": ((0, 0), (4, 0), (0, 3)),
    "el": ((0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)),
}


def simplify(E, shape, extra, reverse=False, start=0, wh=False):
    """extra: (edge, "mid"|"after"|"before"|"same"): a further point on the edge from corner `edge` to the next, or near its start / end"""
    np = E.np
    w = E.real("w", lo=1, hi=4000)
    h = E.real("h", lo=1, hi=4000) if wh else w
    x0, y0 = E.real("x0", lo=-5000, hi=5000), E.real("y0", lo=-5000, hi=5000)
    corners = [(x0 + a * w, y0 + b * h) for a, b in SHAPES[shape]]
    n = len(corners)
    pts, exact = [], True
    for k in range(n):
        pts.append(corners[k])
        nx = corners[(k + 1) % n]
        for j, (e, kind) in enumerate(extra):
            if e != k:
                continue
            if kind == "same":
                pts.append(corners[k])
            elif kind == "mid":
                t = E.pick(f"position {j}", [Fraction(1, 4), Fraction(1, 2)])
                pts.append(tuple(p + (q - p) * t for p, q in zip(corners[k], nx)))
            else:
                exact = False
                d = [E.real(f"d{j}{c}", lo=-0.04, hi=0.04) for c in "xy"]
                if kind == "along":
                    step = (nx[0] - corners[k][0]) / w, (nx[1] - corners[k][1]) / h
                    big = max(abs(float(SHAPES[shape][(k + 1) % n][c] - SHAPES[shape][k][c])) for c in (0, 1))
                    s = E.pick(f"distance {j}", [Fraction(1, 100), Fraction(1, 32)])
                    pts.append(tuple(c + u * s / Fraction(big) for c, u in zip(corners[k], step)))
                elif kind == "end":
                    step = (nx[0] - corners[k][0]) / w, (nx[1] - corners[k][1]) / h
                    big = max(abs(float(SHAPES[shape][(k + 1) % n][c] - SHAPES[shape][k][c])) for c in (0, 1))
                    s = E.pick(f"distance {j}", [Fraction(1, 100), Fraction(1, 32)])
                    pts.append(tuple(c - u * s / Fraction(big) for c, u in zip(nx, step)))
                else:
                    pts.append((corners[k][0] + d[0], corners[k][1] + d[1]))
    if reverse:
        pts = pts[::-1]
    pts = pts[start:] + pts[:start]
    a = E.arr([list(p) for p in pts])
    got = E.mod(MOD)._simplify_by_angle(a)
    E.claim("one point for every corner", got.shape[0] == n if exact else got.shape[0] >= n)
    for k, (cx, cy) in enumerate(corners):
        near = (np.abs(got[:, 0] - cx) <= (1e-6 if exact else 0.05)) & (np.abs(got[:, 1] - cy) <= (1e-6 if exact else 0.05))
        E.claim(f"corner {k} is kept", np.any(near))


class Strict:
    def __getattr__(self, name):
        if name in ("geoms", "exterior", "interiors", "coords", "xy") or name.startswith("__"):
            raise AttributeError(name)
        raise Inconclusive(f"stand-in has no {name}")


class Poly(Strict):
    def __init__(self, coords=None):
        self.coords_ = coords
        self.is_empty = coords is None
        self.geom_type = "Polygon"

    @property
    def exterior(self):
        c = self.coords_
        ring = Strict()
        ring.coords = Strict()
        x, y = [p[0] for p in c], [p[1] for p in c]
        ring.coords.xy = (x + x[:1], y + y[:1])
        return ring


class Parts(Strict):
    def __init__(self, geoms, kind):
        self.geoms = geoms
        self.is_empty = not geoms
        self.geom_type = kind


class Multi(Parts):
    pass


class Collection(Parts):
    pass


class Line(Strict):
    def __init__(self):
        self.is_empty, self.geom_type = False, "LineString"


class Empty(Strict):
    def __init__(self):
        self.is_empty, self.geom_type, self.geoms = True, "GeometryCollection", []


def shapely(E, union=None, overlap=None, seen=None):
    class Geometry:
        Polygon, MultiPolygon, GeometryCollection, LineString = Poly, Multi, Collection, Line

    class Shapely:
        geometry = Geometry
        Polygon, MultiPolygon = Poly, Multi

        @staticmethod
        def unary_union(polys):
            seen.append([p.coords_ for p in polys])
            return union()

        @staticmethod
        def intersection(a, b):
            seen.append((a.coords_, b.coords_))
            return overlap()

    return Shapely


def box(E, k, big=True):
    x, y = E.real(f"bx{k}", lo=-2000, hi=2000), E.real(f"by{k}", lo=-2000, hi=2000)
    w, h = E.real(f"bw{k}", lo=1, hi=2000), E.real(f"bh{k}", lo=1, hi=2000)
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]


def same_corners(E, name, got, want):
    E.claim(f"{name}: number of parts", len(got) == len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        E.same(f"{name}: part {k}", g, E.arr([list(p) for p in w]), rtol=1e-9, atol=1e-6)


def parts(E, of, kinds):
    """every area of a union or intersection becomes an outline"""
    m = E.mod(MOD)
    boxes = [box(E, k) for k in range(2)]
    kind = E.pick("kind", kinds)
    polys = [Poly(b) for b in boxes]
    geo, want = {
        "empty": (Empty, []), "empty polygon": (lambda: Poly(None), []), "one": (lambda: polys[0], boxes[:1]), "two": (lambda: Multi(polys, "MultiPolygon"), boxes),
        "line": (Line, []), "mixed": (lambda: Collection([Line(), polys[0]], "GeometryCollection"), boxes[:1]),
        "one of many": (lambda: Multi(polys[:1], "MultiPolygon"), boxes[:1]),
    }[kind]
    seen = []
    old = m.shapely
    m.shapely = shapely(E, union=geo, overlap=geo, seen=seen)
    try:
        if of == "union":
            got = m.combine_footprints(E.arr([[list(p) for p in b] for b in boxes]))
        else:
            other = box(E, 9)
            got = m._intersect_with_bbox([E.arr([list(p) for p in boxes[0]])], E.arr([list(p) for p in other]))
    finally:
        m.shapely = old
    same_corners(E, "outlines", got, want)
    if of == "union":
        E.claim("one union of all footprints", len(seen) == 1 and len(seen[0]) == 2)
        for c, b in zip(seen[0], boxes):
            E.same("footprint", c, E.arr([list(p) for p in b]))
    else:
        E.claim("one intersection", len(seen) == 1)
        pair = [E.arr([list(p) for p in boxes[0]]), E.arr([list(p) for p in other])]
        E.same("with the region", E.arr(sum([list(c[i]) for c in seen[0] for i in range(4)], [])), E.arr(sum([list(c[i]) for c in pair for i in range(4)], [])))


class Sky:
    """a linear mapping"""

    def __init__(self):
        outer = self

        class Inverse:
            def __call__(self, ra, dec):
                return (ra - 150) * 1024, (dec + 20) * 2048

        self.inverse = Inverse()
        del outer

    def __call__(self, x, y):
        return 150 + x / 1024, -20 + y / 2048


def keyword(E, n, text=(), cut=None, parts_out=1):
    """combine_sregions with its polygon steps as stand-ins"""
    np = E.np
    m, U = E.mod(MOD), E.mod("stcal.alignment.util")
    sky = Sky()
    pix = [E.floats(f"p{k}", (4, 2), "f8", lo=-4000, hi=4000) for k in range(n)]

    def world(p):
        ra, dec = sky(p[:, 0], p[:, 1])
        return np.stack([ra, dec], axis=1)

    regions = [U.compute_s_region_keyword(world(p)) if k in text else world(p) for k, p in enumerate(pix)]
    out = [E.floats(f"out{k}", (3 + k, 2), "f8", lo=-4000, hi=4000) for k in range(parts_out)]
    region = E.floats("region", (4, 2), "f8", lo=-4000, hi=4000) if cut else None
    calls = {}

    def combine(f):
        calls["combine"] = f
        return out if not cut else ["combined"]

    def intersect(polys, bbox):
        calls["cut"] = (polys, bbox)
        return out

    old = m.combine_footprints, m._intersect_with_bbox
    m.combine_footprints, m._intersect_with_bbox = combine, intersect
    err = s = None
    try:
        s = m.combine_sregions(regions, sky) if not cut else m.combine_sregions(regions, sky, world(region))
    except ValueError as e:
        err = e
    finally:
        m.combine_footprints, m._intersect_with_bbox = old
    f = calls["combine"]
    E.claim("all footprints are combined", len(f) == n)
    for k in range(n):
        E.same(f"footprint {k} in pixels", f[k], pix[k], rtol=1e-9, atol=1e-5 if k in text else 1e-6)
    if cut:
        E.claim("the combined outline is cut", calls["cut"][0] == ["combined"])
        E.same("with the region in pixels", calls["cut"][1], region, rtol=1e-9, atol=1e-6)
    E.claim("refused exactly without an overlap", (err is not None) == (parts_out == 0))
    if err is not None:
        return
    words = s.split("POLYGON ICRS")
    E.claim("one polygon per part", words[0] == "" and len(words) == parts_out + 1)
    for k, t in enumerate(words[1:]):
        E.claim(f"part {k}: corners on the sky", np.abs(U.sregion_to_footprint(t) - world(out[k])) <= 1e-8)


CASES = [
    Case("box", simplify, shape="box", extra=(), wh=True),
    Case("box-mid", simplify, shape="box", extra=((0, "mid"), (1, "mid")), wh=True),
    Case("box-mid-reverse", simplify, shape="box", extra=((2, "mid"), (3, "mid")), reverse=True, start=2, wh=True),
    Case("box-double", simplify, shape="box", extra=((0, "same"), (2, "same"), (2, "same"))),
    Case("box-double-last", simplify, shape="box", extra=((3, "same"), (0, "mid")), reverse=True, start=1),
    Case("box-along", simplify, shape="box", extra=((0, "along"), (0, "end"), (2, "along"), (2, "end"))),
    Case("box-end", simplify, shape="box", extra=((0, "end"),), wh=True),
    Case("box-end-reverse", simplify, shape="box", extra=((1, "along"),), reverse=True, start=3),
    Case("box-near", simplify, shape="box", extra=((1, "near"),), query_ms=6000),
    Case("box-near-reverse", simplify, shape="box", extra=((1, "near"),), reverse=True, start=2, query_ms=6000),
    Case("diamond", simplify, shape="diamond", extra=((0, "mid"), (3, "mid")), start=1),
    Case("diamond-end", simplify, shape="diamond", extra=((1, "end"),)),
    Case("tilted", simplify, shape="tilted", extra=((0, "mid"),), reverse=True),
    Case("tilted-end", simplify, shape="tilted", extra=((0, "end"), (2, "along"))),
    Case("triangle", simplify, shape="triangle", extra=((1, "mid"), (2, "same"))),
    Case("triangle-along", simplify, shape="triangle", extra=((1, "along"), (2, "end")), start=2),
    Case("el", simplify, shape="el", extra=((2, "mid"), (3, "same"))),
    Case("el-end", simplify, shape="el", extra=((2, "end"),), start=2),
    Case("union", parts, of="union", kinds=["one", "two", "one of many"]),
    Case("overlap", parts, of="overlap", kinds=["empty", "empty polygon", "one", "two", "line", "mixed", "one of many"]),
    Case("keyword-one", keyword, n=1),
    Case("keyword-text", keyword, n=2, text=(1,)),
    Case("keyword-parts", keyword, n=1, parts_out=2),
    Case("keyword-cut", keyword, n=1, cut=True),
    Case("keyword-cut-nothing", keyword, n=1, cut=True, parts_out=0),
]
