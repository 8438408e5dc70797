"""Footprint keyword: text of the corners, read back as the same corners."""
from symx.harness import Case

BOUNDS = "footprints of four corners (any values, missing ones included) for the keyword, listed texts for reading; bounding boxes of any 2..4-d shape up to 99"
ASSUMPTIONS = ["decimal formatting rounds to the nearest value with that many digits"]


def keyword(E):
    np = E.np
    U = E.mod("stcal.alignment.util")
    f = E.floats("f", (4, 2), "f8", lo=-360, hi=360, nan=True)
    s = U.compute_s_region_keyword(f)
    bad = np.isnan(f).any()
    if s is None:
        E.claim("no keyword exactly when a corner is missing", bad)
        return
    E.claim("no keyword exactly when a corner is missing", ~bad)
    E.claim("polygon in ICRS", s.startswith("POLYGON ICRS ") and len(s.split()) == 10)
    back = U.sregion_to_footprint(s)
    E.claim("four corners", back.shape == (4, 2))
    E.claim("corners come back within the digits kept", np.abs(back - f) <= 1e-9)


class FakeWcs:
    def __init__(self, pts, box):
        self.pts, self.bounding_box, self.calls = pts, box, []

    def footprint(self, bounding_box=None, center=True, axis_type=None):
        self.calls.append((bounding_box, center, axis_type))
        return self.pts.copy()


def region(E):
    """the keyword of a mapping: corners of its bounding box, longitudes from 0 to 360"""
    np = E.np
    U = E.mod("stcal.alignment.util")
    f = E.floats("f", (4, 2), "f8", lo=-360, hi=720)
    box = E.pick("box", (None, ((-0.5, 3.5), (1.5, 4.5))))
    shape = E.pick("shape", (None, (5, 7), (2, 5, 7)))
    center = E.pick("center", (True, False))
    w = FakeWcs(f, box)
    try:
        s = U.compute_s_region_imaging(w, shape=shape, center=center)
    except ValueError:
        E.claim("refused without box and shape only", box is None and shape is None)
        return
    E.claim("refused without box and shape only", box is not None or shape is not None)
    use = box if box is not None else ((-0.5, 6.5), (-0.5, 4.5))
    E.claim("corners of the bounding box, or of the image", w.calls == [(use, center, "spatial")])
    E.claim("the bounding box is kept, or set from the shape", w.bounding_box == use)
    back = U.sregion_to_footprint(s)
    lon = np.where(f[:, 0] < 0, f[:, 0] + 360, f[:, 0])
    lon = np.where(lon >= 360, lon - 360, lon)
    lon = np.where(lon >= 360, lon - 360, lon)
    E.claim("longitudes in [0, 360], latitudes as they are", (np.abs(back[:, 0] - lon) <= 1e-7) & (np.abs(back[:, 1] - f[:, 1]) <= 1e-7))


def box(E):
    U = E.mod("stcal.alignment.util")
    ny = E.ints("ny", (), lo=1, hi=99)
    nx = E.ints("nx", (), lo=1, hi=99)
    lead = E.pick("lead", ((), (3,), (2, 3)))
    (a, b), (c, d) = U.wcs_bbox_from_shape(lead + (ny, nx))
    E.same("half a pixel around the outermost pixels", E.arr([a, b, c, d]), E.arr([-0.5, nx - 0.5, -0.5, ny - 0.5]))


def text(E):
    """texts as they occur in headers"""
    np = E.np
    U = E.mod("stcal.alignment.util")
    s, want = E.pick("text", (
        ("POLYGON ICRS  1.5 -2.25 3 4 5.125 6 -7 8", [[1.5, -2.25], [3, 4], [5.125, 6], [-7, 8]]),
        ("POLYGON 1 2 3 4 5 6", [[1, 2], [3, 4], [5, 6]]),
        ("polygon icrs 1.0 2.0\t3.0 4.0  ", [[1, 2], [3, 4]])))
    E.same("corners of a text", U.sregion_to_footprint(s), np.array(want, dtype=float))


CASES = [Case("keyword", keyword), Case("region", region), Case("box", box), Case("text", text)]
