"""Size, reference pixel and bounding box of a combined mapping."""
import types

from symx.core import Inconclusive
from symx.harness import Case

from .A01 import middle, point

BOUNDS = "1 or 2 footprints of 2..3 points, any positions, linear mapping with listed scales; requested shapes up to 12 pixels"
ASSUMPTIONS = ["the sky mapping is a linear stand-in passed in by the caller"]


class Linear:
    """sky = scale * pixel + zero"""

    def __init__(self, scale, zero):
        self.scale, self.zero = scale, zero

    def inverse(self, lon, lat):
        return tuple((q - z) / s for q, z, s in zip((lon, lat), self.zero, self.scale))


def low(np, v):
    m = v[0]
    for i in range(1, v.shape[0]):
        m = np.where(v[i] < m, v[i], m)
    return m


def setup(E, sizes, scale, span):
    np = E.np
    zero = [E.real("zero0", lo=-2, hi=2), E.real("zero1", lo=-2, hi=2)]
    fp = [E.floats(f"fp{k}", (n, 2), "f8", lo=-span, hi=span) for k, n in enumerate(sizes)]
    t = Linear(scale, zero)
    every = np.concatenate(fp)
    px = [(every[:, i] - zero[i]) / scale[i] for i in range(2)]
    return t, zero, fp, px


def expect(E, t, px, fid, crpix, shape):
    """(box, shape, offset): the footprints' extent in pixels, shifted so that the reference position is at the reference pixel"""
    np = E.np
    ref = t.inverse(*fid)
    box, size, offs = [], [], []
    for i in range(2):
        lo, hi = low(np, px[i]), -low(np, -px[i])
        off = ref[i] - lo if crpix is None else crpix[i] - ref[i]
        lo, hi = lo + off, hi + off
        offs.append(off)
        whole = lambda v: np.trunc(v + 0.5)
        if shape is None:
            n = whole(hi)
            box.append((-0.5, n - 0.5))
        else:
            n = shape[::-1][i]
            a, b = whole(lo), whole(hi)
            box.append((np.where(a > 0, a, 0) - 0.5, np.where(b < n, b, n) - 0.5))
        size.append(n)
    return box, size[::-1], offs


def claims(E, got, want):
    for i in range(2):
        E.same("offset from intermediate to pixel coordinates", got[2][i], want[2][i])
        E.same("image size is the extent in pixels, or as requested", got[1][i], want[1][i])
        for j in range(2):
            E.same("bounding box covers the footprints within the image", got[0][i][j], want[0][i][j])


def bounds(E, sizes, scale, shape=None, crpix=False, at_zero=False, span=6):
    U = E.mod("stcal.alignment.util")
    t, zero, fp, px = setup(E, sizes, scale, span)
    fid = zero if at_zero else [E.real("fid0", lo=-3, hi=3), E.real("fid1", lo=-3, hi=3)]
    cr = [E.real("crpix0", lo=-5, hi=15), E.real("crpix1", lo=-5, hi=15)] if crpix else None
    keep = [f.copy() for f in fp]
    got = U._compute_bounding_box_with_offsets(fp, t, fid, cr, shape)
    claims(E, got, expect(E, t, px, fid, cr, shape))
    for a, b in zip(fp, keep):
        E.same("footprints are left alone", a, b, exact=True)


class Frame:
    def __init__(self, name):
        self.name = name


class Step:
    def __init__(self, frame, transform=None):
        self.frame, self.transform = frame, transform


class FakeGwcs:
    def __init__(self, steps):
        self.steps = steps
        self.forward_transform = steps[0].transform
        self.output_frame = steps[-1].frame
        self.input_frame = steps[0].frame


class FakeFits:
    def __init__(self, projection, crpix=(0, 0), crval=(0, 0), cdelt=(1, 1), pc=((1, 0), (0, 1))):
        self.crpix, self.crval, self.cdelt, self.pc = crpix, crval, cdelt, pc


def shims():
    g = types.ModuleType("gwcs")
    g.WCS, g.Step, g.FITSImagingWCSTransform = FakeGwcs, Step, FakeFits
    g.wcs = types.SimpleNamespace(WCS=FakeGwcs)
    return {"gwcs": g}


def value(E, p):
    """parameter of the built transform"""
    return p.value if hasattr(p, "value") and not E.sym else p


def whole(E, shape, crpix, rot, parity, crval):
    """the mapping that comes out"""
    np = E.np
    import gwcs
    from astropy import coordinates, units
    from gwcs import coordinate_frames as cf

    U = E.mod("stcal.alignment.util")
    t, zero, fp, px = setup(E, (2,), (1.0, 0.5), 5)
    v3 = E.real("v3yangle", lo=-180, hi=180)
    roll = E.real("roll", lo=-180, hi=180)
    # no rotation by exactly a symbolic angle in the stand-in: only the matrix is looked at
    info = {"v3yangle": v3, "vparity": parity, "roll_ref": roll, "ra_ref": 5.0, "dec_ref": 6.0}
    rotation = E.real("rotation", lo=-180, hi=180) if rot else None
    cr = [E.real("crpix0", lo=-1, hi=8), E.real("crpix1", lo=-1, hi=8)] if crpix else None
    scale = E.real("pscale", lo=0.125, hi=2)
    fid = [E.real("crval0", lo=1, hi=3), E.real("crval1", lo=1, hi=3)]
    if E.sym:
        ref = FakeGwcs([Step(Frame("detector"), None), Step(Frame("world"), None)])
        frames = ref.input_frame, ref.output_frame
    else:
        frames = (cf.Frame2D(name="detector", axes_order=(0, 1), unit=(units.pix, units.pix)),
                  cf.CelestialFrame(reference_frame=coordinates.ICRS(), name="world"))
        from astropy.modeling import models

        ref = gwcs.WCS([(frames[0], models.Identity(2)), (frames[1], None)])
    box, size, offs = expect(E, t, px, fid, cr, shape)
    try:
        w = U.wcs_from_sregions(fp, ref, info, transform=t, pscale=scale, rotation=rotation, shape=shape, crpix=cr, crval=fid)
    except ValueError:
        E.claim("refused exactly when the image is smaller than two pixels", (size[0] < 2) | (size[1] < 2))
        return
    E.claim("refused exactly when the image is smaller than two pixels", (size[0] >= 2) & (size[1] >= 2))
    b = w.bounding_box
    b = b if E.sym else b.bounding_box(order="F")
    claims(E, (b, w.pixel_shape[::-1], [q for q in value(E, w.forward_transform.crpix)]), (box, size, offs))
    ft = w.forward_transform
    E.same("reference position", E.arr([q for q in value(E, ft.crval)]), E.arr(fid))
    E.same("pixel scale", E.arr([q for q in value(E, ft.cdelt)]), E.arr([scale, scale]))
    ang = np.deg2rad(roll) - parity * np.deg2rad(v3)
    if rot:
        ang = (np.deg2rad(rotation) + parity * np.deg2rad(v3)) - parity * np.deg2rad(v3)
    pc = value(E, ft.pc)
    E.same("axes rotated by the roll angle or the rotation asked for", E.arr([pc[0][0], pc[0][1], pc[1][0], pc[1][1]]),
           E.arr([parity * np.cos(ang), np.sin(ang), -(parity * np.sin(ang)), np.cos(ang)]))
    E.claim("frames are those of the reference mapping", (w.input_frame == frames[0]) and (w.output_frame == frames[1]))


class Part:
    """one transform; a chain of them is the list of the parts"""

    def __init__(self, kind, *args):
        self.parts = [(kind, args)]

    def __getattr__(self, name):
        raise Inconclusive(name)

    def _with(self, other):
        r = Part("")
        r.parts = self.parts + other.parts
        return r

    def __or__(self, other):
        return self._with(other)

    def __and__(self, other):
        r = Part("")
        r.parts = [("&", (self.parts, other.parts))]
        return r


def defaults(E, parity):
    """what is not given: the scale is that of the reference mapping there, the position that of the footprints, the transform is built of both"""
    np = E.np
    import gwcs
    from astropy import coordinates, units
    from gwcs import coordinate_frames as cf

    U = E.mod("stcal.alignment.util")
    real = U.astmodels
    v3, roll, rotation = (E.real(k, lo=-180, hi=180) for k in ("v3yangle", "roll", "rotation"))
    ra, dec = E.real("ra_ref", lo=0, hi=360), E.real("dec_ref", lo=-90, hi=90)
    found = E.real("scale there", lo=0.125, hi=2)
    asked = E.real("scale asked for", lo=0.125, hi=2)
    info = {"v3yangle": v3, "vparity": parity, "roll_ref": roll, "ra_ref": ra, "dec_ref": dec}
    rot = E.pick("rotation", (None, 0.0, "any"))
    ps = E.pick("pscale", (None, "any"))
    ratio = E.pick("ratio", (None, 0.5))
    given = E.pick("crval", (False, True))
    text = E.pick("footprints as text", (False, True))
    fp = E.floats("fp", (3, 2), "f8", lo=1, hi=3)
    fps = ["POLYGON ICRS 1.0 2.0 1.5 2.5 1.25 2.75", fp] if text else [fp]
    want_fp = [E.arr([[1.0, 2.0], [1.5, 2.5], [1.25, 2.75]]), fp] if text else [fp]
    cv = [E.real("crval0", lo=1, hi=3), E.real("crval1", lo=1, hi=3)]
    if E.sym:
        ref = FakeGwcs([Step(Frame("detector"), None), Step(Frame("world"), None)])
    else:
        ref = gwcs.WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(units.pix, units.pix)), real.Identity(2)),
                        (cf.CelestialFrame(reference_frame=coordinates.ICRS(), name="world"), None)])
    note = {}

    class Models:
        def AffineTransformation2D(self, matrix=None):  # noqa: N802
            return Part("turn", matrix)

        def Scale(self, f):  # noqa: N802
            return Part("scale", f)

        def Pix2Sky_TAN(self):  # noqa: N802
            if E.sym:
                return Part("tan")
            tan = real.Pix2Sky_TAN()
            tan.parts = [("tan", ())]
            return tan

        def RotateNative2Celestial(self, *a):  # noqa: N802
            return Part("sky", *a)

    def scale(wcs, fid, disp_axis=None, pscale_ratio=None):
        note["scale"] = (wcs, fid, disp_axis, pscale_ratio)
        return found

    def box(footprints, transform, fiducial=None, crpix=None, shape=None):
        note["box"] = (footprints, transform, fiducial, crpix, shape)
        return ((-0.5, 8.5), (-0.5, 5.5)), (6, 9), (3.0, 2.0)

    old = U.astmodels, U.compute_scale, U._compute_bounding_box_with_offsets
    U.astmodels, U.compute_scale, U._compute_bounding_box_with_offsets = Models(), scale, box
    try:
        w = U.wcs_from_sregions(fps, ref, info, pscale_ratio=ratio, pscale=None if ps is None else asked, rotation=rotation if rot == "any" else rot,
                                crval=cv if given else None)
    finally:
        U.astmodels, U.compute_scale, U._compute_bounding_box_with_offsets = old
    if "box" not in note or (ps is None and "scale" not in note):
        raise Inconclusive("extent or scale found otherwise")
    if ps is None:
        a = note["scale"]
        E.claim("scale of the reference mapping with the ratio asked for", a[0] is ref and a[2:] == (None, ratio))
        E.same("at the reference position", E.arr(list(a[1])), E.arr([ra, dec]))
    f = note["box"][0]
    E.claim("every footprint counts", len(f) == len(want_fp))
    for g, x in zip(f, want_fp):
        E.same("footprints", g, x, exact=True)
    every = np.concatenate(want_fp)
    pos = E.arr(cv) if given else E.arr(list(point(np, middle(np, np.deg2rad(every[:, 0]), np.deg2rad(every[:, 1])))))
    use = found if ps is None else asked
    E.same("extent about that position", E.arr(list(note["box"][2])), pos)
    E.claim("no reference pixel or shape unless given", note["box"][3:] == (None, None))
    ang = np.deg2rad(roll) - parity * np.deg2rad(v3)
    if rot is not None:
        ang = np.deg2rad(rotation if rot == "any" else rot) + parity * np.deg2rad(v3) - parity * np.deg2rad(v3)
    turn = E.arr([parity * np.cos(ang), np.sin(ang), -(parity * np.sin(ang)), np.cos(ang)])
    parts = note["box"][1].parts
    E.claim("turned, scaled, projected and moved to the position", [k for k, a in parts] == ["turn", "&", "tan", "sky"])
    m = parts[0][1][0]
    E.same("turned by the roll angle or the rotation asked for", E.arr([m[0][0], m[0][1], m[1][0], m[1][1]]), turn)
    for side in parts[1][1]:
        E.claim("scaled on both axes", len(side) == 1 and side[0][0] == "scale")
        E.same("scale", side[0][1][0], use)
    E.same("position on the sky", E.arr(list(parts[3][1])), E.arr([pos[0], pos[1], 180]))
    ft = w.forward_transform
    E.same("reference position", E.arr([q for q in value(E, ft.crval)]), pos)
    E.same("pixel scale", E.arr([q for q in value(E, ft.cdelt)]), E.arr([use, use]))
    E.same("reference pixel", E.arr([q for q in value(E, ft.crpix)]), E.arr([3.0, 2.0]))
    pc = value(E, ft.pc)
    E.same("axes", E.arr([pc[0][0], pc[0][1], pc[1][0], pc[1][1]]), turn)
    E.claim("size", tuple(w.pixel_shape) == (9, 6))


CASES = [
    Case("bounds", bounds, sizes=(3,), scale=(1.0, 1.0)),
    Case("bounds-2", bounds, sizes=(2, 2), scale=(0.5, -2.0), span=3),
    Case("bounds-native", bounds, sizes=(3,), scale=(1.0, 0.25), at_zero=True, span=2),
    Case("bounds-crpix", bounds, sizes=(2,), scale=(1.0, 0.5), crpix=True),
    Case("bounds-shape", bounds, sizes=(2,), scale=(1.0, 0.5), shape=(5, 12)),
    Case("bounds-shape-crpix", bounds, sizes=(2,), scale=(-0.5, 1.0), shape=(12, 7), crpix=True),
    Case("mapping", whole, shape=None, crpix=False, rot=False, parity=-1, crval=True, shims=shims()),
    Case("mapping-shape", whole, shape=(6, 9), crpix=True, rot=True, parity=1, crval=True, shims=shims()),
    Case("mapping-rot-parity", whole, shape=(6, 9), crpix=True, rot=True, parity=-1, crval=True, shims=shims()),
    Case("mapping-rot", whole, shape=(1, 9), crpix=True, rot=True, parity=-1, crval=True, shims=shims()),
    Case("defaults", defaults, parity=1, shims=shims()),
    Case("defaults-parity", defaults, parity=-1, shims=shims()),
]
