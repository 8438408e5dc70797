"""Pixel areas, pixel scales and the scaling of fluxes in resampling."""
import math

from symx.harness import Case

from .resamplespec import Wcs, shims

MOD = "stcal.resample.resample"
BOUNDS = "any pixel areas of input and output (zero, negative and missing ones included), any given scale and ratio, imaging and spectral mappings, 5 units; up to 2 images"
ASSUMPTIONS = ["the mean pixel area is a stand-in with any value (W06)", "what is a flux density is decided by astropy's units"]
ARC = 180 * 3600 / math.pi
SH = shims()


class Data:
    shape = (2, 2)


def make(E, out_area, scale=None, ratio=None, spectral=False, mine=None):
    m = E.mod(MOD)
    axes = ("SPATIAL", "SPATIAL", "SPECTRAL") if spectral else ("SPATIAL", "SPATIAL")
    w = Wcs(E.np, shape=(3, 4), axes=axes)
    seen = []

    def mean_area(wcs, shape=None):
        seen.append((wcs, shape))
        return out_area if wcs is w else mine

    old = m.compute_mean_pixel_area
    m.compute_mean_pixel_area = mean_area
    back = lambda: setattr(m, "compute_mean_pixel_area", old)  # noqa: E731
    o = {"wcs": w}
    if scale is not None:
        o["pixel_scale"] = scale
    if ratio is not None:
        o["pixel_scale_ratio"] = ratio
    try:
        return m.Resample(o, n_input_models=1, weight_type="exptime", enable_var=False), w, seen, back
    except BaseException:
        back()
        raise


def area(E, nominal, mean):
    """the area of an input pixel: kinds of both sources; any value"""
    def value(kind, name):
        return {"there": E.real(name, lo=1e-14, hi=1e-6), "missing": None, "zero": 0.0, "negative": E.real(name + "-", lo=-1, hi=-1e-12)}[kind]

    prefer = E.pick("prefer mean", [True, False])
    nom, avg = value(nominal, "nominal"), value(mean, "mean")
    r, w, seen, back = make(E, 1.0, scale=0.1, mine=avg)
    wcs = Wcs(E.np)
    try:
        got = r.get_input_model_pixel_area({"wcs": wcs, "data": Data(), "pixelarea_steradians": nom, "filename": "a"}, prefer_mean=prefer)
    finally:
        back()
    first, second = ((mean, avg), (nominal, nom)) if prefer else ((nominal, nom), (mean, avg))
    want = first if first[0] == "there" else second
    if want[0] == "there":
        E.claim("the area preferred, or else the other", got is not None and got == want[1])
    else:
        E.claim("no area", got is None or got <= 0)
    E.claim("mean over the image", all(a is wcs and tuple(s) == (2, 2) for a, s in seen))


def scale(E, given, ratio, spectral=False, nominal=True):
    """scale of the output, ratio to the first input, scaling of fluxes, areas in the output"""
    np = E.np
    oa, ia = E.real("out", lo=1e-14, hi=1e-6), E.real("in", lo=1e-14, hi=1e-6)
    s = E.real("scale", lo=0.001, hi=10) if given else None
    q = E.real("ratio", lo=0.1, hi=10) if ratio else None
    unit = E.pick("unit", ["Jy", "mJy", "MJy/sr", "DN/s", None])
    r, w, seen, back = make(E, oa, scale=s, ratio=q, spectral=spectral, mine=None if nominal else ia)
    try:
        size = r.output_pixel_scale
        model = {"wcs": Wcs(np, axes=w.output_frame.axes_type), "data": Data(), "pixelarea_steradians": ia if nominal else None, "filename": "a", "bunit_data": unit}
        r._compute_pixel_scale_ratio(model)
        first = r.pixel_scale_ratio
        iscale = r._get_intensity_scale(model)
        later = dict(model, pixelarea_steradians=E.real("other", lo=1e-14, hi=1e-6))
        r._compute_pixel_scale_ratio(later)
        o = r.output_model
    finally:
        back()
    if given:
        E.same("scale of the output as given", size, s, rtol=1e-9)
    else:
        E.claim("scale of the output from its area", (size > 0) & (np.abs((size / ARC) ** 2 / oa - 1) < 1e-9))
    E.same("area of output pixels (arcsec)", o["pixelarea_arcsecsq"], size * size, rtol=1e-9)
    E.same("area of output pixels (sr)", o["pixelarea_steradians"] * (ARC * ARC), size * size, rtol=1e-6)
    if ratio:
        E.same("ratio as given", first, q, rtol=1e-12)
    elif spectral:
        E.claim("no ratio", first is None)
    else:
        E.claim("ratio of the output to the input scale", (first > 0) & (np.abs(first * first * ia * (ARC * ARC) / (size * size) - 1) < 1e-6))
    E.claim("the ratio stays that of the first image", (r.pixel_scale_ratio is None) == (first is None) and (first is None or r.pixel_scale_ratio == first))
    E.claim("the output tells the ratio", (o["pixel_scale_ratio"] is None) == (first is None) and (first is None or o["pixel_scale_ratio"] == first))
    flux = spectral and unit in ("Jy", "mJy") and ratio and nominal
    E.same("scaling of fluxes", iscale, 1 / q if flux else 1.0, rtol=1e-9)


def refused(E, kind):
    m = E.mod(MOD)
    ok = E.pick("shape", [(3, 4), (0, 4), (3, 0)])
    naxes = E.pick("axes", [2, 3])
    spectral = kind == "spectral"
    axes = {(2, False): ("SPATIAL",) * 2, (3, False): ("SPATIAL",) * 3, (2, True): ("SPATIAL", "SPECTRAL"), (3, True): ("SPATIAL", "SPATIAL", "SPECTRAL")}[naxes, spectral]
    box = None
    if kind == "box":
        x = E.real("x", lo=0.5, hi=40)
        box, ok = ((-0.5, x), (-0.5, 2.5)), None
    if kind == "none":
        ok = None
    w = Wcs(E.np, shape=ok, bbox=box, axes=axes)
    err = None
    try:
        r = m.Resample({"wcs": w, "pixel_scale": 0.1}, n_input_models=1, weight_type="exptime", enable_var=False)
    except (ValueError, RuntimeError) as e:
        err = e
    good = naxes == (3 if spectral else 2) and (kind == "box" or (ok is not None and 0 not in ok))
    E.claim("refused exactly without a usable shape and the right axes", (err is None) == good)
    if err is None and kind == "box":
        ny, nx = r.output_model["wcs"].array_shape
        E.claim("image up to the end of the box", ny == 3 and (nx <= x + 0.5 + 1e-6) & (nx > x - 0.5 - 1e-6))


KINDS = ["there", "missing", "zero", "negative"]
CASES = [Case(f"area-{a}-{b}", area, shims=SH, nominal=a, mean=b) for a in KINDS for b in KINDS if "there" in (a, b) or a == b] + [
    Case("scale", scale, shims=SH, given=False, ratio=False),
    Case("scale-given", scale, shims=SH, given=True, ratio=False),
    Case("scale-mean", scale, shims=SH, given=True, ratio=False, nominal=False),
    Case("ratio-given", scale, shims=SH, given=True, ratio=True),
    Case("spectral", scale, shims=SH, given=True, ratio=True, spectral=True),
    Case("spectral-no-ratio", scale, shims=SH, given=True, ratio=False, spectral=True),
    Case("spectral-no-area", scale, shims=SH, given=True, ratio=True, spectral=True, nominal=False),
    Case("refused", refused, shims=SH, kind="image"),
    Case("refused-spectral", refused, shims=SH, kind="spectral"),
    Case("refused-no-shape", refused, shims=SH, kind="none"),
    Case("shape-from-box", refused, shims=SH, kind="box"),
]
