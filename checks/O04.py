"""Blotting: each pixel of the input image gets the median at the position it maps to, or the fill value."""
from symx.harness import Case

from .resamplespec import Wcs, shims

BOUNDS = "medians and images of 1x1 to 5x6 pixels, mappings that shift by any whole number of pixels listed or by any fraction, bounding boxes that leave pixels without a position; any data and fill value"
ASSUMPTIONS = ["drizzle's blot_image is a stand-in: bilinear inside the median, nothing outside"]


def harness(E, shape, out, shift, boxes=(None, None), fill="any", step=1, frac=False):
    """shape of the median, shape of the image, columns and rows of the median the image is moved by"""
    np = E.np
    m = E.mod("stcal.outlier_detection.utils")
    med = E.floats("median", shape, "f4", lo=-100, hi=1000, nan=True)
    keep = med.copy()
    fv = E.real("fill", lo=-5, hi=5) if fill == "any" else fill
    dx, dy = (E.real("dx", lo=0, hi=1), E.real("dy", lo=0, hi=1)) if frac else (0, 0)
    image_wcs = Wcs(np, offset=(100 + shift[0] + dx, 50 + shift[1] + dy), shape=out, bbox=boxes[0])
    median_wcs = Wcs(np, offset=(100, 50), shape=shape, bbox=boxes[1])
    calls = []

    def blot_image(data, pixmap, *, out_img=None, fillval=0.0, iscale=1.0, interp="poly5", **k):
        calls.append((pixmap.copy(), interp, iscale))
        px, py = pixmap[:, :, 0], pixmap[:, :, 1]
        for y in range(out[0]):
            for x in range(out[1]):
                v = fillval
                for j in range(shape[0]):
                    for i in range(shape[1]):
                        wx, wy = 1 - np.abs(px[y, x] - i), 1 - np.abs(py[y, x] - j)
                        here = (wx == 1) & (wy == 1)
                        v = np.where(here, data[j, i] * iscale, v)
                out_img[y, x] = v

    old = m.blot_image
    m.blot_image = blot_image
    try:
        kw = {} if fill == "default" else {"fillval": fv}
        if step > 1:
            kw["pixmap_stepsize"] = step
        got = m.gwcs_blot(med, median_wcs, out, image_wcs, **kw)
    finally:
        m.blot_image = old
    E.same("median unchanged", med, keep, exact=True)
    E.claim("one blot, linear, without scaling", len(calls) == 1 and calls[0][1] == "linear" and calls[0][2] == 1)
    pm = calls[0][0]
    E.claim("single precision image of the shape asked for", got.shape == tuple(out) and str(got.dtype) == "float32")
    fv = 0.0 if fill == "default" else fv
    for y in range(out[0]):
        for x in range(out[1]):
            u, v = x + shift[0], y + shift[1]
            there = True
            if boxes[0] is not None:
                (x1, x2), (y1, y2) = boxes[0]
                there = there and x1 <= x <= x2 and y1 <= y <= y2
            if there:
                E.same(f"position of {y},{x}", pm[y, x], E.arr([u + dx, v + dy]), rtol=1e-6, atol=1e-6)
            else:
                px, py = pm[y, x, 0], pm[y, x, 1]
                E.claim(f"a known position of {y},{x} outside the median", np.isfinite(px) & np.isfinite(py) & (
                    (px < -0.5) | (px > shape[1] - 0.5) | (py < -0.5) | (py > shape[0] - 0.5)))
            if not frac:
                inside = there and 0 <= u < shape[1] and 0 <= v < shape[0]
                E.same(f"pixel {y},{x}", got[y, x], keep[v, u] if inside else fv, rtol=1e-6)


S = shims()
CASES = [
    Case("same", harness, shape=(3, 4), out=(3, 4), shift=(0, 0), shims=S),
    Case("shifted", harness, shape=(4, 3), out=(3, 4), shift=(1, 2), shims=S),
    Case("shifted-back", harness, shape=(3, 3), out=(4, 5), shift=(-2, -1), fill="default", shims=S),
    Case("off", harness, shape=(2, 2), out=(2, 3), shift=(5, 0), fill=float("nan"), shims=S),
    Case("box", harness, shape=(4, 4), out=(4, 4), shift=(0, 0), boxes=(((0.5, 2.5), (-0.5, 3.5)), None), shims=S),
    Case("fraction", harness, shape=(3, 3), out=(2, 3), shift=(0, 0), frac=True, shims=S),
    Case("one", harness, shape=(1, 1), out=(1, 1), shift=(0, 0), shims=S),
    Case("wide", harness, shape=(5, 6), out=(4, 5), shift=(2, 1), shims=S, tier="thorough"),
]
