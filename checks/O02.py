"""Outlier flags from a comparison with reference images."""
from symx.harness import Case

BOUNDS = "images up to 3x4 pixels; any sample, reference and error (NaN included) and any thresholds, scales and background"
ASSUMPTIONS = ["no infinite samples or errors", "errors are not negative"]


def images(E, shape):
    sci = E.floats("sci", shape, "f4", lo=-1000, hi=1000, nan=True)
    err = E.floats("err", shape, "f4", lo=0, hi=100, nan=True)
    blot = E.floats("blot", shape, "f4", lo=-1000, hi=1000, nan=True)
    return sci, err, blot


def simple(E, shape):
    np = E.np
    sci, err, blot = images(E, shape)
    snr = E.pick("snr", (1.0, 3.0, 4.5))
    keep = [x.copy() for x in (sci, err, blot)]
    got = E.mod("stcal.outlier_detection.utils").flag_crs(sci, err, blot, snr)
    e = np.where(np.isnan(err), 0.0, err)
    want = ((sci - blot) > snr * e) | ((blot - sci) > snr * e)
    E.same("flagged exactly beyond the noise limit", got, want)
    for a, b in zip(keep, (sci, err, blot)):
        E.same("inputs are left alone", b, a, exact=True)
    E.cover("flagged", want)
    E.cover("negative outlier", (blot - sci) > snr * e)


def deriv(E, blot, shape):
    """largest absolute difference to one of the four neighbours; missing where the pixel is"""
    np = E.np
    ny, nx = shape
    out = np.zeros(shape, dtype=float)
    for y in range(ny):
        for x in range(nx):
            m = 0.0
            for v, u in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)):
                if 0 <= v < ny and 0 <= u < nx:
                    d = np.abs(blot[y, x] - blot[v, u])
                    m = E.ite(d > m, d, m)
            out[y, x] = E.ite(np.isnan(blot[y, x]), E.np.nan, m)
    return out


def resampled(E, shape, nan=True, fixed=False):
    np = E.np
    ny, nx = shape
    sci, err, blot = images(E, shape)
    if fixed:
        snr1, snr2, s1, s2, bg = 5.0, 4.0, 1.2, 0.7, E.real("bg", lo=-10, hi=10)
    else:
        snr1, snr2 = E.pick("snr1", (5.0, 1.0)), E.pick("snr2", (4.0, 6.0))
        s1, s2 = E.pick("s1", (1.2, 0.0)), E.pick("s2", (0.7, 2.0))
        bg = E.real("bg", lo=-10, hi=10)
    keep = [x.copy() for x in (sci, err, blot)]
    got = E.mod("stcal.outlier_detection.utils").flag_resampled_crs(sci, err, blot, snr1, snr2, s1, s2, bg)
    e = np.where(np.isnan(err), 0.0, err)
    d = deriv(E, blot, shape)
    diff = np.abs(sci - blot - bg)
    first = diff > s1 * d + snr1 * e
    second = diff > s2 * d + snr2 * e
    near = np.zeros(shape, dtype=bool)
    for y in range(ny):
        for x in range(nx):
            near[y, x] = np.any(first[max(0, y - 1):y + 2, max(0, x - 1):x + 2])
    E.same("flagged exactly when beyond the second limit with a pixel beyond the first limit in its 3x3 box", got, near & second)
    for a, b in zip(keep, (sci, err, blot)):
        E.same("inputs are left alone", b, a, exact=True)
    E.cover("flagged", near & second)
    E.cover("flagged by a neighbour", near & second & ~first)


CASES = [
    Case("simple", simple, shape=(2, 2)),
    Case("resampled-1x3", resampled, shape=(1, 3)),
    Case("resampled-3x1", resampled, shape=(3, 1)),
    Case("resampled-2x2", resampled, shape=(2, 2)),
    Case("resampled-3x3", resampled, shape=(3, 3), fixed=True),
    Case("resampled-3x4", resampled, shape=(3, 4), fixed=True, tier="thorough"),
    Case("resampled-1x1", resampled, shape=(1, 1)),
]
