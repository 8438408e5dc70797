"""Median image: per-pixel median of the finite samples, however the work is divided."""
import shutil
import tempfile

from symx.harness import Case

BOUNDS = "stacks of 1..4 images of up to 5x3 pixels, any values or NaN, every section size, images given in any order"
ASSUMPTIONS = ["no infinite samples", "temporary files hold what was written to them"]


def harness(E, shape, memory, buffers=(0,), dtype="f4"):
    np = E.np
    n = shape[0]
    M = E.mod("stcal.outlier_detection.median")
    data = E.floats("data", shape, dtype, lo=-1000, hi=1000, nan=True)
    keep = data.copy()
    rows = E.pick("rows", buffers) if not memory else 0
    item = np.dtype(dtype).itemsize
    size = rows if rows in (0, None) else int(rows * n * shape[2] * item)
    d = tempfile.mkdtemp()
    try:
        c = M.MedianComputer(shape, memory, buffer_size=size, dtype=dtype, tempdir=d)
        left = list(range(n))
        for k in range(n):
            i = left.pop(E.integer(f"next{k}", 0, len(left) - 1) if k < n - 1 and n < 4 else 0)
            img = data[i].copy()
            c.append(img, i)
            E.same("the images given are not changed", img, data[i], exact=True)
            img[...] = -5000.0
        if not memory:
            try:
                c.append(data[0].copy(), n)
                E.claim("more images than announced are refused", False)
            except IndexError:
                pass
        got = c.evaluate()
    finally:
        shutil.rmtree(d)
    E.same("the median image is the per-pixel median of the samples that are not missing", got, np.nanmedian(keep, axis=0))
    E.claim("precision of the data", str(got.dtype) == str(np.dtype(dtype)))
    E.cover("missing", np.isnan(got))
    E.cover("present", ~np.isnan(got))


def direct(E, shape, overwrite):
    np = E.np
    M = E.mod("stcal.outlier_detection.median")
    data = E.floats("data", shape, "f8", lo=-1000, hi=1000, nan=True)
    keep = data.copy()
    got = M.nanmedian3D(data, overwrite_input=overwrite)
    E.same("median", got, np.nanmedian(keep, axis=0))
    if not overwrite:
        E.same("input is left alone unless it may be overwritten", data, keep, exact=True)


CASES = [
    Case("memory-3", harness, shape=(3, 2, 2), memory=True),
    Case("memory-4", harness, shape=(4, 2, 1), memory=True, dtype="f8"),
    Case("disk-3", harness, shape=(3, 4, 1), memory=False, buffers=(0, 1, 2, 3, 4, 0.5, 9, None)),
    Case("disk-2", harness, shape=(2, 5, 2), memory=False, buffers=(0, 1, 2, 3, 4, 5, 30), dtype="f8"),
    Case("disk-4", harness, shape=(4, 3, 1), memory=False, buffers=(0, 1, 2, 3)),
    Case("disk-1", harness, shape=(1, 3, 2), memory=False, buffers=(0, 1, 2, 3)),
    Case("direct", direct, shape=(3, 2, 2), overwrite=False),
    Case("direct-overwrite", direct, shape=(4, 1, 2), overwrite=True),
    Case("disk-5", harness, shape=(5, 7, 1), memory=False, buffers=(0, 1, 2, 3, 4), tier="thorough"),
]
