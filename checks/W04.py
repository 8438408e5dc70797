"""Coadding images: data, weights, flags, level, and the time keywords."""
from symx.harness import Case

from .resamplespec import Wcs, shims

BOUNDS = ("1..3 (for the context also 32 and 34) input images of 1x2 or 2x2 pixels onto outputs of up to 2x3 pixels, whole-pixel shifts, bounding boxes, group identifiers in every pattern; any data, weights, "
          "flags, background levels and times")
ASSUMPTIONS = ["drizzle coaddition of whole-pixel maps is the weighted mean (drizzle's own code is outside)", "data are finite"]


def model(E, k, np, shape, shift=(0, 0), bbox=None, group="g", var=False, psr=None, kind="ivm", level=True, area=None, fixed=False):
    n = shape
    m = {"data": E.floats(f"d{k}", n, "f4", lo=-100, hi=100), "dq": E.bits(f"q{k}", n, "u4", mask=5),
         "wcs": Wcs(np, shape=n, offset=shift, bbox=bbox, blank=False), "filename": f"m{k}", "group_id": group, "pixelarea_steradians": area,
         "exposure_time": E.real(f"exp{k}", lo=1, hi=100), "start_time": E.real(f"start{k}", lo=0, hi=50), "end_time": E.real(f"end{k}", lo=0, hi=50),
         "duration": E.real(f"dur{k}", lo=1, hi=100), "measurement_time": None, "level": None, "subtracted": False}
    if level:
        how = E.pick(f"level{k}", ("none", "level", "subtracted"))
        if how != "none":
            m["level"] = E.real(f"lev{k}", lo=-10, hi=10)
        m["subtracted"] = how == "subtracted"
    if fixed:
        m["exposure_time"] = (4.0, 10.0, 7.0)[k]
    if kind == "ivm" and fixed:
        m["var_rnoise"] = np.array([[(k + 1) * (0.5 + y + 2 * x) for x in range(n[1])] for y in range(n[0])], dtype=np.float32)
    elif kind == "ivm":
        m["var_rnoise"] = E.floats(f"rn{k}", n, "f4", lo=0.5, hi=4)
    return m


def expect(E, np, models, shape, kind, good=0, fillval=0.0, iscale=1.0):
    """weighted mean of whatever lands on each output pixel"""
    num = np.zeros(shape, dtype=float)
    wht = np.zeros(shape, dtype=float)
    ctx = np.zeros(shape, dtype=int)
    dq = np.zeros(shape, dtype=np.uint32)
    for k, m in enumerate(models):
        ny, nx = m["data"].shape
        dx, dy = m["wcs"].offset
        box = m["wcs"].bounding_box
        for y in range(ny):
            for x in range(nx):
                if box is not None and not (box[0][0] <= x <= box[0][1] and box[1][0] <= y <= box[1][1]):
                    continue
                v, u = y + dy, x + dx
                if not (0 <= v < shape[0] and 0 <= u < shape[1]):
                    continue
                w = 1.0 / m["var_rnoise"][y, x] if kind == "ivm" else (m["measurement_time"] if m["measurement_time"] is not None else m["exposure_time"])
                ok = (m["dq"][y, x] & np.uint32(0xFFFFFFFF ^ good)) == 0
                d = m["data"][y, x]
                if m["level"] is not None and not m["subtracted"]:
                    d = d - m["level"]
                num[v, u] = num[v, u] + np.where(ok, w * d * iscale, 0.0)
                wht[v, u] = wht[v, u] + np.where(ok, w, 0.0)
                ctx[v, u] = ctx[v, u] + np.where(ok, 1 << k, 0)
                dq[v, u] = np.where(ok, dq[v, u] | m["dq"][y, x], dq[v, u])
    img = np.where(wht > 0, num / np.where(wht > 0, wht, 1.0), fillval)
    return img, wht, ctx, dq


def coadd(E, shape, out, shifts, kind="ivm", good=0, boxes=None, level=False, dq=False, fillval=0.0, fixed=True):
    np = E.np
    R = E.mod("stcal.resample.resample").Resample
    ms = [model(E, k, np, shape, s, (boxes or {}).get(k), group=f"g{k}", kind=kind, level=level, fixed=fixed) for k, s in enumerate(shifts)]
    keep = [{q: v.copy() for q, v in m.items() if hasattr(v, "ndim") and v.ndim} for m in ms]
    r = R({"wcs": Wcs(np, shape=out), "pixel_scale": 0.1, "pixel_scale_ratio": 1.0}, n_input_models=len(ms), fillval=fillval, weight_type=kind,
          good_bits=good, enable_var=False, propagate_dq=dq)
    for m in ms:
        r.add_model(m)
    r.finalize()
    o = r.output_model
    img, wht, ctx, flags = expect(E, np, ms, out, kind, good, fillval)
    E.same("image is the weighted mean of the usable samples that land on the pixel", o["data"], img)
    E.same("weight is the sum of their weights", o["wht"], wht)
    E.same("context names the images that contributed", o["con"][0], ctx)
    if dq:
        E.same("flags are the union over the samples used", o["dq"], flags)
    for m, q in zip(ms, keep):
        for n, v in q.items():
            E.same("input images are left alone", m[n], v, exact=True)
    E.cover("no sample", wht == 0)
    E.cover("several samples", (ctx & (ctx - 1)) != 0)


def many(E, n, free):
    """more images than one plane of the context has bits"""
    np = E.np
    R = E.mod("stcal.resample.resample").Resample
    r = R({"wcs": Wcs(np, shape=(2, 2)), "pixel_scale": 0.1, "pixel_scale_ratio": 1.0}, n_input_models=n, weight_type="exptime", enable_var=False)
    used = {}
    for k in range(n):
        m = {"data": np.full((2, 2), float(k), dtype=np.float32), "dq": np.full((2, 2), 1, dtype=np.uint32), "wcs": Wcs(np, shape=(2, 2), blank=False),
             "filename": f"m{k}", "group_id": f"g{k}", "pixelarea_steradians": None, "exposure_time": 2.0, "start_time": 1.0 * k, "end_time": k + 2.0,
             "duration": 2.0, "measurement_time": None, "level": None, "subtracted": False}
        if k in free:
            m["dq"] = E.bits(f"q{k}", (2, 2), "u4", mask=1)
            used[k] = m["dq"][0, 0] == 0
        r.add_model(m)
    r.finalize()
    o = r.output_model
    E.claim("one plane of context for every 32 images", o["con"].shape == ((n + 31) // 32, 2, 2))
    for p in range((n + 31) // 32):
        E.same("context names the images that contributed", o["con"][p, 0, 0], sum([E.ite(used[k], 1 << (k - 32 * p), 0) for k in free if k // 32 == p], 0))
    E.same("weight is the sum of their weights", o["wht"][0, 0], sum([E.ite(u, 2.0, 0.0) for u in used.values()], 0.0))
    E.claim("every group counts", o["pointings"] == n)
    E.same("exposure time", o["exposure_time"], 2.0 * n)


def times(E, n, again=False):
    """time keywords count each group once"""
    np = E.np
    R = E.mod("stcal.resample.resample").Resample
    groups = ["g0"] + [E.pick(f"group{k}", ("g0", "g1", "g2")[:k + 1]) for k in range(1, n)]
    ms = [model(E, k, np, (2, 2), group=g, kind="exptime", level=False) for k, g in enumerate(groups)]
    for k, m in enumerate(ms):
        if E.pick(f"meas{k}", (True, False)):
            m["measurement_time"] = E.real(f"mt{k}", lo=1, hi=100)
    r = R({"wcs": Wcs(np, shape=(2, 2)), "pixel_scale": 0.1, "pixel_scale_ratio": 1.0}, n_input_models=n, weight_type="exptime", enable_var=False)

    def check(what, ms, o):
        first = [m for k, m in enumerate(ms) if m["group_id"] not in [q["group_id"] for q in ms[:k]]]
        E.claim(f"{what}pointings are the number of groups", o["pointings"] == len(first))
        E.same(f"{what}exposure time", o["exposure_time"], sum(m["exposure_time"] for m in first))
        E.same(f"{what}duration", o["duration"], sum(m["duration"] for m in first))
        E.same(f"{what}elapsed time", o["elapsed_exposure_time"], sum(m["duration"] for m in first))
        lo, hi = first[0]["start_time"], first[0]["end_time"]
        for m in first[1:]:
            lo = E.ite(m["start_time"] < lo, m["start_time"], lo)
            hi = E.ite(m["end_time"] > hi, m["end_time"], hi)
        E.same(f"{what}start", o["start_time"], lo)
        E.same(f"{what}end", o["end_time"], hi)
        if all(m["measurement_time"] is not None for m in first):
            E.same(f"{what}measurement time", o["measurement_time"], sum(m["measurement_time"] for m in first))
        else:
            E.claim(f"{what}no measurement time unless every group has one", o["measurement_time"] is None)
    for m in ms:
        r.add_model(m)
    r.finalize()
    check("", ms, r.output_model)
    if again:
        o = r.output_model
        before = o["exposure_time"], o["data"].copy()
        try:
            r.add_model(ms[0])
            E.claim("nothing can be added after the end", False)
        except RuntimeError:
            pass
        r.finalize()
        E.same("finishing twice changes nothing", r.output_model["exposure_time"], before[0])
        E.same("finishing twice changes nothing (data)", r.output_model["data"], before[1], exact=True)
        r.reset_arrays(n_input_models=n)
        for m in ms[1:]:
            r.add_model(m)
        r.finalize()
        check("after a reset: ", ms[1:], r.output_model)
        img, wht, ctx, _ = expect(E, np, ms[1:], (2, 2), "exptime")
        E.same("after a reset: image", r.output_model["data"], img)
        E.same("after a reset: weight", r.output_model["wht"], wht)
        E.same("after a reset: context", r.output_model["con"][0], ctx)


S = shims()
CASES = [
    Case("coadd-2", coadd, shape=(2, 2), out=(2, 3), shifts=((0, 0), (1, 0)), shims=S),
    Case("coadd-1", coadd, shape=(2, 2), out=(2, 2), shifts=((0, 0),), fixed=False, shims=S),
    Case("coadd-level", coadd, shape=(2, 2), out=(2, 2), shifts=((0, 0), (0, 0)), level=True, shims=S),
    Case("coadd-box", coadd, shape=(2, 3), out=(2, 3), shifts=((0, 0), (0, 0)), boxes={0: ((0.5, 2.5), (-0.5, 1.5)), 1: ((-0.5, 1.4), (-0.5, 1.5))}, dq=True, good=4, shims=S),
    Case("coadd-exptime", coadd, shape=(2, 2), out=(3, 3), shifts=((0, 1), (1, 1), (0, 0)), kind="exptime", good=1, fillval=float("nan"), shims=S),
    Case("coadd-34", many, n=34, free=(0, 30, 32, 33), shims=S),
    Case("coadd-32", many, n=32, free=(1, 29), shims=S),
    Case("times-2", times, n=2, again=True, shims=S),
    Case("times-3", times, n=3, shims=S),
]
