"""Drizzle weights: zero on flagged pixels, otherwise what the weighting asks for."""
from symx.harness import Case

from .resamplespec import FLAGS, good_word

BOUNDS = "images of 2x2 pixels; all flag words over the listed bits, all variances (zero, NaN, infinite included), all times; listed forms of the good-bits argument"
ASSUMPTIONS = ["variances are not negative"]


def harness(E, kind, good, layout="ok"):
    np = E.np
    g = E.pick("good", good)
    dq = E.bits("dq", (2, 2), "u4", mask=1 | 2 | 4 | 2048)
    model = {"data": np.zeros((2, 2), dtype=np.float32), "dq": dq}
    key = {"ivm": "var_rnoise", "ivm-sky": "var_sky"}.get(kind)
    keep = dq.copy()
    w = np.ones((2, 2))
    if key:
        how = E.pick("layout", ("ok", "missing", "none", "shape"))
        if how == "ok":
            v = E.floats("var", (2, 2), "f4", lo=0, hi=1000, nan=True, inf=True)
            model[key] = v
            vk = v.copy()
            bad = np.isnan(v) | np.isinf(v) | (v == 0)
            w = np.where(bad, 0.0, 1.0 / np.where(bad, 1.0, v))
        elif how == "none":
            model[key] = None
        elif how == "shape":
            model[key] = np.full((2, 3), 4.0, dtype=np.float32)
        model["var_sky" if kind == "ivm" else "var_rnoise"] = np.full((2, 2), 7.0)
    elif kind == "exptime":
        t = E.real("exptime", lo=1, hi=1000)
        m = E.real("meastime", lo=1, hi=1000)
        model["exposure_time"] = t
        how = E.pick("meas", ("missing", "none", "given"))
        if how != "missing":
            model["measurement_time"] = m if how == "given" else None
        w = w * (m if how == "given" else t)
        got_t, flag = E.mod("stcal.resample.utils").get_tmeasure(model)
        E.same("time used", got_t, m if how == "given" else t)
        E.claim("whether the measurement time was used", flag is (how == "given"))
    U = E.mod("stcal.resample.utils")
    got = U.build_driz_weight(model, weight_type=kind, good_bits=g, flag_name_map=FLAGS if isinstance(g, str) and "S" in g.upper() else None)
    word = good_word(g)
    ok = np.ones((2, 2), dtype=bool) if word is None else (dq & np.uint32(0xFFFFFFFF ^ word)) == 0
    E.same("weight is zero exactly on pixels with a flag that counts, else as asked for", got, np.where(ok, w, 0.0))
    E.claim("single precision", str(got.dtype) == "float32")
    E.same("flags are left alone", dq, keep, exact=True)
    if key and "var" in str(list(model)) and model.get(key) is not None and model[key].shape == (2, 2):
        E.same("variances are left alone", model[key], vk, exact=True)
    mask = U.build_mask(dq, g, flag_name_map=FLAGS if isinstance(g, str) and "S" in g.upper() else None)
    E.same("mask is one exactly on usable pixels", mask, np.where(ok, 1, 0))
    E.cover("bad pixel", ~ok)
    E.cover("good pixel", ok)


def invalid(E):
    U = E.mod("stcal.resample.utils")
    dq = E.bits("dq", (1, 1), "u4", mask=3)
    try:
        U.build_driz_weight({"data": E.np.zeros((1, 1)), "dq": dq}, weight_type="ivm-" + E.pick("kind", ("var", "skyy")))
        E.claim("unknown weighting is refused", False)
    except ValueError:
        E.claim("unknown weighting is refused", True)


GOOD = (0, 6, "2,4", "~1", "SATURATED,JUMP_DET", "~DO_NOT_USE+HOT")
CASES = [
    Case("ivm", harness, kind="ivm", good=(0, 6)),
    Case("ivm-sky", harness, kind="ivm-sky", good=(0, "~1")),
    Case("exptime", harness, kind="exptime", good=(0, 6)),
    Case("flags", harness, kind=None, good=(0, 6, "2,4", "~1", "SATURATED,JUMP_DET")),
    Case("invalid", invalid),
]
