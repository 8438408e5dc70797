"""Reference model of dark subtraction, written from the documented behaviour."""
import math
import types


def frames_total(ngroups, nframes, gap):
    return ngroups * nframes + (ngroups - 1) * gap


def make(E, m, sci, drk, four, ny=1, nx=1, nan=True, intstart=None, inf=False):
    """science and dark structures; sci/drk = (nints, ngroups, nframes, gap)"""
    np = E.np
    si, sg, sf, sgap = sci
    di, dg, df, dgap = drk
    S, D = m.ScienceData(), m.DarkData()
    S.data = E.floats("science", (si, sg, ny, nx), "f4", lo=-1000, hi=100000, nan=True)
    S.groupdq = E.bits("gdq", (si, sg, ny, nx), "u1", mask=7)
    S.pixeldq = E.bits("pdq", (ny, nx), "u4", mask=0x80000003)
    S.exp_nframes, S.exp_groupgap, S.exp_intstart, S.cal_step = sf, sgap, intstart, None
    dshape = (di, dg, ny, nx) if four else (dg, ny, nx)
    D.data = E.floats("dark", dshape, "f4", lo=-1000, hi=1000, nan=nan, inf=inf)
    D.groupdq = E.bits("ddq", (di, dg, ny, nx) if four else (ny, nx), "u4", mask=0x40000005)
    D.exp_nframes, D.exp_ngroups, D.exp_groupgap = df, dg, dgap
    return S, D


def dark_group(E, dark, sci, drk, k):
    """expected dark (ny, nx) array for science group k from one dark ramp (ngroups, ny, nx): list of per-pixel values"""
    np = E.np
    _, sg, sf, sgap = sci
    _, dg, df, dgap = drk
    ny, nx = dark.shape[-2:]
    out = {}
    for y in range(ny):
        for x in range(nx):
            def group(j, y=y, x=x):
                if j < dg:
                    v = dark[j, y, x]
                else:
                    v = dark[dg - 1, y, x] + (j - dg + 1) * (dark[dg - 1, y, x] - dark[dg - 2, y, x])
                return E.ite(np.isnan(v), 0.0, v)
            if (sf, sgap) == (df, dgap):
                out[y, x] = group(k)
            else:
                first = k * (sf + sgap)
                out[y, x] = sum((group(j) for j in range(first + 1, first + sf)), group(first)) / sf
    return out


def check(E, sci, drk, four, ny=1, nx=1, nan=True, intstart=None, save=None, models=False, inf=False):
    np = E.np
    cls = E.mod("stcal.dark_current.dark_class")
    f = E.mod("stcal.dark_current.dark_sub").do_correction_data
    if isinstance(intstart, tuple):
        intstart = E.pick("first integration of the segment", intstart)
    S, D = make(E, cls, sci, drk, four, ny, nx, nan, intstart, inf)
    s0, p0, g0 = S.data.copy(), S.pixeldq.copy(), S.groupdq.copy()
    d0, q0 = D.data.copy(), D.groupdq.copy()
    if models:       # the same from data models, as the pipelines have them
        exposure = types.SimpleNamespace(nframes=sci[2], groupgap=sci[3])
        if intstart is not None:
            exposure.integration_start = intstart
        S = types.SimpleNamespace(data=S.data, groupdq=S.groupdq, pixeldq=S.pixeldq, meta=types.SimpleNamespace(exposure=exposure))
        D = types.SimpleNamespace(data=D.data, dq=D.groupdq, meta=types.SimpleNamespace(
            exposure=types.SimpleNamespace(nframes=drk[2], ngroups=drk[1], groupgap=drk[3])))
        g = E.mod("stcal.dark_current.dark_sub").do_correction
        out, avg = g(S, D, save) if save else g(S, D)
    else:
        out, avg = f(S, D, save)
    si, sg, sf, sgap = sci
    di, dg, df, dgap = drk
    if df > sf or dgap > sgap:
        E.claim("a step with an incompatible dark is reported as skipped", out.cal_step == "SKIPPED")
        E.same("a skipped step returns the science data unchanged", out.data, s0)
        E.same("a skipped step leaves the pixel flags unchanged", out.pixeldq, p0)
        E.claim("a skipped step makes no averaged dark", avg is None)
        return
    E.claim("completion recorded", out.cal_step == "COMPLETE")
    for i in range(si):
        j = None
        if four:
            j = i if (i < di and (intstart is None or intstart == 1)) else di - 1
        for k in range(sg):
            want = dark_group(E, d0[j] if four else d0, sci, drk, k)
            for (y, x), w in want.items():
                E.same("each science group has its own time-matched dark subtracted", out.data[i, k, y, x], s0[i, k, y, x] - w)
    dq = q0
    if four:
        dq = q0[0, 0]
        for i in range(1, di):
            dq = dq | q0[i, 0]
    E.same("pixel flags are the union of science and dark flags", out.pixeldq, p0 | dq)
    E.same("group flags are untouched", out.groupdq, g0)
    E.same("the caller's science array is untouched", S.data, s0)
    if save is not None:
        E.claim("requested dark is returned for saving", avg is not None and avg.save and avg.output_name == save)
    if avg is not None and not (save is None and (sf, sgap) == (df, dgap)):
        E.claim("the returned dark tells its readout", (avg.exp_nframes, avg.exp_ngroups, avg.exp_groupgap) == (sf, sg, sgap)
                or (sf, sgap) == (df, dgap))
        for i in range(di if four else 1):
            for k in range(sg):
                want = dark_group(E, d0[i] if four else d0, sci, drk, k)
                for (y, x), w in want.items():
                    a = avg.data[i] if four else avg.data
                    E.same("the returned dark is the one that was matched", a[k, y, x], w)
    E.cover("finite", ~np.isnan(s0))
