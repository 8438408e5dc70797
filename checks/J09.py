"""Jump settings: what is asked of the jump step is what its detection uses."""
from types import SimpleNamespace as NS

from symx.harness import Case

from .J02 import pixel
from .J03 import primary
from .J05 import Serial
from .jumpspec import DNU, DQ, JUMP, SAT, pattern

BOUNDS = ("one integration of 3 to 5 groups of one pixel (two for the gain of after-jump thresholds), set up from a model and the setters, in one slice and in two; "
          "all data; listed thresholds, minimum numbers of groups, read patterns and flags")
ASSUMPTIONS = ["no snowballs or showers (J06, J07)", "fixed gain and read noise (J04 takes any)"]


def setup(E, data, gdq, gain, rn, rp=None, nframes=1, detection=(4.0, 6.0, 5.0, 200.0, 10.0, False), after=(0.0, 0, 0.0, 0), single=10, sigclip=(3, 100, True)):
    np = E.np
    exposure = NS(nframes=nframes, read_pattern=rp)
    model = NS(data=data, groupdq=gdq, pixeldq=np.zeros(data.shape[2:], dtype=np.uint32), meta=NS(exposure=exposure))
    j = E.mod("stcal.jump.jump_class").JumpData(model, gain2d=gain, rnoise2d=rn, dqflags=DQ)
    rej, three, four, mx, mn, neighbours = detection
    j.set_detection_settings(rej, three, four, mx, mn, neighbours)
    j.set_after_jump(*after)
    j.set_snowball_info(False, 5, 1, 2.0, True, 2.5, 2, 25)
    j.set_shower_info(False, 1.2, 90, 1, 2.6, 1.2, single, 200)
    j.set_sigma_clipping_info(*sigclip)
    return j


def run(E, j, slices=1):
    m = E.mod("stcal.jump.jump")
    real = m.multiprocessing
    m.multiprocessing = Serial(4)
    j.max_cores = str(slices) if slices > 1 else "none"
    try:
        return m.detect_jumps_data(j)[0]
    finally:
        m.multiprocessing = real


def times(np, rp, nframes):
    if rp is None:
        return [1.0], [2.0 * nframes]
    return pattern(np, rp)


def inputs(E, ng, nx, fix, flags, gain):
    np = E.np
    data = E.floats("data", (1, ng, 1, nx), "f4", lo=-1000, hi=60000)
    for g, v in (fix or {}).items():
        data[0, g] = v
    gdq = np.zeros((1, ng, 1, nx), dtype=np.uint8)
    for g, f in (flags or {}).items():
        gdq[0, g] = f
    return data, gdq, np.array([gain], dtype=np.float32)


def few(E, ng, minimum, thr=(4.0, 6.0, 5.0), rp=None, nframes=1, fix=None, flags=None, slices=1):
    """few differences: the threshold for that number of groups, and nothing where there are fewer groups than asked for"""
    np = E.np
    data, gdq, gain = inputs(E, ng, 1, fix, flags, [2.0])
    if slices > 1:
        data, gdq, gain = np.concatenate([data] * slices, axis=2), np.concatenate([gdq] * slices, axis=2), np.concatenate([gain] * slices)
    d0, g0 = data.copy(), gdq.copy()
    rn = np.full(gain.shape, 5.0, dtype=np.float32)
    j = setup(E, data, gdq, gain, rn, rp, nframes, detection=(*thr, 200.0, 10.0, False), sigclip=(minimum, 100, True))
    out = run(E, j, slices)
    usable = ng - sum(1 for f in (flags or {}).values() if f & DNU)
    dt, nr = times(np, rp, nframes)
    fl = {(0, g, 0): int((flags or {}).get(g, 0)) for g in range(ng)}
    want, _ = pixel(E, np, d0 * 2.0, fl, 1, ng, 0, dt, nr, 10.0, (thr[0], thr[2], thr[1]), rp is not None)
    for y in range(slices):
        for g in range(ng):
            w = want.get((0, g)) if usable >= minimum else None
            f = fl[0, g, 0]
            E.same("flagged by the thresholds asked for", out[0, g, y, 0], f if w is None else E.ite(w, f | JUMP, f), exact=True)
            if w is not None:
                E.cover("jump", w)


def single(E, ng, rp=None, nframes=1, rej=3.0, minimum=2, fix=None):
    """enough differences for a single pass: the normal threshold, times and reads of the read pattern or number of frames"""
    np = E.np
    data, gdq, gain = inputs(E, ng, 1, fix, None, [2.0])
    d0 = data.copy()
    j = setup(E, data, gdq, gain, np.full((1, 1), 5.0, dtype=np.float32), rp, nframes, detection=(rej, 50.0, 60.0, 200.0, 10.0, False), single=ng - 1, sigclip=(minimum, 100, True))
    out = run(E, j)
    dt, nr = times(np, rp, nframes)
    st = primary(E, np, d0 * 2.0, np.zeros(d0.shape, dtype=bool), np.full((1, 1), 10.0), dt, nr, rej)
    for (_, g, _, _), (ratio, _) in st.items():
        E.same("flagged by the normal threshold", out[0, g, 0, 0], E.ite(ratio > rej, JUMP, 0), exact=True)
        E.cover("jump", ratio > rej)


def after(E, ng, n, dn, gains, rp=None, fix=None):
    """after-jump thresholds are numbers of counts, converted with the median gain"""
    np = E.np
    nx = len(gains)
    data, gdq, gain = inputs(E, ng, nx, fix, None, gains)
    d0 = data.copy()
    j = setup(E, data, gdq, gain, np.full((1, nx), 5.0, dtype=np.float32), rp, 1, detection=(4.0, 6.0, 5.0, 200.0, 10.0, False), after=(dn[0], n[0], dn[1], n[1]), single=1)
    out = run(E, j)
    dt, nr = times(np, rp, 1)
    gm = sorted(g for g in gains if g > 0)
    gm = gm[len(gm) // 2] if len(gm) % 2 else (gm[len(gm) // 2 - 1] + gm[len(gm) // 2]) / 2
    good = [x for x in range(nx) if gains[x] > 0]
    g2 = np.array([gains], dtype=np.float32)
    st = primary(E, np, d0 * g2, np.zeros(d0.shape, dtype=bool), 5.0 * g2, dt, nr, 4.0)
    for x in good:
        jump = {g: st[0, g, 0, x][0] > 4.0 for g in range(1, ng)}
        final = dict(jump)
        for lim, w in zip(dn, n):
            for g in jump:
                big = np.logical_and(jump[g], st[0, g, 0, x][1] >= lim * gm)
                for h in range(g + 1, min(g + w, ng - 1) + 1):
                    final[h] = np.logical_or(final[h], big)
        for g, w in final.items():
            E.same("groups after a jump of at least that many counts are flagged", out[0, g, 0, x], E.ite(w, JUMP, 0), exact=True)
            E.cover("after", np.logical_and(w, np.logical_not(jump[g])))


def neighbours(E, mx, mn, on):
    """neighbour flagging within the limits asked for"""
    np = E.np
    data, gdq, gain = inputs(E, 4, 2, None, None, [1.0, 1.0])
    data[0, :, 0, 1] = 100.0
    data[0, :3, 0, 0] = 100.0
    d0 = data.copy()
    j = setup(E, data, gdq, gain, np.full((1, 2), 5.0, dtype=np.float32), detection=(4.0, 6.0, 5.0, mx, mn, on), single=1)
    out = run(E, j)
    ratio = np.abs(d0[0, 3, 0, 0] - 100.0) / 5.0
    E.same("a strong jump", out[0, 3, 0, 0], E.ite(ratio > 4.0, JUMP, 0), exact=True)
    near = np.logical_and(np.logical_and(ratio > 4.0, on), np.logical_and(ratio > mn, ratio < mx))
    E.same("its neighbour is flagged within the limits asked for", out[0, 3, 0, 1], E.ite(near, JUMP, 0), exact=True)
    E.cover("near", near)


RP = [[1], [2, 3], [4, 5, 6], [8], [10, 11]]
F4 = {0: 0, 1: 10}
CASES = [
    Case("two-differences", few, ng=3, minimum=2),
    Case("two-differences-minimum", few, ng=3, minimum=3),
    Case("below-minimum", few, ng=3, minimum=4),
    Case("two-groups", few, ng=2, minimum=1),
    Case("three-differences", few, ng=4, minimum=4, fix=F4),
    Case("three-differences-frames", few, ng=4, minimum=3, fix=F4, nframes=4),
    Case("three-differences-pattern", few, ng=4, minimum=3, fix={0: 0, 1: 10, 2: 35}, query_ms=3000, rp=RP[:4]),
    Case("four-differences", few, ng=5, minimum=3, fix={0: 0, 1: 10, 2: 20, 3: 35}, flags={}),
    Case("minimum-with-dnu", few, ng=4, minimum=4, fix=F4, flags={0: DNU}),
    Case("enough-with-dnu", few, ng=4, minimum=3, fix={0: 0, 1: 10}, flags={0: DNU}),
    Case("saturated-counts", few, ng=4, minimum=4, fix={0: 0, 1: 10}, flags={3: SAT}),
    Case("slices-minimum", few, ng=3, minimum=2, slices=2, fix={0: 0}),
    Case("slices-below", few, ng=3, minimum=4, slices=2, fix={0: 0}),
    Case("single", single, ng=4),
    Case("single-frames", single, ng=4, nframes=8, fix=F4),
    Case("single-pattern", single, ng=5, rp=RP, fix=F4, rej=5.0),
    Case("after-gains", after, ng=4, n=(1, 2), dn=(50.0, 500.0), gains=[1.0, 2.0, 4.0], fix={0: 0, 2: 4020, 3: 4030}),
    Case("after-missing-gain", after, ng=4, n=(0, 1), dn=(20.0, 100.0), gains=[1.0, 3.0, float("nan")], fix={0: 0, 2: 4020, 3: 4030}),
    Case("after-first", after, ng=4, n=(2, 0), dn=(50.0, 100.0), gains=[2.0], fix={0: 0, 2: 4020, 3: 4030}),
    Case("neighbours", neighbours, mx=40.0, mn=8.0, on=True),
    Case("neighbours-off", neighbours, mx=40.0, mn=8.0, on=False),
]
