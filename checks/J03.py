"""Neighbours of strong jumps and groups after large jumps are flagged exactly as requested."""
from symx.harness import Case

from .jumpspec import DNU, JUMP, SAT, params, pattern

BOUNDS = ("neighbours: 3 groups x up to 3x3 pixels; after-jump: up to 6 groups x 2 pixels (and 54 groups for long windows); all data, all usable/unusable patterns; "
          "neighbour ratio window, energies and window lengths as listed")
ASSUMPTIONS = ["read noise is positive", "single-pass detection"]


def primary(E, np, d, bad, rn, dt, nr, thr):
    """differences, medians, ratios and primary jumps of one image (ny, nx), ints and groups given by dict access"""
    ni, ng, ny, nx = d.shape
    v = np.where(bad, np.nan, d)
    out = {}
    for y in range(ny):
        for x in range(nx):
            diffs = {(i, g): (v[i, g, y, x] - v[i, g - 1, y, x]) / dt[min(g - 1, len(dt) - 1)] for i in range(ni) for g in range(1, ng)}
            med = np.nanmedian(np.array(list(diffs.values())))
            for (i, g), q in diffs.items():
                k = min(g - 1, len(dt) - 1)
                sig = np.sqrt(np.abs(med) * dt[k] + rn[y, x] * rn[y, x] / (0.5 * nr[k])) / dt[k]
                out[i, g, y, x] = (np.abs(q - med) / sig, (q - med) * dt[k])
    return out


def harness(E, shape, window=(10, 200), thresh=4.0, e=(None, None), n=(0, 0), four=True, rp=None, flagmask=7, noise=None):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    gdq = E.bits("gdq", shape, "u1", mask=flagmask)
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    if noise:
        rn[...] = noise
    kw = {}
    if rp is not None:
        kw["dt_group"], kw["n_reads_groupdiff"] = pattern(np, rp)
    p = params(E, normal_rej_thresh=thresh, min_diffs_single_pass=1, minimum_groups=1, flag_4_neighbors=four,
               min_jump_to_flag_neighbors=window[0], max_jump_to_flag_neighbors=window[1],
               after_jump_flag_e1=e[0] or 0.0, after_jump_flag_n1=n[0], after_jump_flag_e2=e[1] or 0.0, after_jump_flag_n2=n[1], **kw)
    d0, g0 = data.copy(), gdq.copy()
    for i in range(ni):  # leave at least two usable groups, so that detection runs in a single pass
        for g in range(2):
            E.assume((g0[i, g, 0, 0] & DNU) == 0)
    out, below, above, _ = E.mod("stcal.jump.twopoint_difference").find_crs(data, gdq, rn, p)
    dt, nr = kw.get("dt_group", [1.0]), kw.get("n_reads_groupdiff", [2.0])
    bad = (g0 & 3) != 0
    st = primary(E, np, d0, bad, rn, dt, nr, thresh)
    jump = {(i, g, y, x): np.logical_or((g0[i, g, y, x] & JUMP) != 0, st[i, g, y, x][0] > thresh) for (i, g, y, x) in st}
    if four:
        strong = {k: np.logical_and(jump[k], np.logical_and(st[k][0] > window[0], st[k][0] < window[1])) for k in jump}
        grown = {}
        for (i, g, y, x) in jump:
            near = [strong[i, g, b, a] for b, a in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1), (y, x)) if 0 <= b < ny and 0 <= a < nx]
            hit = near[0]
            for q in near[1:]:
                hit = np.logical_or(hit, q)
            grown[i, g, y, x] = np.logical_or(jump[i, g, y, x], np.logical_and(hit, np.logical_not(bad[i, g, y, x])))
        jump = grown
    final = dict(jump)
    for lim, w in zip(e, n):
        if not w:
            continue
        for (i, g, y, x) in jump:
            big = np.logical_and(jump[i, g, y, x], st[i, g, y, x][1] >= lim)
            for h in range(g, min(g + w, ng - 1) + 1):
                final[i, h, y, x] = np.logical_or(final[i, h, y, x], np.logical_and(big, np.logical_not(bad[i, h, y, x])))
    for (i, g, y, x), w in final.items():
        E.same("flagged exactly by detection, strong neighbours and after-jump windows", out[i, g, y, x],
               E.ite(w, g0[i, g, y, x] | JUMP, g0[i, g, y, x]), exact=True)
        E.cover("secondary", np.logical_and(w, np.logical_not(np.logical_or((g0[i, g, y, x] & JUMP) != 0, st[i, g, y, x][0] > thresh))))
    E.same("the first group is never flagged", out[:, 0], g0[:, 0], exact=True)


def harness_long(E, ng, nx, n, e, at):
    """a window longer than fifty groups, started by flags set on input at steps of known height"""
    np = E.np
    pre = E.bools("flagged", (len(at),))
    data = np.zeros((1, ng, 1, nx), dtype=np.float32)
    gdq = np.zeros((1, ng, 1, nx), dtype=np.uint8)
    for j, (g, x, step) in enumerate(at):
        data[0, g:, 0, x] = data[0, g, 0, x] + step
        gdq[0, g, 0, x] = E.ite(pre[j], JUMP, 0)
    p = params(E, normal_rej_thresh=1e9, min_diffs_single_pass=1, minimum_groups=1, after_jump_flag_e1=e, after_jump_flag_n1=n)
    out, _, _, _ = E.mod("stcal.jump.twopoint_difference").find_crs(data, gdq, np.ones((1, nx), dtype=np.float32), p)
    want = {}
    for j, (g, x, step) in enumerate(at):
        for h in range(g, min(g + (n if step >= e else 0), ng - 1) + 1):
            want[h, x] = np.logical_or(want.get((h, x), False), pre[j])
    full = np.zeros((ng, nx), dtype=np.uint8)
    for (h, x), w in want.items():
        full[h, x] = E.ite(w, JUMP, 0)
    E.same("exactly the window is flagged", out[0, :, 0, :], full, exact=True)


RP = [[1], [2, 3], [4, 5, 6], [8], [9, 10]]
CASES = [
    Case("neighbours-2x2", harness, shape=(1, 3, 2, 2)),
    Case("neighbours-row", harness, shape=(1, 3, 1, 3), window=(5, 40), flagmask=6),
    Case("neighbours-column", harness, shape=(1, 3, 3, 1), window=(5, 40), flagmask=5),
    Case("neighbours-two-integrations", harness, shape=(2, 2, 2, 1), window=(6, 50), noise=10),
    Case("neighbours-pattern", harness, shape=(1, 3, 1, 2), rp=RP[:3], noise=10),
    Case("neighbours-off", harness, shape=(1, 3, 1, 2), four=False, noise=10),
    Case("after-one", harness, shape=(1, 5, 1, 1), four=False, e=(100.0, None), n=(1, 0), flagmask=7, noise=10),
    Case("after-two", harness, shape=(1, 4, 1, 1), four=False, e=(100.0, 1000.0), n=(1, 2), flagmask=7, noise=10),
    Case("after-pattern", harness, shape=(1, 4, 1, 1), four=False, e=(50.0, 500.0), n=(0, 2), flagmask=6, rp=RP[:4], noise=10),
    Case("after-and-neighbours", harness, shape=(1, 4, 1, 2), e=(100.0, None), n=(2, 0), flagmask=4, noise=10, window=(5, 50)),
    Case("after-long", harness, shape=(1, 5, 1, 1), four=False, e=(100.0, None), n=(9, 0), flagmask=6, noise=10),
    Case("after-very-long", harness_long, ng=57, nx=60, n=52, e=50.0, at=((2, 0, 60.0), (4, 1, 50.0), (3, 2, 49.0), (20, 3, 90.0))),
    Case("after-51", harness_long, ng=57, nx=60, n=51, e=50.0, at=((1, 0, 60.0), (4, 0, 50.0), (5, 2, 49.0))),
    Case("after-50", harness_long, ng=57, nx=60, n=50, e=50.0, at=((1, 0, 60.0), (6, 0, 50.0), (5, 59, 49.0))),
    Case("neighbours-3x3", harness, shape=(1, 3, 3, 3), noise=10, flagmask=4, tier="thorough"),
    Case("after-two-pixels", harness, shape=(1, 5, 1, 2), e=(100.0, 1000.0), n=(1, 3), noise=10, window=(5, 50), flagmask=7, tier="thorough"),
]
