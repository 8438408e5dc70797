"""Jump step as a whole: gain scaling, which flags may change, pixels without a gain."""
from symx.harness import Case

from .J03 import primary
from .jumpspec import DNU, DQ, JUMP, NGV, SAT

BOUNDS = "exposures up to (2 integrations, 3 groups, 2x2 pixels); all data, gains (zero, negative and NaN included), noise and flag words over the listed bits"
ASSUMPTIONS = ["single-pass detection, no snowball or shower search (J06, J07)"]


def jump_data(E, data, gdq, pdq, gain, rn, cores="none", **kw):
    np = E.np
    J = E.mod("stcal.jump.jump_class").JumpData
    j = J(gain2d=gain, rnoise2d=rn, dqflags=DQ)
    j.init_arrays_from_arrays(data, gdq, pdq)
    j.nframes = 1
    j.dt_group, j.n_reads_groupdiff = np.ones(1), np.ones(1) * 2
    j.max_cores = cores
    j.flag_4_neighbors = False
    j.min_diffs_single_pass = 1
    for k, v in kw.items():
        setattr(j, k, v)
    return j


def harness(E, shape, mask=0x47, bad_gain=True, four=False, after=False, ng=None):
    np = E.np
    ni, ngr, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    gdq = E.bits("gdq", shape, "u1", mask=mask)
    pdq = E.bits("pdq", (ny, nx), "u4", mask=0x0F)
    gain = E.floats("gain", (ny, nx), "f4", lo=-2, hi=10, nan=bad_gain)
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    d0, g0, p0 = data.copy(), gdq.copy(), pdq.copy()
    for i in range(ni):
        for g in range(ngr):
            E.assume((g0[i, g, 0, 0] & DNU) == 0)
    kw = {}
    if after:
        kw = dict(after_jump_flag_dn1=20.0, after_jump_flag_n1=1)
    j = jump_data(E, data, gdq, pdq, gain, rn, flag_4_neighbors=four, max_jump_to_flag_neighbors=100, min_jump_to_flag_neighbors=8, **kw)
    out, p, n, _ = E.mod("stcal.jump.jump").detect_jumps_data(j)
    nogain = np.logical_or(np.isnan(gain), gain <= 0)
    E.same("pixels without a usable gain are flagged, and no other pixel flag changes", p, p0 | np.where(nogain, NGV | DNU, 0).astype(np.uint32))
    E.same("only jump flags of groups change", out & (0xFF & ~JUMP), g0 & (0xFF & ~JUMP))
    unusable = (g0 & (SAT | DNU)) != 0
    E.claim("no jump is left on a saturated or do-not-use group", np.logical_or(np.logical_not(unusable), (out & JUMP) == 0))
    E.claim("an earlier jump on a usable group is kept", np.logical_or(unusable, np.logical_or((g0 & JUMP) == 0, (out & JUMP) != 0)))
    if not four and not after:
        st = primary(E, np, d0 * gain, unusable, rn * gain, [1.0], [2.0], 4.0)
        for (i, g, y, x), (ratio, _) in st.items():
            w = np.logical_and(np.logical_or(ratio > 4.0, (g0[i, g, y, x] & JUMP) != 0), np.logical_not(unusable[i, g, y, x]))
            E.same("jumps are found in gain-corrected data with gain-corrected noise", (out[i, g, y, x] & JUMP) != 0, w, exact=True)
            E.cover("jump", w)
    E.cover("nogain", nogain)


CASES = [
    Case("one-pixel", harness, shape=(1, 3, 1, 1)),
    Case("two-integrations", harness, shape=(2, 3, 1, 1), mask=0x87),
    Case("two-pixels", harness, shape=(1, 3, 1, 2), mask=0x16),
    Case("neighbours", harness, shape=(1, 3, 2, 2), four=True, bad_gain=False),
    Case("neighbours-nan-gain", harness, shape=(1, 3, 1, 2), four=True),
    Case("after", harness, shape=(1, 4, 1, 1), after=True, bad_gain=False),
]
