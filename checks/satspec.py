"""Shared pieces of the saturation properties."""
DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "NO_SAT_CHECK": 2097152, "AD_FLOOR": 64}
DNU, SAT, FLOOR, NOSAT = 1, 2, 64, 2097152
ATOD = 65535


def grow(E, m, n):
    """OR of a boolean plane (..., y, x) over the (2n+1)x(2n+1) box, clipped at the image edge"""
    np = E.np
    if n == 0:
        return m
    ny, nx = m.shape[-2:]
    out = np.zeros(m.shape, dtype=bool)
    for dy in range(-n, n + 1):
        for dx in range(-n, n + 1):
            ys = slice(max(0, dy), ny + min(0, dy))
            yt = slice(max(0, -dy), ny + min(0, -dy))
            xs = slice(max(0, dx), nx + min(0, dx))
            xt = slice(max(0, -dx), nx + min(0, -dx))
            out[..., yt, xt] = out[..., yt, xt] | m[..., ys, xs]
    return out


def inputs(E, shape, thr4=False, bits=DNU | SAT | FLOOR | 4, nan_thr=True, maxthr=65000):
    ni, ng, ny, nx = shape
    ts = shape if thr4 else (ny, nx)
    data = E.floats("data", shape, "f4", lo=-1000, hi=65535, nan=False)
    thr = E.floats("thresh", ts, "f4", lo=1, hi=maxthr, nan=nan_thr)
    sdq = E.bits("satdq", ts, "u4", mask=NOSAT | 0x80000009)
    gdq = E.bits("gdq", shape, "u1", mask=bits)
    pdq = E.bits("pdq", (ny, nx), "u4", mask=NOSAT | 0x40000009)
    return data, thr, sdq, gdq, pdq


def eff_threshold(E, thr, sdq):
    """threshold and 'never checked' mask a user expects"""
    np = E.np
    off = np.isnan(thr) | ((sdq & NOSAT) != 0)
    return np.where(off, ATOD + 1, thr), off


def crossings(E, data, thr, gdq_in):
    """ungrown SATURATED state: the group or an earlier one reached the threshold, or the flag was set on input"""
    np = E.np
    ni, ng = data.shape[:2]
    out = np.zeros(data.shape, dtype=bool)
    own = np.zeros(data.shape, dtype=bool)
    for i in range(ni):
        for g in range(ng):
            t = thr[i, g] if thr.ndim == 4 else thr
            hit = data[i, g] >= t
            own[i, g] = (own[i, g - 1] | hit) if g else hit
            out[i, g] = own[i, g] | ((gdq_in[i, g] & SAT) != 0)
    return out
