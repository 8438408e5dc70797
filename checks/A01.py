"""Reference point and rotation of a combined mapping."""
from symx.harness import Case

BOUNDS = "up to 3 footprints of 2..4 points; any sky positions and angles"
ASSUMPTIONS = ["sine, cosine and arctangent are uninterpreted functions of their argument (with sin^2+cos^2=1); counterexamples are replayed with the real ones"]


def middle(np, lon, lat):
    """direction half way between the extremes of the points' unit vectors"""
    x, y, z = np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)
    mid = []
    for q in (x, y, z):
        q = [q[i] for i in range(q.shape[0])]
        lo = hi = q[0]
        for v in q[1:]:
            lo, hi = np.where(v < lo, v, lo), np.where(v > hi, v, hi)
        mid.append((hi + lo) / 2.0)
    return mid


def point(np, mid):
    a, b, c = mid
    return np.rad2deg(np.arctan2(b, a)) % 360.0, np.rad2deg(np.arctan2(c, np.sqrt(a * a + b * b)))


def fiducial(E, sizes, fixed=None):
    np = E.np
    U = E.mod("stcal.alignment.util")
    fp = []
    for k, n in enumerate(sizes):
        lon = E.floats(f"lon{k}", (n,), "f8", lo=0, hi=360)
        lat = E.floats(f"lat{k}", (n,), "f8", lo=-90, hi=90)
        if fixed is not None:      # all but the first point of the first footprint
            for i in range(n):
                if (k, i) != (0, 0):
                    lon[i], lat[i] = fixed[0] + (3.25 * k + 2.5 * i) % 7, fixed[1] + (1.75 * k + 4.5 * i) % 5
        fp.append(np.stack([lon, lat], axis=1))
    every = np.concatenate(fp)
    keep = [f.copy() for f in fp]
    want = point(np, middle(np, np.deg2rad(every[:, 0]), np.deg2rad(every[:, 1])))
    got = U._calculate_fiducial(fp, crval=None)
    E.same("longitude half way between the extremes", got[0], want[0])
    E.same("latitude half way between the extremes", got[1], want[1])
    c = [E.real("crval0", lo=0, hi=360), E.real("crval1", lo=-90, hi=90)]
    got = U._calculate_fiducial(fp, crval=c)
    E.same("a given reference position is used as it is", E.arr(list(got)), E.arr(c))
    for a, b in zip(fp, keep):
        E.same("footprints are left alone", a, b, exact=True)


class Frame:
    def __init__(self, axes):
        self.axes_type = axes


class FakeWcs:
    def __init__(self, axes, pts):
        self.output_frame = Frame(axes)
        self.pts = pts

    def footprint(self, bounding_box=None, **k):
        assert bounding_box == ((0, 1), (0, 1))
        return self.pts


def spectral(E, axes):
    """reference position of mappings with a spectral axis: shortest wavelength"""
    np = E.np
    U = E.mod("stcal.alignment.util")
    ws = []
    for k in range(2):
        cols = [E.floats(f"a{k}{i}", (2,), "f8", lo=0.5, hi=360 if a == "SPATIAL" and i == 0 else 89) for i, a in enumerate(axes)]
        ws.append(FakeWcs(axes, np.stack(cols, axis=1)))
    got = U.compute_fiducial(ws, bounding_box=((0, 1), (0, 1)))
    every = np.concatenate([w.pts for w in ws])
    sp = [i for i, a in enumerate(axes) if a == "SPATIAL"]
    if sp:
        p = point(np, middle(np, np.deg2rad(every[:, sp[0]]), np.deg2rad(every[:, sp[1]])))
        E.same("longitude", got[sp[0]], p[0])
        E.same("latitude", got[sp[1]], p[1])
    for i, a in enumerate(axes):
        if a == "SPECTRAL":
            m = every[0, i]
            for j in range(1, 4):
                m = np.where(every[j, i] < m, every[j, i], m)
            E.same("shortest wavelength", got[i], m)
    E.claim("one value per axis", got.shape == (len(axes),))


def rotation(E):
    np = E.np
    U = E.mod("stcal.alignment.util")
    v = E.pick("parity", (1, -1, 0, 2))
    r = E.real("roll", lo=-7, hi=7)
    a = E.real("v3i", lo=-7, hi=7)
    try:
        m = U.calc_rotation_matrix(r, a, vparity=v)
    except ValueError:
        E.claim("only a bad parity is refused", v in (0, 2))
        return
    E.claim("only a bad parity is refused", v not in (0, 2))
    ang = r - v * a
    E.same("rotation by the relative angle, with parity", E.arr(list(m)), E.arr([v * np.cos(ang), np.sin(ang), -(v * np.sin(ang)), np.cos(ang)]))
    E.same("area kept, handedness given by the parity", m[0] * m[3] - m[1] * m[2], v * 1.0)
    m = U.calc_rotation_matrix(r, a)
    E.same("parity one unless given", E.arr(list(m)), E.arr([np.cos(r - a), np.sin(r - a), -np.sin(r - a), np.cos(r - a)]))


CASES = [
    Case("fiducial-4", fiducial, sizes=(4,)),
    Case("fiducial-2-3", fiducial, sizes=(2, 3)),
    Case("fiducial-1-1-1", fiducial, sizes=(1, 1, 1)),
    Case("fiducial-fixed", fiducial, sizes=(4,), fixed=(200.5, -40.25), query_ms=2500),
    Case("fiducial-fixed-zero", fiducial, sizes=(3, 2), fixed=(357.5, 12.25), query_ms=2500),
    Case("fiducial-fixed-pole", fiducial, sizes=(4,), fixed=(88.0, 85.0), query_ms=2500),
    Case("sky", spectral, axes=("SPATIAL", "SPATIAL")),
    Case("sky-wave", spectral, axes=("SPATIAL", "SPATIAL", "SPECTRAL")),
    Case("wave-sky", spectral, axes=("SPECTRAL", "SPATIAL", "SPATIAL")),
    Case("rotation", rotation),
]
