"""Sources from the partitioned catalog: every one in the search area is read, those in the radius are kept, positions are moved to the epoch."""
import re

from symx.core import Inconclusive
from symx.harness import Case

from .T02 import Tab

MOD = "stcal.tweakreg._s3_catalog"
BOUNDS = ("search pixels of any number at depths up to 29; catalogs of up to 3 partitions of depths 0..3 with one source anywhere in each; "
          "up to 2 sources with any positions, motions, parallaxes and missing values; any radius")
ASSUMPTIONS = ["partitions of the catalog do not overlap", "parquet files, tables and coordinate transformations are stand-ins",
               "sine and cosine are uninterpreted functions (with sin^2+cos^2=1 and the addition theorem)"]


class SymSet:
    """a set of values that may be symbolic: membership by comparison"""

    def __init__(self, it=()):
        self.items = []
        for x in it:
            self.add(x)

    @staticmethod
    def equal(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(SymSet.equal(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def __contains__(self, x):
        return any(SymSet.equal(x, y) for y in self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def update(self, it):
        for x in it:
            self.add(x)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


def ranges(E, depth):
    """a pixel covers exactly the indices at depth 29 that lie in it"""
    np = E.np
    m = E.mod(MOD)
    n = 12 * 4 ** depth
    p = E.ints("pixel", (2,), "i8", lo=0, hi=n - 1)
    got = m._generate_depth_29_ranges(p, depth)
    E.claim("one range per pixel", got.shape == (2, 2))
    f = 4 ** (29 - depth)
    for k in range(2):
        E.claim(f"range {k}", (got[k, 0] == p[k] * f) & (got[k, 1] == (p[k] + 1) * f))


def matching(E, depths, deep, nsearch):
    """the partitions that hold a search pixel, each once"""
    np = E.np
    m = E.mod(MOD)
    num = [E.ints(f"n{k}", (), "i8", lo=0, hi=12 * 4 ** d - 1) for k, d in enumerate(depths)]
    for i, d in enumerate(depths):
        for j in range(i):
            lo, hi = (i, j) if d <= depths[j] else (j, i)
            E.assume(num[hi] >> 2 * (depths[hi] - depths[lo]) != num[lo])
    cat = np.stack([E.arr([d, n]) for d, n in zip(depths, num)]).astype("i8")
    s = [E.ints(f"s{k}", (), "i8", lo=0, hi=12 * 4 ** deep - 1) for k in range(nsearch)]
    if E.sym:
        m.set = SymSet
    try:
        try:
            got = m._find_pixels_in_catalog(cat, E.arr(s).astype("i8"), deep)
        finally:
            if E.sym:
                del m.set
    except ValueError:
        E.claim("refused only if searched at less than the depth of the catalog", deep < min(depths))
        return
    E.claim("refused if searched at less than the depth of the catalog", deep >= min(depths))
    got = [(int(d), n) for d, n in got]
    for k, d in enumerate(depths):
        hold = False
        if d <= deep:
            for q in s:
                hold = hold | ((q >> 2 * (deep - d)) == num[k])
        count = sum(int(bool(n == num[k])) for e, n in got if e == d)
        E.claim(f"partition {k} exactly if it holds a search pixel, once", (count == 1) == bool(hold) and count <= 1)
    for d, n in got:
        E.claim("only partitions of the catalog", any(e == d and bool(n == w) for e, w in zip(depths, num)))


class Column:
    def __init__(self, a):
        self.a = a

    def to_numpy(self):
        return self.a


class Masked:
    def __init__(self, a):
        self.a, self.mask = a, None

    @property
    def data(self):
        return Column2(self.a)

    def __len__(self):
        return len(self.a)

    def take(self, idx):
        r = Masked(self.a[idx])
        r.mask = self.mask[idx]
        return r


class Column2:
    def __init__(self, a):
        self.data = a


def reading(E, parts, search):
    """every source of the catalog in the search pixels is read, and no other"""
    np = E.np
    m = E.mod(MOD)
    deep = max(d for d, n in parts)
    idx = [E.ints(f"idx{k}", (), "i8", lo=n * 4 ** (29 - d), hi=(n + 1) * 4 ** (29 - d) - 1) for k, (d, n) in enumerate(parts)]
    pm = E.floats("pm", (len(parts),), "f8", lo=-5, hi=5, nan=True)
    cells = E.pick("search", search)
    note = {}

    class Dataset:
        def __init__(self, paths, filesystem=None, filters=None):
            if filesystem != "fs":
                raise Inconclusive("file system")
            self.paths, self.filters = paths, filters

        def read(self, columns=None):
            rows = []
            names = []
            for p in self.paths:
                w = re.fullmatch(r"bucket/hats/dataset/Norder=(\d+)/Dir=(\d+)/Npix=(\d+)\.parquet", p)
                E.claim("path of a partition of the catalog", w is not None and int(w[2]) == int(w[3]) // 10000 * 10000 and (int(w[1]), int(w[3])) in parts)
                names.append((int(w[1]), int(w[3])))
            E.claim("each partition is read once", len(set(names)) == len(names))
            for k, part in enumerate(parts):
                if part not in names:
                    continue
                ok = False
                for group in self.filters:
                    one = True
                    for col, op, v in group:
                        if col != "_healpix_29":
                            raise Inconclusive(col)
                        one = one & {">=": idx[k] >= v, "<": idx[k] < v, ">": idx[k] > v, "<=": idx[k] <= v}[op]
                    ok = ok | one
                if bool(ok):
                    rows.append(k)
            note["columns"] = columns
            return Ds({"source_id": np.array(rows, dtype="i8"), "pmra": pm[np.array(rows, dtype="i8")]})

    class Ds(dict):
        @property
        def column_names(self):
            return list(self)

        def __getitem__(self, k):
            return Column(dict.__getitem__(self, k))

    class Pq:
        ParquetDataset = Dataset

    class Hp:
        def __init__(self, nside=None, order=None):
            note["order"] = (int(nside), order)

        def cone_search_lonlat(self, ra, dec, radius=None):
            note["cone"] = (float(ra.value), float(dec.value), float(radius.value))
            return np.array(cells, dtype="i8")

    def table(cols, masked=False, **k):
        note["masked"] = masked
        return Tab(E, {n: Masked(a) for n, a in cols.items()})

    old = m.pq, m.HEALPix, m.Table, m._get_partition_info, m._filter_table
    m.pq, m.HEALPix, m.Table = Pq, Hp, table
    m._get_partition_info = lambda uri: ("fs", "bucket/hats", np.array(parts, dtype="i8"))
    m._filter_table = lambda t, ra, dec, r: (note.update(filter=(ra, dec, r)), t)[1]
    try:
        got = m._get_hats_sources("s3://bucket/hats/", 10.0, -20.0, 0.5, ["pmra"])
    finally:
        m.pq, m.HEALPix, m.Table, m._get_partition_info, m._filter_table = old
    E.claim("searched around the position at the depth of the catalog", note["order"] == (2 ** deep, "nested") and note["cone"] == (10.0, -20.0, 0.5))
    E.claim("filtered by the radius around it", note["filter"] == (10.0, -20.0, 0.5))
    E.claim("columns asked for", list(note["columns"]) == ["pmra"])
    want = [k for k in range(len(parts)) if any(bool(idx[k] // 4 ** (29 - deep) == c) for c in cells)]
    have = [int(got["source_id"].a[i]) for i in range(len(got["source_id"].a))]
    E.claim("the sources in the search pixels", sorted(have) == want)
    for i, k in enumerate(have):
        E.claim("missing values are masked, others not", got["pmra"].mask[i] == np.isnan(pm[k]))


def radius(E, n):
    """sources within the radius, in their order"""
    np = E.np
    m = E.mod(MOD)
    ra = E.floats("ra", (n,), "f8", lo=0, hi=360)
    dec = E.floats("dec", (n,), "f8", lo=-90, hi=90)
    ra0, dec0 = E.real("ra0", 0, 360), E.real("dec0", -90, 90)
    rad = E.real("radius", 0, 180)
    a, d, a0, d0, r = np.radians(ra), np.radians(dec), np.radians(ra0), np.radians(dec0), np.cos(np.radians(rad))
    want = []
    for i in range(n):
        if E.sym:
            E.assume(np.cos(a[i] - a0) == np.cos(a[i]) * np.cos(a0) + np.sin(a[i]) * np.sin(a0))
        c = np.sin(d[i]) * np.sin(d0) + np.cos(d[i]) * np.cos(d0) * (np.cos(a[i]) * np.cos(a0) + np.sin(a[i]) * np.sin(a0))
        E.assume((c <= 1 + 1e-9) & (c >= -1 - 1e-9) & (np.abs(c - r) > 1e-6))
        if bool(c > r):
            want.append(i)
    got = m._filter_table(Tab(E, {"ra": ra, "dec": dec, "id": np.arange(n)}), ra0, dec0, rad)
    E.same("sources within the radius", got["id"], E.arr(want) if want else np.arange(0), exact=True)


def far(E):
    """sources within the radius across 0h, over a pole, and more than 90 degrees away"""
    m = E.mod(MOD)
    np = E.np
    import math

    ra0, dec0 = E.pick("center", ((1.0, 0.0), (359.5, -40.0), (200.0, 89.5), (15.0, -89.75), (180.0, 5.0)))
    rad = E.pick("radius", (0.25, 2.0, 100.0, 170.0, 180.0))
    n = 6
    ra = [359.75, 0.25, 20.0, 180.0, 195.0, 181.5]
    dec = [0.0, -40.5, 89.25, -89.5, -89.9, 5.5]
    want = []
    for i in range(n):
        p, q = ([math.cos(math.radians(d)) * math.cos(math.radians(a)), math.cos(math.radians(d)) * math.sin(math.radians(a)), math.sin(math.radians(d))] for a, d in ((ra[i], dec[i]), (ra0, dec0)))
        if sum(x * y for x, y in zip(p, q)) > math.cos(math.radians(rad)):
            want.append(i)
    mag = E.floats("mag", (n,), "f8", lo=0, hi=30)
    got = m._filter_table(Tab(E, {"ra": E.arr(ra), "dec": E.arr(dec), "mag": mag, "id": np.arange(n)}), ra0, dec0, rad)
    E.same("sources within the radius", got["id"], E.arr(want) if want else np.arange(0), exact=True)
    E.same("their magnitudes", got["mag"], mag[np.array(want, dtype="i8")], exact=True)


class Unit:
    __array_ufunc__ = None

    def __init__(self, name):
        self.name = name

    def __rmul__(self, v):
        return Quant(v, self)


class Quant:
    __array_ufunc__ = None

    def __init__(self, v, unit):
        self.v, self.unit = v, unit

    def to(self, unit):
        if unit is not self.unit:
            raise Inconclusive("unit")
        return self

    @property
    def value(self):
        return self.v


class Vec:
    def __init__(self, xyz):
        self.xyz = xyz


class MCol:
    """a masked column with values"""

    __array_ufunc__ = None

    def __init__(self, a, mask):
        self.a, self.mask = a, mask

    def __len__(self):
        return len(self.a)

    def take(self, idx):
        return self.a[idx]


def motion(E, n, single=True):
    """positions at the epoch: proper motion and parallax, sources without are left out"""
    np = E.np
    m = E.mod(MOD)
    f = lambda name, lo, hi: E.floats(name, (n,), "f8", lo=lo, hi=hi)  # noqa: E731
    ra, dec, pmra, pmdec, plx, ref = f("ra", 0, 360), f("dec", -90, 90), f("pmra", -1000, 1000), f("pmdec", -1000, 1000), f("parallax", 0, 800), f("ref", 2000, 2020)
    miss = [E.bools(f"miss{k}", (n,)) for k in range(3)]
    keep = [i for i in range(n) if not any(bool(q[i]) for q in miss)]
    new = E.floats("new", (2, n), "f8", lo=-90, hi=360)
    epoch = E.pick("epoch", (2024.5, 1999.25))
    # vectors at each source and of the earth (what they are is up to astropy)
    xyz, east, north = (E.floats(k, (3, n), "f8", lo=-1, hi=1) for k in ("xyz", "east", "north"))
    earth = E.floats("earth", (3,), "f8", lo=-2, hi=2)
    U = Unit
    deg, au = U("deg"), U("AU")
    note = {}

    class Us:
        deg = None

        def __init__(self, lon, lat):
            note["lonlat"] = (lon.to(deg).v, lat.to(deg).v)

        def to_cartesian(self):
            return Vec(xyz[:, np.array(keep, dtype="i8")])

        def unit_vectors(self):
            k = np.array(keep, dtype="i8")
            return {"lon": Vec(east[:, k]), "lat": Vec(north[:, k])}

        @staticmethod
        def from_cartesian(c):
            note["new"] = c.xyz
            o = Us.__new__(Us)
            o.lon, o.lat = Quant(new[0, : len(keep)], deg), Quant(new[1, : len(keep)], deg)
            return o

    class Coordinates:
        UnitSphericalRepresentation = Us
        CartesianRepresentation = Vec

        @staticmethod
        def get_body_barycentric(body, time):
            note["body"] = (body, time)
            return Vec(Quant(earth, au))

    class Un:
        pass

    Un.deg = Un.degree = deg
    Un.AU = Un.au = au
    base = Tab(E, {"ra": ra, "dec": dec, "pmra": MCol(pmra, miss[0]), "pmdec": MCol(pmdec, miss[1]), "parallax": MCol(plx, miss[2]), "ref_epoch": ref, "id": np.arange(n)})
    for k, c in list(base.cols.items()):
        if isinstance(c, MCol):
            c.take = (lambda idx, c=c: c.a[np.array(idx, dtype="i8")])
    rows = base.rows

    def take(idx):
        i = np.array(idx, dtype="i8")
        return Tab(E, {k: (c.a if isinstance(c, MCol) else c)[i] for k, c in base.cols.items()}, base.meta)

    base.rows = take
    old = m.coordinates, m.u, m.Time
    m.coordinates, m.u, m.Time = Coordinates, Un, lambda t, format=None: (t, format)
    try:
        got = m._correct_for_proper_motion(base, epoch)
    finally:
        m.coordinates, m.u, m.Time = old
    have = [int(got["id"][i]) for i in range(len(got["id"]))]
    E.claim("sources with motions and parallax, in their order", have == keep)
    E.claim("the earth at the epoch", note["body"] == ("earth", (epoch, "decimalyear")))
    mas = E.const(1) * (np.pi / (180 * 3600 * 1000))
    k = mas
    for j, i in enumerate(keep):
        E.same("from the position in the catalog", E.arr([note["lonlat"][0][j], note["lonlat"][1][j]]), E.arr([ra[i], dec[i]]), exact=True)
        dt = epoch - ref[i]
        ee = sum(earth[q] * east[q, i] for q in range(3))
        en = sum(earth[q] * north[q, i] for q in range(3))
        for q in range(3):
            want = xyz[q, i] + (k * (dt * pmra[i] - ee * plx[i])) * east[q, i] + (k * (dt * pmdec[i] - en * plx[i])) * north[q, i]
            E.same("moved by proper motion and parallax", note["new"][q, j], want, rtol=1e-9, atol=1e-9)
        E.same("position at the epoch", E.arr([got["ra"][j], got["dec"][j]]), E.arr([new[0, j], new[1, j]]), exact=True)


CASES = [Case(f"ranges-{d}", ranges, depth=d) for d in (0, 3, 5, 12, 28, 29)] + [
    Case("matching-1", matching, depths=(1, 2), deep=2, nsearch=1),
    Case("matching-2", matching, depths=(1, 2), deep=2, nsearch=2),
    Case("matching-far", matching, depths=(0, 3), deep=3, nsearch=1),
    Case("matching-low", matching, depths=(0, 1), deep=1, nsearch=2),
    Case("matching-shallow", matching, depths=(2, 3), deep=1, nsearch=1),
    Case("matching-below", matching, depths=(1, 3), deep=2, nsearch=1),
    Case("matching-3", matching, depths=(0, 1, 2), deep=2, nsearch=2, tier="thorough"),
    Case("reading", reading, parts=((1, 5), (2, 24), (2, 100)), search=((20,), (23, 24), (100,), (24, 22), (25,), ())),
    Case("reading-many", reading, parts=((6, 49151), (5, 3), (6, 12999), (6, 10000)), search=((49151, 12999), (12, 13), (15, 10000), (9999,))),
    Case("radius-1", radius, n=1),
    Case("radius-far", far),
    Case("radius-2", radius, n=2, tier="thorough"),
    Case("motion-1", motion, n=1, query_ms=5000),
    Case("motion-2", motion, n=2, query_ms=5000),
]
