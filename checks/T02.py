"""Reference catalogs: what is asked for, which sources are kept, in which order and under which names."""
from symx.core import Inconclusive
from symx.harness import Case

BOUNDS = ("catalogs of 0 to 4 sources with any positions, magnitudes and missing proper motions; any bounding box; limits of -5..5 sources; "
          "columns in every listed spelling and combination")
ASSUMPTIONS = ["tables, the service and the file system are stand-ins", "bounding boxes and radii as given by the mapping"]


class Col:
    """a column: values, and a mask if it has one"""

    def __init__(self, a, mask=None):
        self.a = a
        if mask is not None:
            self.mask = mask

    def __len__(self):
        return len(self.a)

    def take(self, idx):
        c = Col([self.a[i] for i in idx] if isinstance(self.a, list) else self.a[idx])
        if hasattr(self, "mask"):
            c.mask = self.mask[idx]
        return c


class Tab:
    """a table: named columns of equal length"""

    def __init__(self, E, cols, meta=None):
        self.E, self.cols, self.meta, self.written = E, dict(cols), dict(meta or {}), []

    @property
    def colnames(self):
        return list(self.cols)

    columns = colnames

    def __getattr__(self, name):
        raise Inconclusive(f"table stand-in: {name}")

    def __len__(self):
        return len(next(iter(self.cols.values()))) if self.cols else 0

    def rename_column(self, a, b):
        if a == b:
            return
        if a not in self.cols or b in self.cols:
            raise KeyError(b)
        self.cols = {b if k == a else k: v for k, v in self.cols.items()}

    def remove_column(self, a):
        del self.cols[a]

    def keys(self):
        return list(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __setitem__(self, k, v):
        self.cols[k] = v

    def rows(self, idx):
        return Tab(self.E, {k: c.take(idx) if isinstance(c, Col) else c[idx] for k, c in self.cols.items()}, self.meta)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        if isinstance(k, (tuple, list)) and k and all(isinstance(c, str) for c in k):
            return Tab(self.E, {c: self.cols[c] for c in k}, self.meta)
        if isinstance(k, slice):
            return self.rows(list(range(len(self)))[k])
        if getattr(getattr(k, "dtype", None), "kind", None) == "b":
            if len(k) != len(self):
                raise IndexError("mask of another length")
            return self.rows([i for i in range(len(self)) if bool(k[i])])
        raise Inconclusive("table stand-in: index")

    def sort(self, keys=None, *, kind=None, reverse=False):
        c = self.cols[keys if isinstance(keys, str) else keys[0]]
        c = c.a if isinstance(c, Col) else c
        idx = []
        for i in range(len(self)):
            j = len(idx)
            while j and bool(c[i] < c[idx[j - 1]]):
                j -= 1
            idx.insert(j, i)
        if reverse:
            idx = idx[::-1]
        self.cols = self.rows(idx).cols

    def write(self, name, format=None, overwrite=False):
        self.written.append((name, format, overwrite, self.colnames, len(self)))


def bbox(E, n):
    """sources strictly inside the bounding box, in their order"""
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    x = E.floats("x", (n,), "f8", lo=-10, hi=10, nan=True)
    y = E.floats("y", (n,), "f8", lo=-10, hi=10, nan=True)
    cat = Tab(E, {"id": np.arange(n), "x": x, "y": y}, {"name": "c"})
    if E.pick("boxed", (True, False)):
        b = E.floats("box", (4,), "f8", lo=-10, hi=10)
        got = T.filter_catalog_by_bounding_box(cat, [(b[0], b[1]), (b[2], b[3])])
        want = [i for i in range(n) if bool((x[i] > b[0]) & (x[i] < b[1]) & (y[i] > b[2]) & (y[i] < b[3]))]
    else:
        got = T.filter_catalog_by_bounding_box(cat, None)
        want = list(range(n))
    E.same("sources inside the box, in their order", got["id"], E.arr(want) if want else np.arange(0), exact=True)
    E.claim("with their columns and name", got.colnames == ["id", "x", "y"] and got.meta["name"] == "c")


class FakeWcs:
    bounding_box = ((0.5, 3.5), (1.5, 6.5))


def corrector(E):
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    x = E.floats("x", (2,), "f8", lo=-10, hi=10)
    y = E.floats("y", (2,), "f8", lo=-10, hi=10)
    r = E.floats("ref", (3,), "f8", lo=-360, hi=360)
    cat = Tab(E, {"id": np.arange(2), "x": x, "y": y}, {"name": "c"})
    note = {}

    def make(wcs=None, wcsinfo=None, meta=None):
        note.update(wcs=wcs, info=wcsinfo, meta=meta)
        return "corrector"

    old = T.JWSTWCSCorrector
    T.JWSTWCSCorrector = make
    try:
        w = FakeWcs()
        got = T.construct_wcs_corrector(w, {"roll_ref": r[0], "v2_ref": r[1], "v3_ref": r[2], "other": 1}, cat, "g1")
    finally:
        T.JWSTWCSCorrector = old
    E.claim("corrector of the mapping", got == "corrector" and note["wcs"] is w and note["meta"]["group_id"] == "g1" and note["meta"]["name"] == "c")
    E.same("reference angles", E.arr([note["info"][k] for k in ("roll_ref", "v2_ref", "v3_ref")]), r, exact=True)
    (a, b), (c, d) = FakeWcs.bounding_box
    want = [i for i in range(2) if bool((x[i] > a) & (x[i] < b) & (y[i] > c) & (y[i] < d))]
    E.same("catalog inside the bounding box", note["meta"]["catalog"]["id"], E.arr(want) if want else np.arange(0), exact=True)


def create(E, n, num):
    """sorted from faint to bright, limited to the brightest or faintest, written as asked"""
    np = E.np
    A = E.mod("stcal.tweakreg.astrometric_utils")
    mag = E.floats("mag", (n,), "f8", lo=0, hi=25)
    for i in range(n):
        for j in range(i):
            E.assume(mag[i] != mag[j])
    ids = np.arange(n)
    ra = E.floats("ra", (n,), "f8", lo=0, hi=360)
    cat = Tab(E, {"ra": ra, "dec": ids * 1.0, "mag": mag, "objID": ids, "epoch": ids * 0 + 2016, "extra": ids})
    asked = []

    def get(*a, **k):
        asked.append((a, k))
        return cat

    old = A.compute_radius, A.get_catalog
    A.compute_radius, A.get_catalog = (lambda w: (0.25, (10.0, 20.0))), get
    out = E.pick("output", (None, "cat.ecsv"))
    kw = {} if num is None else {"num_sources": num}
    try:
        got = A.create_astrometric_catalog("wcs", 2020.5, catalog="GAIADR2", output=out, timeout=7, **kw)
    finally:
        A.compute_radius, A.get_catalog = old
    (a, k), = asked
    full = dict(zip(("right_ascension", "declination", "epoch", "search_radius", "catalog"), a), **k)
    E.claim("asked for the field at the epoch", full == {"right_ascension": 10.0, "declination": 20.0, "epoch": 2020.5, "search_radius": 0.25, "catalog": "GAIADR2", "timeout": 7})
    if n == 0:
        E.claim("nothing found", len(got) == 0)
        return
    m = n if num is None else min(abs(num), n)
    E.claim("at most the number asked for", len(got) == m)
    E.claim("columns for the alignment", got.colnames == ["RA", "DEC", "mag", "objID", "epoch"])
    E.claim("named", got.meta.get("catalog") == "GAIADR2")
    E.claim("written as asked", [(w[0], w[2:]) for w in got.written] == ([] if out is None else [(out, (True, got.colnames, m))]))
    g = got["objID"]
    chosen = [int(g[i]) for i in range(m)]
    E.claim("each source once", len(set(chosen)) == m)
    for i in range(m - 1):
        E.claim("faint to bright", got["mag"][i] > got["mag"][i + 1])
    for i in range(m):
        E.same("rows stay together", E.arr([got["mag"][i], got["RA"][i], got["DEC"][i]]), E.arr([mag[chosen[i]], ra[chosen[i]], chosen[i]]), exact=True)
    for j in range(n):
        if j not in chosen:
            for i in chosen:
                E.claim("the brightest, or the faintest if negative", mag[j] > mag[i] if num > 0 else mag[j] < mag[i])


class Reply:
    def __init__(self, text):
        self.content = text.encode()
        self.text = text


def service(E, n, epoch, masks=(True, True)):
    """sources without proper motion are left out when an epoch is asked for"""
    np = E.np
    A = E.mod("stcal.tweakreg.astrometric_utils")
    ids = np.arange(n)
    mk = [E.bools(f"missing{k}", (n,)) for k in range(2)]
    cols = {"objID": ids}
    for name, m, has in zip(("pmra", "pmdec"), mk, masks):
        cols[name] = Col(np.zeros(n), m if has else None)
    note = {}

    class TableCls:
        @staticmethod
        def read(text, format=None, comment=None, **k):
            note["text"] = text
            return Tab(E, cols)

    def get(url, headers=None, timeout=None, **k):
        note.update(url=url, timeout=timeout)
        return Reply("a,b\n1,2\n" if n else "No data records found")

    old = A.Table, A.requests.get
    A.Table, A.requests.get = TableCls, get
    try:
        got = A.get_catalog(12.5, -3.25, epoch=epoch, search_radius=0.5, catalog="GAIADR3", timeout=11)
    finally:
        A.Table, A.requests.get = old
    q = note["url"].split("?")[1].split("&")
    want = {"RA=12.5", "DEC=-3.25", "SR=0.5", "FORMAT=CSV", "CAT=GAIADR3"} | (set() if epoch is None else {f"EPOCH={epoch}"})
    E.claim("the query asks for the field, the catalog and the epoch", set(q) == want and note["timeout"] == 11)
    E.claim("an empty answer is an empty table", (note["text"].strip() == "") == (n == 0))
    keep = list(range(n))
    if epoch is not None:
        keep = [i for i in range(n) if not any(bool(m[i]) for m, has in zip(mk, masks) if has)]
    E.same("sources with proper motions", got["objID"], E.arr(keep) if keep else np.arange(0), exact=True)


def field(E, n):
    """the radius reaches the furthest corner from the reference position"""
    np = E.np
    A = E.mod("stcal.tweakreg.astrometric_utils")
    foot = E.floats("foot", (n, 2), "f8", lo=0, hi=90)
    fid = E.floats("centre", (2,), "f8", lo=0, hi=90)
    note = {}

    class Angle:
        __array_ufunc__ = None

        def __init__(self, deg):
            self.deg = self.value = deg

        def max(self):
            return Angle(self.deg.max())

    class U:
        class deg:
            __array_ufunc__ = None

            def __rmul__(self, v):
                return Angle(v)
        deg = degree = deg()

    class SkyPos:
        def __init__(self, ra, dec):
            self.ra, self.dec = ra.deg, dec.deg

        def separation(self, o):
            return Angle(np.abs(self.ra - o.ra) + 2 * np.abs(self.dec - o.dec))

    class W:
        def footprint(self, **k):
            return foot

    def fiducial(wcslist, **k):
        note["who"] = wcslist
        return fid

    w = W()
    old = A.compute_fiducial, A.SkyCoord, A.u
    A.compute_fiducial, A.SkyCoord, A.u = fiducial, SkyPos, U
    try:
        r, f = A.compute_radius(w)
    finally:
        A.compute_fiducial, A.SkyCoord, A.u = old
    E.claim("around the reference position of that mapping", f is fid and len(note["who"]) == 1 and note["who"][0] is w)
    far = np.abs(foot[:, 0] - fid[0]) + 2 * np.abs(foot[:, 1] - fid[1])
    E.claim("no corner is further away", (far <= r).all())
    E.claim("some corner is as far away", (far == r).any())


def partitioned(E, direct):
    """the partitioned catalog is asked for the same field and epoch, and has the same columns"""
    np = E.np
    A = E.mod("stcal.tweakreg.astrometric_utils")
    C = E.mod("stcal.tweakreg._s3_catalog")
    ids = np.arange(2)
    v = E.floats("v", (4, 2), "f8", lo=0, hi=100)
    tab = Tab(E, {"ra": v[0], "dec": v[1], "source_id": ids, "phot_g_mean_mag": v[2], "ref_epoch": v[3]})
    moved = Tab(E, {"ra": v[0] + 1, "dec": v[1], "source_id": ids[::-1], "phot_g_mean_mag": v[2] + 1, "ref_epoch": v[3] + 2})
    for t in (tab, moved):
        t.add_column = lambda col, name=None, t=t: t.__setitem__(name, col)
    note = {}
    epoch = E.pick("epoch", (None, 1991.25, 2016.0, 2020.5))

    def sources(uri, ra, dec, search_radius, columns=None):
        note["ask"] = (uri, ra, dec, search_radius, columns)
        return tab

    def motion(t, e):
        note["move"] = (t, e)
        return moved

    old = C._get_hats_sources, C._correct_for_proper_motion
    C._get_hats_sources, C._correct_for_proper_motion = sources, motion
    try:
        if direct:
            got = C.get_s3_catalog(12.5, -3.25, epoch=epoch, search_radius=0.75, catalog="GAIADR3_S3", timeout=30)
        else:
            got = A.get_catalog(12.5, -3.25, epoch=epoch, search_radius=0.75, catalog="GAIADR3_S3", timeout=30)
    finally:
        C._get_hats_sources, C._correct_for_proper_motion = old
    E.claim("the partitioned catalog is asked for the same field", note["ask"][:4] == ("s3://stpubdata/gaia/gaia_dr3/public/hats/gaia/", 12.5, -3.25, 0.75))
    need = {"ra", "dec", "parallax", "source_id", "ref_epoch", "pmra", "pmdec", "phot_g_mean_mag"}
    E.claim("with the columns that are used", note["ask"][4] is None or need <= set(note["ask"][4]))
    E.claim("sources are moved exactly when an epoch is asked for", ("move" in note) == (epoch is not None))
    if epoch is not None:
        E.claim("moved to that epoch", note["move"][0] is tab and note["move"][1] == epoch)
    want = moved if epoch is not None else tab
    E.claim("the table of the sources", got is want)
    for a, b in (("mag", "phot_g_mean_mag"), ("objID", "source_id"), ("epoch", "ref_epoch")):
        E.same(f"column {a}", got[a], want[b], exact=True)


NAMES = {"RA": ("RA", "ra", "Ra"), "DEC": ("DEC", "dec"), "sky_centroid": ("sky_centroid", "SKY_CENTROID")}


class Sky:
    def __init__(self, ra, dec):
        self.ra, self.dec = ra, dec

    def to_table(self):
        return {"ra": self.ra, "dec": self.dec}

    def __len__(self):
        return len(self.ra)


def centroid(E):
    """positions are taken from RA and DEC, else from the centroid"""
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    v = E.floats("v", (8, 2), "f8", lo=0, hi=90)
    ra = E.pick("ra", ((), ("RA",), ("ra",), ("Ra",), ("ra", "RA")))
    dec = E.pick("dec", ((), ("DEC",), ("dec",), ("DEC", "Dec")))
    sky = E.pick("sky", ((), ("sky_centroid",), ("Sky_Centroid",), ("sky_centroid", "SKY_CENTROID")))
    cols = {"label": np.arange(2)}
    if E.pick("first", (True, False)):
        for k in sky:
            cols[k] = Sky(v[4], v[5])
    for k, name in enumerate(ra):
        cols[name] = v[k]
    for k, name in enumerate(dec):
        cols[name] = v[2 + k]
    for k in sky:
        cols[k] = Sky(v[4], v[5])
    cat = Tab(E, cols)
    bad = len(ra) > 1 or len(dec) > 1 or len(sky) > 1 or (not (ra and dec) and not sky)
    try:
        got = T._parse_sky_centroid(cat)
    except KeyError:
        E.claim("refused exactly when it is unclear which columns to use, or there are none", bad)
        return
    E.claim("refused exactly when it is unclear which columns to use, or there are none", not bad)
    E.claim("columns", sorted(got.colnames) == ["DEC", "RA", "label"])
    use = (v[0], v[2]) if ra and dec else (v[4], v[5])
    E.same("positions", E.arr([got["RA"][0], got["RA"][1], got["DEC"][0], got["DEC"][1]]), E.arr([use[0][0], use[0][1], use[1][0], use[1][1]]), exact=True)


def parse(E):
    """a known name asks the service for the combined field, a file is read, anything else is refused"""
    T = E.mod("stcal.tweakreg.tweakreg")
    name = E.pick("name", ("gaiadr3", " GAIADR2 ", "mine.ecsv", "missing.ecsv", "GAIADR3_S3"))
    save = E.pick("save", (True, False))
    outdir = E.pick("dir", (None, "some/place"))
    f = E.floats("foot", (4, 2), "f8", lo=0, hi=90)
    note = {}

    class W:
        def footprint(self, **k):
            return f

    class C:
        wcs = W()

    class FakePath:
        def __init__(self, p):
            self.p = str(p)
            self.name = self.p.split("/")[-1]

        def is_file(self):
            return self.p == "mine.ecsv"

        exists = is_file

        def __truediv__(self, o):
            return FakePath(self.p + "/" + str(o))

        def __str__(self):
            return self.p

    class TableCls:
        @staticmethod
        def read(p, **k):
            note["read"] = str(p)
            return Tab(E, {"RA": f[:, 0], "DEC": f[:, 1]})

    def combined(foot, ref_wcs=None, ref_wcsinfo=None, **k):
        note["combined"] = (foot, ref_wcs, ref_wcsinfo, k)
        return "combined"

    def create(wcs, epoch, catalog=None, output="default", timeout=None, **k):
        note["create"] = (wcs, epoch, catalog, output, timeout, k)
        return Tab(E, {"RA": f[:, 0], "DEC": f[:, 1]})

    old = T.wcs_from_sregions, T.create_astrometric_catalog, T.Path, T.Table
    T.wcs_from_sregions, T.create_astrometric_catalog, T.Path, T.Table = combined, create, FakePath, TableCls
    try:
        try:
            got = T._parse_refcat(name, [C(), C()], "ref", {"roll_ref": 1}, 2021.0, save_abs_catalog=save, output_dir=outdir, timeout=3)
        except ValueError:
            E.claim("refused only if neither a catalog nor a file", name == "missing.ecsv")
            return
    finally:
        T.wcs_from_sregions, T.create_astrometric_catalog, T.Path, T.Table = old
    E.claim("refused if neither a catalog nor a file", name != "missing.ecsv")
    if name == "mine.ecsv":
        E.claim("the file is read", note == {"read": name} and got.meta["name"] == name)
        return
    up = name.strip().upper()
    E.claim("named after the catalog", got.meta["name"] == up)
    foot, rw, info, k = note["combined"]
    E.claim("combined field of all images", len(foot) == 2 and all(p is f for p in foot) and rw == "ref" and info == {"roll_ref": 1} and not k)
    wcs, epoch, catalog, output, timeout, k = note["create"]
    root = f"fit_{name.strip().lower()}_ref.ecsv"
    where = None if not save else (root if outdir is None else outdir + "/" + root)
    E.claim("asked for the catalog of that field at the epoch", (wcs, epoch, catalog, timeout, k) == ("combined", 2021.0, up, 3, {}))
    E.claim("saved exactly when and where asked", (output is None) == (not save) and (output is None or str(output) == where))


CASES = [Case("box-1", bbox, n=1), Case("box-2", bbox, n=2), Case("box-3", bbox, n=3, tier="thorough"), Case("corrector", corrector),
         Case("centroid", centroid), Case("catalog", parse), Case("field-4", field, n=4), Case("field-3", field, n=3),
         Case("partitioned", partitioned, direct=False), Case("partitioned-direct", partitioned, direct=True)] + [
    Case(f"create-{n}-{num}", create, n=n, num=num) for n, num in ((0, None), (1, 2), (3, None), (3, 1), (3, 2), (3, -1), (3, -2), (3, 5), (3, -5), (2, 0))] + [
    Case("create-4", create, n=4, num=2, tier="thorough")] + [
    Case(f"service-{n}-{'none' if e is None else e}-{'m' if m[0] else 'x'}{'m' if m[1] else 'x'}", service, n=n, epoch=e, masks=m)
    for n, e, m in ((0, 2016.0, (True, True)), (2, 2016.0, (True, True)), (2, None, (True, True)), (2, 2020.5, (False, True)), (2, 2020.5, (True, False)), (3, 2020.5, (True, True)))]
