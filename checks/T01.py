"""Alignment is refused when sources may be confused or the correction is too large, and otherwise done as asked for."""
import types

from symx.harness import Case

BOUNDS = "1 or 2 images with footprints of 2 corners; any tolerances, search radii, offsets and corrections within 1 degree"
ASSUMPTIONS = ["corners move along one meridian, where the separation is the difference of the declinations", "the matching and fitting (tweakwcs) is a stand-in that moves the footprints"]


class Unit:
    __array_ufunc__ = None

    def __init__(self, per_deg):
        self.per_deg = per_deg

    def __rmul__(self, v):
        return Quant(v / self.per_deg)


class Quant:
    """an angle in degrees"""

    __array_ufunc__ = None

    def __init__(self, deg):
        self.deg = deg

    def __lt__(self, o):
        return self.deg < o.deg

    def __le__(self, o):
        return self.deg <= o.deg

    def __gt__(self, o):
        return self.deg > o.deg

    def __ge__(self, o):
        return self.deg >= o.deg

    @property
    def value(self):
        return self.deg

    def to_value(self, unit):
        return self.deg * unit.per_deg

    def to(self, unit):
        return self

    @property
    def arcsec(self):
        return self.deg * 3600

    def max(self, *a, **k):
        return Quant(self.deg.max(*a, **k))

    def min(self, *a, **k):
        return Quant(self.deg.min(*a, **k))

    def mean(self, *a, **k):
        return Quant(self.deg.mean(*a, **k))

    def __getitem__(self, k):
        return Quant(self.deg[k])

    def __len__(self):
        return len(self.deg)


class Sky:
    def __init__(self, ra=None, dec=None, unit=None):
        assert unit == "deg"
        self.dec = dec

    def separation(self, o):
        from symx import npproxy

        return Quant(npproxy.NP.abs(self.dec - o.dec))


def shims():
    u = types.ModuleType("astropy.units")
    u.arcsec, u.deg, u.degree = Unit(3600), Unit(1), Unit(1)
    c = types.ModuleType("astropy.coordinates")
    c.SkyCoord = Sky
    a = types.ModuleType("astropy")
    a.units, a.coordinates = u, c
    return {"astropy.units": u, "astropy.coordinates": c, "astropy": a}


class FakeWcs:
    def __init__(self, np, dec):
        self.np, self.dec = np, dec

    def footprint(self, axis_type=None, **k):
        return self.np.stack([self.np.zeros(self.dec.shape), self.dec], axis=1)


class Corrector:
    def __init__(self, np, dec, new):
        self.original_wcs = self.wcs = FakeWcs(np, dec)
        self.new = FakeWcs(np, new)
        self.meta = {"group_id": "mine"}


def install(E, T, note, fail=None):
    class Match:
        def __init__(self, **k):
            note["match"] = k

    def align(correctors, refcat=None, **k):
        note["align"] = dict(k, refcat=refcat, who=correctors)
        if fail:
            raise fail
        for c in correctors:
            c.wcs = c.new
    T.XYXYMatch, T.align_wcs = Match, align


def relative(E, n, hist, edge=False):
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    note = {}
    saved = T.XYXYMatch, T.align_wcs
    install(E, T, note)
    try:
        cs = [Corrector(np, E.floats(f"dec{i}", (2,), "f8", lo=-0.5, hi=0.5), E.floats(f"new{i}", (2,), "f8", lo=-0.5, hi=0.5)) for i in range(n)]
        sep = E.real("separation", lo=0, hi=2)
        tol = E.pick("tolerance", (0.5, 1.0, 2.0)) if edge else E.real("tolerance", lo=0, hi=2)
        rad = E.real("searchrad", lo=0, hi=20)
        xo = E.real("xoffset", lo=-20, hi=20)
        yo = E.real("yoffset", lo=-20, hi=20)
        limit = 2 * (rad + tol) / 3600 if hist else 2 * (np.where(np.abs(xo) > np.abs(yo), np.abs(xo), np.abs(yo)) + tol) / 3600
        if not edge:
            E.assume(np.abs(sep - 1.4142135623730951 * tol) > 1e-6)
        small = True
        for c in cs:
            d = np.abs(c.new.dec - c.wcs.dec)
            E.assume(np.abs(d - limit) > 1e-9)
            small = small & (d < limit).all()
        apart = sep > 1.4142135623730951 * tol
        try:
            out = T.relative_align(cs, searchrad=rad, separation=sep, use2dhist=hist, tolerance=tol, xoffset=xo, yoffset=yo, enforce_user_order=True,
                                   expand_refcat=True, minobj=9, fitgeometry="shift", nclip=2, sigma=2.5, clip_accum=True)
        except T.TweakregError:
            E.claim("refused exactly when sources may be confused or a corner moved too far", ~(apart & small))
            E.claim("confusion is refused before anything is aligned", ("align" in note) == bool(apart))
            return
        E.claim("refused exactly when sources may be confused or a corner moved too far", apart & small)
        E.claim("the aligned images are returned", out is cs and note["align"]["who"] is cs)
        m, a = note["match"], note["align"]
        for k, v in dict(searchrad=rad, separation=sep, tolerance=tol, xoffset=xo, yoffset=yo).items():
            E.same("matching as asked for", m[k], v, exact=True)
        E.claim("matching with the histogram as asked for", m["use2dhist"] is hist)
        want = dict(refcat=None, enforce_user_order=True, expand_refcat=True, minobj=9, fitgeom="shift", nclip=2, sigma=(2.5, "rmse"), clip_accum=True)
        E.claim("fit as asked for", all(a[k] == v for k, v in want.items()))
    finally:
        T.XYXYMatch, T.align_wcs = saved


def errors(E):
    """known failures of the fit become the alignment error, others stay"""
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    saved = T.XYXYMatch, T.align_wcs, T._parse_refcat
    err, mine = E.pick("error", ((ValueError("Too few input images (or groups of images) with non-empty catalogs."), True), (ValueError("else"), False),
                                 (RuntimeError("Number of output coordinates exceeded allocation (9)"), True), (RuntimeError("else"), False)))
    install(E, T, {}, err)
    T._parse_refcat = lambda *a, **k: list(range(20))
    try:
        cs = [Corrector(np, np.zeros(2), np.zeros(2))]
        try:
            if E.pick("which", (0, 1)):
                T.absolute_align(cs, "x", None, {}, 2020)
            else:
                T.relative_align(cs)
            E.claim("the failure is passed on", False)
        except T.TweakregError:
            E.claim("a known failure becomes the alignment error", mine)
        except (ValueError, RuntimeError) as e:
            E.claim("other failures stay what they are", e is err and not mine)
    finally:
        T.XYXYMatch, T.align_wcs, T._parse_refcat = saved


def absolute(E, n, edge=False):
    np = E.np
    T = E.mod("stcal.tweakreg.tweakreg")
    note = {}
    saved = T.XYXYMatch, T.align_wcs, T._parse_refcat
    install(E, T, note)
    size = E.integer("sources", 0, 4)
    cat = ["star"] * size
    T._parse_refcat = lambda *a, **k: note.setdefault("cat", cat)
    try:
        cs = [Corrector(np, np.zeros(2), np.zeros(2)) for i in range(n)]
        for i, c in enumerate(cs):
            st = E.pick(f"status{i}", (None, "REFERENCE", "SUCCESS"))
            if st:
                c.meta["fit_info"] = {"status": st}
        had = [c.meta.get("fit_info", {}).get("status") for c in cs]
        sep = E.real("separation", lo=0, hi=2)
        tol = E.pick("tolerance", (0.5, 1.0)) if edge else E.real("tolerance", lo=0, hi=2)
        least = E.integer("minobj", 0, 4)
        if not edge:
            E.assume(np.abs(sep - 1.4142135623730951 * tol) > 1e-6)
        apart = sep > 1.4142135623730951 * tol
        try:
            out = T.absolute_align(cs, "GAIADR3", None, {}, 2020, abs_searchrad=5.0, abs_separation=sep, abs_tolerance=tol, abs_minobj=least, abs_use2dhist=False,
                                   abs_fitgeometry="shift", abs_nclip=2, abs_sigma=2.5, clip_accum=True)
        except T.TweakregError:
            E.claim("refused exactly when sources may be confused or too few", ~apart if size >= least else True)
            E.claim("nothing aligned", "align" not in note)
            return
        E.claim("refused exactly when sources may be confused or too few", apart if size >= least else False)
        a, m = note["align"], note["match"]
        E.claim("all images are one group", len({c.meta["group_id"] for c in cs}) == 1 and all(c.meta["group_id"] != "mine" for c in cs))
        E.claim("the mark of the former reference image is removed, other fits stay",
                all(("fit_info" in c.meta) == (h == "SUCCESS") for c, h in zip(cs, had)))
        E.claim("aligned with the catalog", out is cs and a["who"] is cs and a["refcat"] is cat)
        want = dict(enforce_user_order=True, expand_refcat=False, minobj=least, fitgeom="shift", nclip=2, sigma=(2.5, "rmse"), clip_accum=True)
        E.claim("fit as asked for", all(a[k] == v for k, v in want.items()))
        E.same("matching as asked for", E.arr([m["searchrad"], m["separation"], m["tolerance"], m["xoffset"], m["yoffset"]]), E.arr([5.0, sep, tol, 0.0, 0.0]))
        E.claim("matching with the histogram as asked for", m["use2dhist"] is False)
    finally:
        T.XYXYMatch, T.align_wcs, T._parse_refcat = saved


S = shims()
CASES = [
    Case("relative-1", relative, n=1, hist=True, shims=S),
    Case("relative-1-offset", relative, n=1, hist=False, shims=S),
    Case("relative-2", relative, n=2, hist=True, shims=S),
    Case("relative-2-offset", relative, n=2, hist=False, shims=S),
    Case("absolute-1", absolute, n=1, shims=S),
    Case("absolute-2", absolute, n=2, shims=S),
    Case("relative-edge", relative, n=1, hist=True, edge=True, shims=S),
    Case("absolute-edge", absolute, n=1, edge=True, shims=S),
    Case("errors", errors, shims=S),
]
