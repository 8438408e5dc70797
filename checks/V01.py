"""Velocity aberration: the apparent direction and wavelength scale of special relativity."""
import types
from fractions import Fraction

from symx.harness import Case

BOUNDS = "any unit direction and the listed velocities (with rational Lorentz factor), any slow velocity for the listed directions; zero velocity"
ASSUMPTIONS = ["sine, cosine and arctangent are uninterpreted functions (with sin^2+cos^2=1)"]
C = 299792.458


def vector(E, beta):
    """fixed velocity, any direction"""
    np = E.np
    V = E.mod("stcal.velocity_aberration")
    b = [E.const(Fraction(q)) for q in beta]
    v = [E.const(Fraction(q) * Fraction(C)) for q in beta]
    u = E.floats("u", (3,), "f8", lo=-1, hi=1)
    if E.sym:
        E.assume(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] == 1)
    else:
        u = u / np.sqrt((u * u).sum())
    keep = u.copy()
    s, w = V.compute_va_effects_vector(v[0], v[1], v[2], u)
    b2 = sum(Fraction(q) ** 2 for q in beta)
    g = E.const({Fraction(16, 25): Fraction(4, 5), Fraction(9216, 10000): Fraction(96, 100)}[1 - b2])
    b2 = E.const(b2)
    ub = sum(u[i] * b[i] for i in range(3))
    d = 1 + ub
    E.same("scale is the Doppler factor", s * g, d)
    # the part along the motion adds up, the part across it shrinks by the Lorentz factor
    bb = np.array(v) / C
    bq = np.dot(bb, bb)
    gg = np.sqrt(1.0 - bq)
    du = sum(u[i] * bb[i] for i in range(3))
    for i in range(3):
        E.same("component as relativity has it", w[i], (gg * u[i] + bb[i] * (1.0 + (1.0 - gg) * du / bq)) / (1.0 + du))
    E.claim("numbers used are those of the velocity", (np.abs(bq - b2) <= 1e-12) & (np.abs(gg - g) <= 1e-12))
    z = [g * u[i] + b[i] * (1 + (1 - g) * ub / b2) for i in range(3)]
    E.same("such a direction is a unit vector", z[0] * z[0] + z[1] * z[1] + z[2] * z[2], d * d)
    E.same("such a component along the motion is the relativistic sum", z[0] * b[0] + z[1] * b[1] + z[2] * b[2], ub + b2)
    E.same("the direction given is left alone", u, keep, exact=True)


def slow(E, u):
    """any velocity for a fixed direction"""
    np = E.np
    V = E.mod("stcal.velocity_aberration")
    b = [E.real(f"b{i}", lo=-0.25, hi=0.25) for i in range(3)]
    u = np.array(u)
    s, w = V.compute_va_effects_vector(b[0] * C, b[1] * C, b[2] * C, u)
    b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]
    ub = sum(float(u[i]) * b[i] for i in range(3))
    if bool(b2 == 0):
        E.claim("no change without motion", s == 1.0)
        E.same("no change without motion (direction)", w, u, exact=True)
        return
    g = np.sqrt(1 - b2)
    E.same("scale is the Doppler factor", s, (1.0 + ub) / g)
    want = [(g * float(u[i]) + b[i] * (1.0 + (1.0 - g) * ub / b2)) / (1.0 + ub) for i in range(3)]
    E.same("apparent direction", w, E.arr(want))


def zero(E):
    np = E.np
    V = E.mod("stcal.velocity_aberration")
    u = E.floats("u", (3,), "f8", lo=-1, hi=1)
    s, w = V.compute_va_effects_vector(0.0, 0, 0.0, u)
    E.claim("scale one", s == 1.0)
    E.same("direction as it is", w, u, exact=True)


class ToXyz:
    def __call__(self, lon, lat):
        from symx import npproxy

        np = npproxy.NP
        lon, lat = np.deg2rad(lon), np.deg2rad(lat)
        return np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)


class ToSky:
    def __call__(self, x, y, z):
        from symx import npproxy

        np = npproxy.NP
        return np.rad2deg(np.arctan2(y, x)) % 360, np.rad2deg(np.arctan2(z, np.hypot(x, y)))


def shims():
    m = types.ModuleType("gwcs.geometry")
    m.SphericalToCartesian, m.CartesianToSpherical = ToXyz, ToSky
    return {"gwcs.geometry": m}


def sky(E, beta):
    """positions on the sky"""
    np = E.np
    V = E.mod("stcal.velocity_aberration")
    lon = E.real("ra", lo=0, hi=360)
    lat = E.real("dec", lo=-89, hi=89)
    v = [float(q) * C for q in beta]
    a, b = np.deg2rad(lon), np.deg2rad(lat)
    u = E.arr([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])
    s0, w = V.compute_va_effects_vector(*v, u)
    s, ra, dec = V.compute_va_effects(*v, lon, lat)
    E.same("scale", s, s0)
    E.same("apparent longitude", ra, np.rad2deg(np.arctan2(w[1], w[0])) % 360, rtol=1e-9)
    E.same("apparent latitude", dec, np.rad2deg(np.arctan2(w[2], np.hypot(w[0], w[1]))), rtol=1e-9)


S = shims()
CASES = [
    Case("across-x", vector, beta=("0.6", "0", "0"), query_ms=20000),
    Case("across-z", vector, beta=("0", "0", "-0.28"), query_ms=20000),
    Case("plane", vector, beta=("0.36", "0.48", "0"), query_ms=20000),
    Case("space", vector, beta=("0.2", "-0.4", "0.4"), query_ms=20000),
    Case("slow-x", slow, u=(1.0, 0.0, 0.0)),
    Case("slow-oblique", slow, u=(0.6, 0.0, -0.8)),
    Case("slow-space", slow, u=(2 / 3, -1 / 3, 2 / 3)),
    Case("zero", zero),
    Case("sky", sky, beta=("0.6", "0", "0"), shims=S),
    Case("sky-z", sky, beta=("0.00005", "-0.00007", "0.00004"), shims=S),
]
