"""Exact specification tables -> the library's orthonormal (L+1)x(2L+1) arrays."""
import math
from fractions import Fraction
import numpy as np

FOURPI = 4 * math.pi


def frac(n, d):
    """n/d for big integers as a correctly rounded float"""
    return float(Fraction(n, d)) if n else 0.0


def nin(l, m): return math.sqrt((2 * l + 1) / FOURPI * math.factorial(l - m) * math.factorial(l + m))
def nout(l, m): return math.sqrt((2 * l + 1) / FOURPI / (math.factorial(l - m) * math.factorial(l + m)))


def inner_table(L, T, scale, mden=1):
    """T table (2^l l! R, positions over `scale`) -> q_lm"""
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l in range(L + 1):
        d = 2 ** l * math.factorial(l) * scale ** l * mden
        for m in range(-l, l + 1):
            c = T[l * l + l + m]
            n = nin(l, m)
            q[l, L + m] = complex(frac(c["re"], d) * n, frac(c["im"], d) * n)
    return q


def inner_qt(L, qt):
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            c = qt["n"][l * l + l + m]; n = nin(l, m)
            q[l, L + m] = complex(frac(c["re"], qt["d"]) * n, frac(c["im"], qt["d"]) * n)
    return q


def outer_qt(L, qt):
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            c = qt["n"][l * l + l + m]; n = nout(l, m)
            q[l, L + m] = complex(frac(c["re"], qt["d"]) * n, frac(c["im"], qt["d"]) * n)
    return q


def inner_scale(L, masses, radius):
    """magnitude of the terms that make up degree l: the natural unit for tolerances"""
    M = sum(abs(x) for x in masses) or 1.0
    return np.array([[max(M, 1e-300) * max(radius, 1e-12) ** l * math.sqrt((2 * l + 1) / FOURPI)] for l in range(L + 1)]) * np.ones((1, 2 * L + 1))


# the specification is unit-free: (unit of mass, unit of length) a behaviour is replayed in
UNITS = [(1., 1.), (1e-3, 1e-3), (1., 1.), (1e-9, 1e-2), (1., 1e-9), (4e6, 1e2), (1e-15, 1e-4), (1., 1.), (1e-3, 1e6)]


def units(ti): return UNITS[ti % len(UNITS)]


def gauge(q, un, kind="inner"):
    """a table of the specification's units in the units of the replay"""
    L = len(q) - 1; mu, ell = un
    return q * np.array([[mu * (ell ** l if kind == "inner" else ell ** -(l + 1))] for l in range(L + 1)])


def arr(pts, scale, un=(1., 1.)):
    return np.array([[float(p["m"]), frac(p["x"], scale), frac(p["y"], scale), frac(p["z"], scale)] for p in pts]) * np.array([un[0], un[1], un[1], un[1]])


def vec(v, den=1): return np.array([v["x"] / den, v["y"] / den, v["z"] / den], dtype=float)


def angle(a, turns=0): return math.atan2(a["s"], a["c"]) + 2 * math.pi * turns


def rad(pts, scale):
    return max(math.sqrt(frac(p["x"], scale) ** 2 + frac(p["y"], scale) ** 2 + frac(p["z"], scale) ** 2) for p in pts)


def imp(name):
    import importlib
    return importlib.import_module(name)
