"""Generic mathematics: the same function works on machine floats and on symbolic reals.
Used by the reference models, and (through the shims) by the code under test."""
import math
import cmath

try:
    from . import engine as E
    HAVE = True
except ImportError:          # concrete replay interpreter has no solver
    HAVE = False


def _s(x):
    return HAVE and isinstance(x, (E.Sym, E.SymComplex))


def exp(x):
    return E.exp_(x) if _s(x) else math.exp(x)


def log(x):
    return E.log_(x) if _s(x) else math.log(x)


def sqrt(x):
    return E.root_(x, 2) if _s(x) else math.sqrt(x)


def sin(x):
    return E.sin_(x) if _s(x) else math.sin(x)


def cos(x):
    return E.cos_(x) if _s(x) else math.cos(x)


def rpow(x, n, d):
    """x ** (n/d) for x >= 0"""
    if _s(x):
        from fractions import Fraction
        return E.pow_(x, Fraction(n, d))
    return x ** (n / d)


def csqrt(re, im):
    """Principal square root of re + i*im, as a pair."""
    if _s(re) or _s(im):
        z = E.csqrt_(E.SymComplex(re, im))
        return z.re, z.im
    z = cmath.sqrt(complex(re, im))
    return z.real, z.imag


def floor(x):
    """Largest integer <= x, as a number usable as an index."""
    if _s(x):
        r = E.floor_(x)
        return r.concretise() if isinstance(r, E.Sym) else int(r)
    return math.floor(x)


def trunc(x):
    if _s(x):
        r = E.trunc_int(x)
        return r.concretise() if isinstance(r, E.Sym) else int(r)
    return int(x)


def rnd(x, n):
    if _s(x):
        return E.round_(x, n)
    return round(x, n)


def mx(*a):
    r = a[0]
    for x in a[1:]:
        if _s(r) or _s(x):
            r = E.extremum(r, x, 'max')
        elif x > r:
            r = x
    return r


def mn(*a):
    r = a[0]
    for x in a[1:]:
        if _s(r) or _s(x):
            r = E.extremum(r, x, 'min')
        elif x < r:
            r = x
    return r


def ab(x):
    return abs(x)
