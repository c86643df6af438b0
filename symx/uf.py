"""Abstraction of a routine by an uninterpreted function of its arguments (same arguments, same
value).  Only used where a separate obligation of the same check shows the real routine to be a
function of exactly these arguments; numeric evaluation uses the reference model."""
import numpy as np

from . import engine as E
from . import terms as tm
from .terms import T, INF

NUMERIC = {}


def lift_all(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += lift_all(x)
        elif isinstance(x, (E.SymComplex, complex)):
            z = E.SymComplex.lift(x)
            out += [E.lift(z.re), E.lift(z.im)]
        elif isinstance(x, str):
            continue
        else:
            out.append(E.lift(x))
    return out


def uf(name, ref=None, lo=-INF, hi=INF):
    """A symbolic stand-in for the routine `name`."""
    def f(*a):
        return uf_call(name, a, lo, hi)
    if ref is not None:
        register(name, ref)
    return f


_consts = {}


def const_rep(p):
    """Constants that differ by machine rounding only are one argument."""
    x = float(p.const())
    if x == 0:
        return p
    for y in (x, x * (1 - 3e-12), x * (1 + 3e-12)):
        q = _consts.get('%.11e' % y)
        if q is not None and abs(float(q.const()) - x) <= 1e-11 * abs(x):
            return q
    _consts['%.11e' % x] = p
    return p


def uf_call(name, args, lo=-INF, hi=INF):
    a = tuple(const_rep(x) if x.is_const() else E.CUR.rep(x) for x in lift_all(args))
    return E.mk(tm.atom_poly(T.get('uf', name, a, lo, hi)))


def register(name, ref):
    def vec(*xs):
        n = len(xs[0])
        out = np.full(n, np.nan)
        cols = list(zip(*xs))
        for i, row in enumerate(cols):
            try:
                out[i] = ref(*row)
            except Exception:
                pass
        return out
    NUMERIC[name] = vec
