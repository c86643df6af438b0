"""Symbolic real terms: polynomials with rational coefficients over interned atoms.

An atom is an input variable, a named sub-term (`let`, used for denominators and to stop
expansion), or an application of a function (exp, log, sqrt, an abstracted routine, ...).
Exponents of atoms may be negative (division by something known to be non-zero).
Everything here is pure bookkeeping: no property is decided in this module.
"""
from fractions import Fraction
import math
import numpy as np

INF = float('inf')


# ------------------------------------------------------------------ constants
_snap_cache = {}


def snap(x):
    """Rational value of a Python number; doubles are snapped to the simplest rational within
    a relative 2e-15, so 0.1+0.2 and 0.3 are the same constant."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x != x or x in (INF, -INF):
        raise DomainError('non-finite constant')
    s = repr(x)
    digits = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 12:
        r = Fraction(s)
    else:
        f = Fraction(x)
        tol = abs(f) * Fraction(2, 10**15)
        a, b = f.numerator, f.denominator
        h0, h1, k0, k1 = 0, 1, 1, 0
        r = f
        while b:
            q = a // b
            a, b = b, a - q * b
            h0, h1 = h1, q * h1 + h0
            k0, k1 = k1, q * k1 + k0
            if k1 and abs(Fraction(h1, k1) - f) <= tol:
                r = Fraction(h1, k1)
                break
    _snap_cache[x] = r
    return r


class DomainError(ArithmeticError):
    """The code left the real domain (log/root of a bad argument, division by zero, ...)."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'num', 'meta')


class Table:
    """All atoms of this process, interned."""
    def __init__(self):
        self.atoms = []
        self.index = {}

    def get(self, kind, name, args=(), lo=-INF, hi=INF, meta=None):
        key = (kind, name, tuple(a.key for a in args))
        i = self.index.get(key)
        if i is not None:
            return i
        at = Atom()
        at.id = len(self.atoms)
        at.kind, at.name, at.args = kind, name, tuple(args)
        at.lo, at.hi = lo, hi
        at.num = None
        at.meta = meta
        self.atoms.append(at)
        self.index[key] = at.id
        return at.id


T = Table()


def atom_interval(i):
    """Static (sound up to float rounding, padded) range of an atom."""
    a = T.atoms[i]
    if a.kind == 'var':
        return a.lo, a.hi
    if a.num is not None:
        return a.num
    lo, hi = -INF, INF
    k, n = a.kind, a.name
    if k == 'let':
        lo, hi = a.args[0].interval()
    elif k == 'fn':
        if n == 'exp':
            l, h = a.args[0].interval()
            lo = math.exp(l) if -700 < l < 700 else (0.0 if l < 0 else math.exp(700))
            hi = math.exp(h) if -700 < h < 700 else (INF if h > 0 else math.exp(-700))
        elif n == 'log':
            l, h = a.args[0].interval()
            lo = math.log(l) if l > 0 and l < INF else -INF
            hi = math.log(h) if 0 < h < INF else INF
        elif n == 'root':
            l, h = a.args[0].interval()
            p = 1.0 / a.meta
            lo = max(l, 0.0) ** p
            hi = h ** p if 0 <= h < INF else (INF if h > 0 else 0.0)
        elif n in ('sin', 'cos', 'tanh'):
            lo, hi = -1.0, 1.0
        elif n in ('max', 'min'):
            (l1, h1), (l2, h2) = a.args[0].interval(), a.args[1].interval()
            f = max if n == 'max' else min
            lo, hi = f(l1, l2), f(h1, h2)
        elif n == 'csqrt_re':
            lo, hi = 0.0, INF
        elif n in ('floor', 'round'):
            l, h = a.args[0].interval()
            lo, hi = l - 1, h + 1
        elif n == 'erf' or n == 'erfc':
            lo, hi = -1.0, 2.0
    elif k == 'uf':
        lo, hi = a.lo, a.hi
    if lo not in (INF, -INF, 0.0):
        lo -= 1e-12 * abs(lo)
    if hi not in (INF, -INF, 0.0):
        hi += 1e-12 * abs(hi)
    a.num = (lo, hi)
    return lo, hi


def _imul(a, b):
    c = []
    for x in a:
        for y in b:
            c.append(0.0 if (x == 0 or y == 0) else x * y)
    return min(c), max(c)


def _ipow(iv, e):
    lo, hi = iv
    if e < 0:
        if lo > 0 or hi < 0:
            l = 0.0 if hi in (INF, -INF) else 1.0 / hi
            h = 0.0 if lo in (INF, -INF) else 1.0 / lo
            if l != 0.0:
                l -= 1e-13 * abs(l)
            if h != 0.0:
                h += 1e-13 * abs(h)
            return _ipow((l, h), -e)
        if lo == 0:
            return (0.0 if hi == INF else 1.0 / hi ** (-e), INF)
        return (0.0, INF) if e % 2 == 0 else (-INF, INF)

    def pw(v):
        try:
            return v ** e
        except OverflowError:
            return INF if (v > 0 or e % 2 == 0) else -INF
    if e % 2:
        return pw(lo), pw(hi)
    if lo >= 0:
        return pw(lo), pw(hi)
    if hi <= 0:
        return pw(hi), pw(lo)
    return 0.0, max(pw(lo), pw(hi))


MAXTERMS = 24


class Poly:
    """Immutable polynomial: dict monomial -> Fraction; monomial = ((atom, exp), ...) sorted."""
    __slots__ = ('t', '_key', '_iv')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._iv = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def interval(self):
        if self._iv is None:
            lo = hi = 0.0
            for m, c in self.t.items():
                iv = (1.0, 1.0)
                for a, e in m:
                    iv = _imul(iv, _ipow(atom_interval(a), e))
                l, h = _imul(iv, (float(c), float(c)))
                lo += l
                hi += h
            if len(self.t) > 1:
                if lo not in (INF, -INF):
                    lo -= 1e-13 * abs(lo)
                if hi not in (INF, -INF):
                    hi += 1e-13 * abs(hi)
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            self._iv = (lo, hi)
        return self._iv

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    # -- arithmetic
    def add(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        a, b = self, o
        if len(a.t) * len(b.t) > MAXTERMS:
            if len(a.t) >= len(b.t):
                a = let(a)
            else:
                b = let(b)
            if len(a.t) * len(b.t) > MAXTERMS:
                if len(a.t) > 1:
                    a = let(a)
                if len(b.t) > 1:
                    b = let(b)
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m, extra = mono_mul(m1, m2)
                c = c1 * c2
                if extra is None:
                    v = t.get(m, 0) + c
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
                else:
                    p = Poly({m: c})
                    for ex, n in extra:
                        for _ in range(n):
                            p = p.mul(ex)
                    for m3, c3 in p.t.items():
                        v = t.get(m3, 0) + c3
                        if v:
                            t[m3] = v
                        else:
                            t.pop(m3, None)
        return Poly(t)

    def powi(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return inv(self).powi(-n)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            ex = []
            m2 = norm_mono({a: e * n for a, e in m}, ex)
            p = Poly({m2: c ** n})
            for q, k in ex:
                p = p.mul(q.powi(k))
            return p
        if n >= 4:
            return let(self).powi(n)
        r = ONE
        for _ in range(n):
            r = r.mul(self)
        return r

    def __repr__(self):
        return show(self)


def norm_mono(d, extra):
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        at = T.atoms[a]
        if at.kind == 'fn' and at.name == 'root' and abs(e) >= at.meta:
            k, r = divmod(abs(e), at.meta)
            if e > 0:
                extra.append((at.args[0], k))
                if r:
                    out.append((a, r))
            else:
                extra.append((inv(at.args[0]), k))
                if r:
                    out.append((a, -r))
        else:
            out.append((a, e))
    out.sort()
    return tuple(out)


def mono_mul(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    need = False
    for a, e in m2:
        v = d.get(a, 0) + e
        d[a] = v
        if v >= 2 or v <= -2:
            need = True
    if need:
        ex = []
        m = norm_mono(d, ex)
        return m, (ex or None)
    return tuple(sorted((a, e) for a, e in d.items() if e)), None


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def const(c):
    c = snap(c)
    return Poly({(): c}) if c else ZERO


def atom_poly(i):
    return Poly({((i, 1),): Fraction(1)})


def var(name, lo=-INF, hi=INF, meta=None):
    return atom_poly(T.get('var', name, (), lo, hi, meta))


def lead(p):
    """Leading coefficient of the non-constant part in a canonical order."""
    m = min(k for k in p.t if k != ())
    return p.t[m]


def let(p):
    if len(p.t) <= 1:
        return p
    k = lead(p)
    q = p.scale(1 / k)
    return atom_poly(T.get('let', '', (q,))).scale(k)


def inv(p):
    """1/p ; the caller has established p != 0."""
    if p.is_const():
        if not p.const():
            raise DomainError('division by zero')
        return const(1 / p.const())
    if len(p.t) == 1:
        (m, c), = p.t.items()
        ex = []
        m2 = norm_mono({a: -e for a, e in m}, ex)
        r = Poly({m2: 1 / c})
        for q, k in ex:
            r = r.mul(q.powi(k))
        return r
    k = lead(p)
    q = p.scale(1 / k)
    i = T.get('let', '', (q,))
    return Poly({((i, -1),): 1 / k})


def fn(name, *args, meta=None):
    return atom_poly(T.get('fn', name, args, meta=meta))


def root(p, k):
    if p.is_const():
        return const(float(p.const()) ** (1.0 / k))
    i = T.get('fn', 'root', (p, const(k)), meta=k)
    return atom_poly(i)


def show(p, depth=3):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items())[:12]:
        s = '%.6g' % float(c)
        for a, e in m:
            at = T.atoms[a]
            if at.kind == 'var':
                n = at.name
            elif depth <= 0:
                n = '%s#%d' % (at.name or 'let', a)
            else:
                n = '%s(%s)' % (at.name or '', ', '.join(show(x, depth - 1) for x in at.args))
            s += '*' + n + ('^%d' % e if e != 1 else '')
        out.append(s)
    if len(p.t) > 12:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


# ------------------------------------------------------------------ numeric evaluation
class NumEnv:
    """Vectorised numeric evaluation of terms on a pool of concrete inputs."""
    def __init__(self, env, n, ufs=None):
        self.env = env      # var name -> np array
        self.n = n
        self.cache = {}
        self.ufs = ufs or {}

    def atom(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        a = T.atoms[i]
        with np.errstate(all='ignore'):
            if a.kind == 'var':
                r = self.env.get(a.name)
                if r is None:
                    r = np.full(self.n, np.nan)
            elif a.kind == 'let':
                r = self.poly(a.args[0])
            else:
                xs = [self.poly(x) for x in a.args]
                n = a.name
                if n == 'exp':
                    r = np.exp(xs[0])
                elif n == 'log':
                    r = np.where(xs[0] > 0, np.log(np.where(xs[0] > 0, xs[0], 1)), np.nan)
                elif n == 'root':
                    r = np.where(xs[0] >= 0, np.abs(xs[0]) ** (1.0 / a.meta), np.nan)
                elif n == 'sin':
                    r = np.sin(xs[0])
                elif n == 'cos':
                    r = np.cos(xs[0])
                elif n == 'tanh':
                    r = np.tanh(xs[0])
                elif n == 'max':
                    r = np.maximum(xs[0], xs[1])
                elif n == 'min':
                    r = np.minimum(xs[0], xs[1])
                elif n == 'csqrt_re':
                    r = np.sqrt(xs[0] + 1j * xs[1]).real
                elif n == 'csqrt_im':
                    r = np.sqrt(xs[0] + 1j * xs[1]).imag
                elif n == 'floor':
                    r = np.floor(xs[0])
                elif n == 'round':
                    r = np.round(xs[0], a.meta)
                elif n in ('atan', 'asin', 'acos', 'atan2'):
                    r = getattr(np, 'arc' + n[1:])(*xs)
                elif n in ('erf', 'erfc'):
                    r = np.array([getattr(math, n)(v) for v in xs[0]])
                elif n in UFNUM():
                    r = UFNUM()[n](*xs)
                elif n in self.ufs:
                    r = self.ufs[n](*xs)
                else:
                    # abstracted routine: an arbitrary but fixed smooth function of its arguments
                    h = np.zeros(self.n)
                    for k, x in enumerate(xs):
                        h = h + np.sin(np.log1p(np.abs(x)) * (k + 1.37) + np.sign(x))
                    seed = sum(ord(c) * (j + 1) for j, c in enumerate(n)) % 97
                    u = 0.5 + 0.5 * np.sin(h * 3.1 + seed)
                    lo, hi = a.lo, a.hi
                    lo = -50.0 if lo == -INF else lo
                    hi = lo + 120.0 if hi == INF else hi
                    r = lo + (hi - lo) * u
        self.cache[i] = r
        return r

    def poly(self, p):
        s = np.zeros(self.n)
        with np.errstate(all='ignore'):
            for m, c in p.t.items():
                v = float(c)
                for a, e in m:
                    v = v * self.atom(a) ** e if e != 1 else v * self.atom(a)
                s = s + v
        return s


def UFNUM():
    from .uf import NUMERIC
    return NUMERIC
