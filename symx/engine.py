"""Path-by-path symbolic execution of real Python code by operator overloading.

The code under test runs in CPython unchanged; its inputs are `Sym` objects.  Every branch on a
symbolic condition is decided by the engine: both sides are explored (by re-execution) unless
the SMT solver shows one of them infeasible.
"""
import math
import time
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import Poly, DomainError, INF, const, snap, ZERO, ONE, T, NumEnv

CUR = None      # the engine running right now


class PathEnd(BaseException):
    """Ends the current path (infeasible, assumption false, outside the stated bounds)."""


class EngineLimit(BaseException):
    """A stated bound of the exploration was hit: the result is inconclusive."""


def is_sym(x):
    return isinstance(x, (Sym, SymComplex))


def lift(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, (SymBool, Unknown)):
        return const(1 if bool(x) else 0)
    if isinstance(x, (bool, int, float, Fraction, np.integer, np.floating, np.bool_)):
        return const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError('cannot use %r as a real number' % (type(x),))


def mk(p):
    return Sym(p)


def norm_cond(p):
    """p <op> 0  ->  (m, v, flip): m has no constant term and leading coefficient 1."""
    k = tm.lead(p)
    m = p.scale(1 / k)
    v = -m.const()
    if v:
        t = dict(m.t)
        t.pop((), None)
        m = Poly(t)
    return m, v, k < 0


FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def holds(c, op):
    return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]


class Unknown:
    pass


class SymBool:
    __slots__ = ('p', 'op', '_v')

    def __init__(self, p, op):
        self.p, self.op, self._v = p, op, None

    def __bool__(self):
        if self._v is None:
            self._v = CUR.decide(self.p, self.op)
        return self._v

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) != bool(o)

    def __invert__(self):
        return not bool(self)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def any(self):
        return bool(self)
    all = any

    def neg(self):
        return SymBool(self.p, NEG[self.op])


def unbounded(x):
    """x is a concrete infinity (a sentinel in a search or a table of limits)"""
    return isinstance(x, (float, np.floating)) and x in (INF, -INF)


def cmp(a, b, op):
    if unbounded(a) or unbounded(b):    # every symbolic real is finite
        x = float(a) if unbounded(a) else 0.0
        y = float(b) if unbounded(b) else 0.0
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    p = lift(a).sub(lift(b))
    if p.is_const():
        return holds(p.const(), op)
    return SymBool(p, op)


def _other(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (bool, int, float, Fraction, np.integer, np.floating, np.bool_, SymBool)):
        return o
    return None


class Sym:
    """A symbolic real number."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # arithmetic -------------------------------------------------------
    def _bin(self, o, f):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return NotImplemented
        if isinstance(o, np.ndarray):
            return NotImplemented
        if _other(o) is None:
            return NotImplemented
        return mk(f(self.p, lift(o)))

    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) + o
        if unbounded(o):
            return float(o)
        return self._bin(o, Poly.add)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) - o
        if unbounded(o):
            return -float(o)
        return self._bin(o, Poly.sub)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex.lift(o) - SymComplex(self, 0)
        if unbounded(o):
            return float(o)
        return self._bin(o, lambda a, b: b.sub(a))

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) * o
        return self._bin(o, Poly.mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) / o
        if _other(o) is None:
            return NotImplemented
        return mk(self.p.mul(recip(lift(o))))

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex.lift(o) / SymComplex(self, 0)
        if _other(o) is None:
            return NotImplemented
        return mk(lift(o).mul(recip(self.p)))

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        return self - floor_(self / o) * o

    def __neg__(self):
        return mk(self.p.neg())

    def __pos__(self):
        return self

    def __abs__(self):
        return extremum(self, -self, 'max')

    def __pow__(self, e, mod=None):
        return pow_(self, e)

    def __rpow__(self, b):
        return pow_(b, self)

    # comparisons ------------------------------------------------------
    def __lt__(self, o):
        return NotImplemented if _other(o) is None else cmp(self, o, '<')

    def __le__(self, o):
        return NotImplemented if _other(o) is None else cmp(self, o, '<=')

    def __gt__(self, o):
        return NotImplemented if _other(o) is None else cmp(self, o, '>')

    def __ge__(self, o):
        return NotImplemented if _other(o) is None else cmp(self, o, '>=')

    def __eq__(self, o):
        return False if _other(o) is None else cmp(self, o, '==')

    def __ne__(self, o):
        return True if _other(o) is None else cmp(self, o, '!=')

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return bool(cmp(self, 0, '!='))

    # conversions ------------------------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def item(self):
        return self

    def concretise(self):
        """The integer value of this term, by case split."""
        return CUR.concretise(self.p)

    def __int__(self):
        return trunc_int(self).concretise() if isinstance(trunc_int(self), Sym) else trunc_int(self)

    def __index__(self):
        return self.concretise()

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __round__(self, n=None):
        return round_(self, n)

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const())
        raise TypeError('symbolic real cannot become a machine float')

    def is_integer(self):
        return bool(floor_(self) == self)

    # numpy object-array protocol
    def log(self):
        return log_(self)

    def exp(self):
        return exp_(self)

    def sqrt(self):
        return root_(self, 2)

    def sin(self):
        return sin_(self)

    def cos(self):
        return cos_(self)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def log10(self):
        return log_(self) / math.log(10)

    def log2(self):
        return log_(self) / math.log(2)

    def square(self):
        return self * self

    def cbrt(self):
        return cbrt_(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if TOKENS is not None:
            return token(self)
        return 'Sym(%s)' % tm.show(self.p, 1)
    __str__ = __repr__

    def __format__(self, spec):
        if TOKENS is not None:
            import re
            m = re.match(r'([<>^=]?\d*)(?:,?\.(\d+)f)?$', spec)
            if not m:
                raise TypeError('format %r of a symbolic number' % spec)
            return format(token(self if m.group(2) is None else round_(self, int(m.group(2)))), m.group(1) if m.group(1)[:1] not in ('=',) else '')
        return '<symbolic>'


# text that stands for symbolic numbers (None: numbers are only shown), while a check of a writer runs
TOKENS = None


def token(x):
    if not isinstance(x, Sym):
        return repr(x)
    t = 'num#%d#' % len(TOKENS)
    TOKENS[t] = x
    return t


def extremum(a, b, which):
    """max(a, b) or min(a, b): settled when the path knows the order, otherwise by a case split or,
    in merged mode, by a term of its own."""
    if not is_sym(a) and not is_sym(b):
        return max(a, b) if which == 'max' else min(a, b)
    for x, y in ((a, b), (b, a)):
        if unbounded(x):
            return x if (x > 0) == (which == 'max') else y
    pa, pb = lift(a), lift(b)
    d = pa.sub(pb)
    if d.is_const():
        return a if (d.const() >= 0) == (which == 'max') else b
    if not CUR.merge or (is_int_poly(pa) and is_int_poly(pb)):
        if which == 'max':
            return b if b > a else a
        return b if b < a else a
    r = CUR.order(d)
    if r is not None:
        return a if r == (which == 'max') else b
    return mk(ext_term(pa, pb, which))


def ext_leaves(p, which):
    """max(max(a, b), c) -> a, b, c"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and len(m) == 1 and m[0][1] == 1:
            at = T.atoms[m[0][0]]
            if at.kind == 'fn' and at.name == which:
                return [x.scale(c) for q in at.args for x in ext_leaves(q, which)]
    return [p]


def ext_term(pa, pb, which):
    """Arguments in one order and to one scale, however the code nests them."""
    leaves = {}
    for p in ext_leaves(pa, which) + ext_leaves(pb, which):
        p = CUR.rep(p)
        leaves[p.key] = p
    xs = list(leaves.values())
    if len(xs) == 1:
        return xs[0]
    shape = [(x.is_const(), x.key if x.is_const() else x.scale(1 / abs(tm.lead(x))).key, x) for x in xs]
    shape.sort(key=lambda s: s[:2])
    k = abs(tm.lead(shape[0][2]))
    r = None
    for s in shape:
        x = s[2] if k == 1 else CUR.rep(s[2].scale(1 / k))
        r = x if r is None else tm.fn(which, r, x)
    return r.scale(k)


def ext_many(xs, which):
    r = xs[0]
    for x in xs[1:]:
        r = extremum(r, x, which)
    return r


def known_nonzero(p):
    lo, hi = p.interval()
    return lo > 0 or hi < 0


def recip(p):
    if p.is_const():
        if not p.const():
            raise ZeroDivisionError('division by zero')
        return const(1 / p.const())
    if not known_nonzero(p) and CUR.decide(p, '=='):
        raise ZeroDivisionError('division by zero')
    return tm.inv(p)


def fna(name, *args):
    """A function application whose arguments are replaced by the first term known to be equal."""
    if CUR is not None:
        args = [CUR.rep(a) for a in args]
    return tm.fn(name, *args)


def exp_(x):
    if isinstance(x, (SymComplex, complex)):
        x = SymComplex.lift(x)
        e = exp_(x.re)
        return SymComplex(e * cos_(x.im), e * sin_(x.im))
    if not isinstance(x, Sym):
        return math.exp(x)
    if x.p.is_const():
        return math.exp(float(x.p.const()))
    return mk(fna('exp', x.p))


def log_(x):
    if not isinstance(x, Sym):
        if x <= 0:
            raise DomainError('log of a non-positive number')
        return math.log(x)
    if x.p.is_const():
        return log_(float(x.p.const()))
    lo, hi = x.p.interval()
    if not lo > 0 and not CUR.decide(x.p, '>'):
        raise DomainError('log of a non-positive number')
    return mk(fna('log', x.p))


def sin_(x):
    if not isinstance(x, Sym):
        return math.sin(x)
    if x.p.is_const():
        return math.sin(float(x.p.const()))
    return mk(fna('sin', x.p))


def cos_(x):
    if not isinstance(x, Sym):
        return math.cos(x)
    if x.p.is_const():
        return math.cos(float(x.p.const()))
    return mk(fna('cos', x.p))


def root_(x, k):
    if not isinstance(x, Sym):
        if x < 0:
            raise DomainError('even root of a negative number')
        return math.sqrt(x) if k == 2 else x ** (1.0 / k)
    if x.p.is_const():
        return root_(float(x.p.const()), k)
    lo, hi = x.p.interval()
    if not lo >= 0 and not CUR.decide(x.p, '>='):
        raise DomainError('root of a negative number')
    return mk(tm.root(CUR.rep(x.p) if CUR else x.p, k))


def cbrt_(x):
    if not isinstance(x, Sym):
        return math.cbrt(x)
    if x < 0:
        return -root_(-x, 3)
    return root_(x, 3)


def pow_(b, e):
    if isinstance(e, SymComplex) or isinstance(b, SymComplex):
        if isinstance(e, (int, float)) and float(e).is_integer():
            r = SymComplex(1, 0)
            for _ in range(abs(int(e))):
                r = r * b
            return r if e >= 0 else SymComplex(1, 0) / r
        if e == 0.5:
            return csqrt_(b)
        raise TypeError('unsupported complex power')
    if isinstance(e, Sym) and not e.p.is_const():
        return exp_(e * log_(b))
    ef = e.p.const() if isinstance(e, Sym) else snap(e)
    if not isinstance(b, Sym):
        return b ** float(ef)
    if ef.denominator == 1:
        n = int(ef)
        if n >= 0:
            return mk(b.p.powi(n))
        return mk(recip(b.p).powi(-n))
    if ef.denominator <= 12:
        r = root_(b, ef.denominator)
        return pow_(r, ef.numerator) if isinstance(r, Sym) else r ** ef.numerator
    return exp_(float(ef) * log_(b))


def floor_(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    if x.p.is_const():
        return math.floor(x.p.const())
    if is_int_poly(x.p):
        return x
    return mk(fna('floor', x.p))


def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            at = T.atoms[a]
            if e < 0 or not ((at.kind == 'fn' and at.name == 'floor')
                             or (at.kind == 'var' and at.meta == 'int')):
                return False
    return True


def trunc_int(x):
    """int(x): truncation toward zero."""
    if not isinstance(x, Sym):
        return int(x)
    if is_int_poly(x.p):
        return x
    if x >= 0:
        return floor_(x)
    return -floor_(-x)


def round_(x, n=None):
    if not isinstance(x, Sym):
        return round(x, n) if n is not None else round(x)
    if x.p.is_const():
        return round(float(x.p.const()), n) if n is not None else round(float(x.p.const()))
    if n is None and is_int_poly(x.p):
        return x
    k = n or 0
    if k == 0:
        # (an exact half is rounded up here, to even by Python: ties are outside the claim)
        return floor_(x + Fraction(1, 2))
    return mk(tm.fn('round', CUR.rep(x.p) if CUR else x.p, const(k), meta=k))


class SymComplex:
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    @staticmethod
    def lift(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(float(o.real), float(o.imag))
        if isinstance(o, Sym) or isinstance(o, (bool, int, float, np.integer, np.floating)):
            return SymComplex(o, 0)
        return None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    def __add__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else SymComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = SymComplex.lift(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.lift(o)
        if o is None:
            return NotImplemented
        if not is_sym(o.im) and o.im == 0:
            return SymComplex(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        return SymComplex((self.re * o.re + self.im * o.im) / d,
                          (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        o = SymComplex.lift(o)
        return NotImplemented if o is None else o / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, e):
        return pow_(self, e)

    def __abs__(self):
        if not is_sym(self.im) and self.im == 0:
            return abs(self.re)
        return sqrt_any(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = SymComplex.lift(o)
        return o is not None and bool(self.re == o.re) and bool(self.im == o.im)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self.re != 0) or bool(self.im != 0)

    def __complex__(self):
        raise TypeError('symbolic complex cannot become a machine complex')

    def sqrt(self):
        return csqrt_(self)

    def exp(self):
        return exp_(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymComplex(%r, %r)' % (self.re, self.im)


def sqrt_any(x):
    if isinstance(x, SymComplex):
        return csqrt_(x)
    if isinstance(x, Sym):
        return root_(x, 2)
    return math.sqrt(x)


def csqrt_(z):
    """Principal square root of a complex number."""
    z = SymComplex.lift(z)
    re, im = z.re, z.im
    if not is_sym(re) and not is_sym(im):
        import cmath
        r = cmath.sqrt(complex(re, im))
        return SymComplex(r.real, r.imag)
    rp, ip = lift(re), lift(im)
    if ip.is_const() and ip.const() == 0:
        x = mk(rp)
        if x >= 0:
            return SymComplex(root_(x, 2), 0)
        return SymComplex(0, root_(-x, 2))
    return SymComplex(mk(fna('csqrt_re', rp, ip)), mk(fna('csqrt_im', rp, ip)))


def simple(p):
    """A polynomial in input variables: already in canonical form."""
    for m in p.t:
        for a, e in m:
            if e < 0 or T.atoms[a].kind != 'var':
                return False
    return True


def same_poly(p, q):
    from . import canon
    d = canon.diff(p, q)
    if not d.t:
        return True
    r = canon.clear(d)
    if r is not None and not r.t:
        return True
    # log, exp and root laws, with what the ranges of the inputs give (not what a path knows)
    try:
        cache = {}
        d = canon.diff(canon.strong(p, None, cache), canon.strong(q, None, cache))
        if d.t:
            d = canon.clear(d)
        return d is not None and not d.t
    except (RecursionError, ArithmeticError):
        return False


# ---------------------------------------------------------------------- engine
class Engine:
    def __init__(self, solver, pool_env, pool_n, max_paths=20000, time_limit=None):
        self.solver = solver
        self.base_env = pool_env
        self.pool_n = self.n0 = pool_n
        self.num = NumEnv(pool_env, pool_n)
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit if time_limit else None
        self.paths = 0
        self.forks = 0
        self.feas_queries = 0
        self.feas_unknown = 0
        self.truncated = False
        self.merge = False
        self.pending = []        # solver models waiting to join the pool
        self.reps = {}           # numeric fingerprint -> known terms
        self.repof = {}
        self.repsgn = {}

    def rep(self, p):
        """A term met earlier in this obligation that equals p (numeric fingerprint to find it,
        exact algebra to confirm), or p itself."""
        if p.is_const() or simple(p):
            return p
        r = self.repof.get(p)
        if r is not None:
            return r
        x = self.num.poly(p)
        i = np.flatnonzero(np.isfinite(x) & (x != 0))
        if not len(i):
            return p
        i = i[:6]
        v = x[i]
        r = None
        for s in ('%d %.7e' % (i[0], v[0] * (1 - 2e-9)), '%d %.7e' % (i[0], v[0] * (1 + 2e-9))):
            for q, w in self.reps.get(s, ()):
                if w.shape == v.shape and np.allclose(v, w, rtol=1e-8, atol=0) and same_poly(p, q):
                    r = q
                    break
            if r is not None:
                break
        if r is None:
            r = p
            self.reps.setdefault('%d %.7e' % (i[0], v[0]), []).append((p, v))
        self.repof[p] = r
        return r

    def order(self, d):
        """True when the path knows d >= 0, False when it knows d <= 0, else None."""
        r = self.implied(*self.norm(d, '>='))
        if r is None:
            r = self.implied(*self.norm(d, '<='))
            r = None if r is None else not r
        if r is None and not simple(d):
            m, op, v = self.norm(d, '>=')
            q, k = self.rep_signed(m.sub(const(v)))
            if q is not None:
                if (op == '<=') != (k < 0):
                    q = q.neg()
                r = self.implied(*self.norm(q, '>='))
                if r is None:
                    r = self.implied(*self.norm(q, '<='))
                    r = None if r is None else not r
        return r

    def rep_signed(self, p):
        r = self.repsgn.get(p)
        if r is None:
            r = self.repsgn[p] = self._rep_signed(p)
        return r

    def _rep_signed(self, p):
        n = p.neg()
        if p not in self.repof and n in self.repof:
            return self.repof[n], -1
        q = self.rep(p)
        if q is not p and q != p:
            return q, 1
        x = self.num.poly(n)
        i = np.flatnonzero(np.isfinite(x) & (x != 0))[:1]
        if len(i):
            for s in ('%d %.7e' % (i[0], x[i[0]] * (1 - 2e-9)), '%d %.7e' % (i[0], x[i[0]] * (1 + 2e-9))):
                if s in self.reps:
                    q = self.rep(n)
                    if q != n:
                        return q, -1
        return None, 1

    # ---- exploration
    def explore(self, run):
        """run(engine) is executed once per feasible path."""
        global CUR
        stack = [[]]
        prev = CUR
        try:
            while stack:
                if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.truncated = True
                    return
                prefix = stack.pop()
                self.prefix = prefix
                self._grow()
                self.pos = 0
                self.taken = []
                self.todo = []
                self.done = set()
                self.pc = []             # list of (Poly m, op, Fraction v)
                self.iv = {}             # m -> [lo, lo_strict, hi, hi_strict, excluded]
                self.mask = np.ones(self.pool_n, dtype=bool)
                CUR = self
                done = False
                try:
                    run(self)
                    done = True
                except PathEnd:
                    pass
                if done:
                    self.paths += 1
                stack.extend(self.todo)
        finally:
            CUR = prev

    def _grow(self):
        """Solver models found on the way become numeric samples of the later paths."""
        if not self.pending:
            return
        k = len(self.pending)
        for n in self.base_env:
            a = self.base_env[n]
            med = float(a[0])
            self.base_env[n] = np.concatenate([a, [p.get(n, med) for p in self.pending]])
        self.pending = []
        self.pool_n += k
        self.num = NumEnv(self.base_env, self.pool_n, self.num.ufs)

    def _bounds(self, m):
        lo, hi = m.interval()
        ls = hs = False
        lo = -INF if lo == -INF else Fraction(lo)
        hi = INF if hi == INF else Fraction(hi)
        ex = ()
        e = self.iv.get(m)
        if e is not None:
            if e[0] > lo or (e[0] == lo and e[1]):
                lo, ls = e[0], e[1]
            if e[2] < hi or (e[2] == hi and e[3]):
                hi, hs = e[2], e[3]
            ex = e[4]
            if lo in ex:
                ls = True
            if hi in ex:
                hs = True
        return lo, ls, hi, hs, ex

    def implied(self, m, op, v):
        """True / False / None from interval knowledge alone."""
        lo, ls, hi, hs, ex = self._bounds(m)
        if op == '<':
            if hi < v or (hi == v and hs):
                return True
            if lo >= v:
                return False
        elif op == '<=':
            if hi <= v:
                return True
            if lo > v or (lo == v and ls):
                return False
        elif op == '>':
            if lo > v or (lo == v and ls):
                return True
            if hi <= v:
                return False
        elif op == '>=':
            if lo >= v:
                return True
            if hi < v or (hi == v and hs):
                return False
        elif op in ('==', '!='):
            r = None
            if lo > v or hi < v or (lo == v and ls) or (hi == v and hs) or v in ex:
                r = False
            elif lo == hi == v:
                r = True
            if r is not None:
                return r if op == '==' else not r
        return None

    def _assert(self, m, op, v):
        e = self.iv.get(m)
        if e is None:
            e = [-INF, False, INF, False, ()]
            self.iv[m] = e
        if op in ('<', '<=', '=='):
            s = op == '<'
            if v < e[2] or (v == e[2] and s):
                e[2], e[3] = v, s
        if op in ('>', '>=', '=='):
            s = op == '>'
            if v > e[0] or (v == e[0] and s):
                e[0], e[1] = v, s
        if op == '!=':
            e[4] = e[4] + (v,)
        # tighten a bound that is excluded
        if v in e[4]:
            if e[0] == v:
                e[1] = True
            if e[2] == v:
                e[3] = True
        self.pc.append((m, op, v))
        self.mask = self.mask & self._nmask(m, op, v)

    def _nmask(self, m, op, v):
        x = self.num.poly(m)
        v = float(v)
        with np.errstate(all='ignore'):
            if op == '<':
                return x < v
            if op == '<=':
                return x <= v
            if op == '>':
                return x > v
            if op == '>=':
                return x >= v
            if op == '==':
                return np.abs(x - v) <= 1e-12 * max(1.0, abs(v))
            return x != v

    @staticmethod
    def norm(p, op):
        if () not in p.t and len(p.t) > 1:
            from .canon import common
            g = common(p)
            if g:
                g = tuple((a, e) for a, e in g if tm.atom_interval(a)[0] > 0)
                if g:
                    p = p.mul(tm.inv(Poly({g: Fraction(1)})))
        elif len(p.t) == 1:
            (g, c), = p.t.items()
            h = tuple((a, e) for a, e in g if not tm.atom_interval(a)[0] > 0)
            if h and h != g:
                p = Poly({h: c})
        # integer-valued terms: floor(x) >= k  <=>  x >= k   (k integer)
        m, v, flip = norm_cond(p)
        if flip:
            op = FLIP[op]
        if len(m.t) == 1:
            (mono, c), = m.t.items()
            if len(mono) == 1 and mono[0][1] == 1:
                at = T.atoms[mono[0][0]]
                if at.kind == 'fn' and at.name == 'floor' and op in ('<', '<=', '>', '>='):
                    if op == '<':       # f < v  <=> f < ceil(v) <=> x < ceil(v)
                        k = math.ceil(v)
                        return Engine.norm(at.args[0].sub(const(k)), '<')
                    if op == '<=':
                        k = math.floor(v) + 1
                        return Engine.norm(at.args[0].sub(const(k)), '<')
                    if op == '>=':
                        k = math.ceil(v)
                        return Engine.norm(at.args[0].sub(const(k)), '>=')
                    k = math.floor(v) + 1
                    return Engine.norm(at.args[0].sub(const(k)), '>=')
        return m, op, v

    def settle(self, p, op):
        """Resolve merged max/min terms in p and in the path condition by what the path knows now."""
        from .canon import resolve, has_ext
        cache = {}
        for m, o, v in list(self.pc):
            if m not in self.done and any(has_ext(a) for a in m.atoms()):
                q = resolve(m, self, cache)
                if q != m:
                    self.done.add(m)
                    d = q.sub(const(v))
                    if not d.is_const():
                        d = self.rep(d)
                        self._assert(*self.norm(d, o))
        q = resolve(p, self, cache)
        if q.is_const():
            return holds(q.const(), op)
        r = self.implied(*self.norm(q, op))
        if r is not None:
            return r
        return (q, op) if q != p else None

    def decide(self, p, op):
        op0 = op
        if p.is_const():
            return holds(p.const(), op)
        m, op, v = self.norm(p, op)
        r = self.implied(m, op, v)
        if r is not None:
            return r
        if self.merge and not simple(m):
            r = self.settle(p, op0)
            if r in (True, False):
                return r
            if r is not None:
                p, op = r
                m, op, v = self.norm(p, op)
        if not simple(m):
            q, k = self.rep_signed(m.sub(const(v)))
            if q is not None:
                m, op, v = self.norm(q, FLIP[op] if k < 0 else op)
                r = self.implied(m, op, v)
                if r is not None:
                    return r
        if len(m.t) == 1:
            (mono, c), = m.t.items()
            if len(mono) == 1 and mono[0][1] == 1:
                at = T.atoms[mono[0][0]]
                if at.kind == 'fn' and at.name == 'floor' and op in ('==', '!='):
                    if v.denominator != 1:
                        return op == '!='
                    x = at.args[0]
                    eq = self.decide(x.sub(const(v)), '>=') and self.decide(x.sub(const(v + 1)), '<')
                    return eq if op == '==' else not eq
        key = (m, op, v)
        if self.pos < len(self.prefix):
            val, k = self.prefix[self.pos]
            if k != key:
                raise EngineLimit('branch order is not reproducible')
        else:
            mt = self._nmask(m, op, v)
            ft = bool((self.mask & mt).any())
            ff = bool((self.mask & ~mt & np.isfinite(self.num.poly(m))).any())
            if not ft:
                ft = self.feasible((m, op, v))
            if not ff:
                ff = self.feasible((m, NEG[op], v))
            if ft and ff:
                val = True
                self.todo.append(self.taken + [(False, key)])
                self.forks += 1
            elif ft:
                val = True
            elif ff:
                val = False
            else:
                raise PathEnd()
        self.pos += 1
        self.taken.append((val, key))
        self._assert(m, op if val else NEG[op], v)
        return val

    def feasible(self, extra):
        self.feas_queries += 1
        mine = extra[0].atoms()
        near = [c for c in self.pc if c[0].atoms() <= mine]
        if near and len(near) < len(self.pc) and self.solver.check(near + [extra], quick=True) == 'unsat':
            return False
        plain = [c for c in self.pc if simple(c[0])]
        if len(near) < len(plain) < len(self.pc) and self.solver.check(plain + [extra], quick=True) == 'unsat':
            return False
        self.solver.last_model = None
        r = self.solver.check(self.pc + [extra], quick=True, model=True)
        if r == 'sat' and self.solver.last_model:
            self.pending.append(self.solver.last_model)
        if r == 'unknown':
            self.feas_unknown += 1
        return r != 'unsat'

    def assume(self, c):
        """Restrict the domain (part of the claim)."""
        if isinstance(c, SymBool):
            if c._v is True:
                return
            m, op, v = None, None, None
            if c.p.is_const():
                if not holds(c.p.const(), c.op):
                    raise PathEnd()
                return
            m, op, v = self.norm(c.p, c.op)
            r = self.implied(m, op, v)
            if r is False:
                raise PathEnd()
            if r is None:
                self._assert(m, op, v)
        elif not c:
            raise PathEnd()

    def concretise(self, p):
        if p.is_const():
            c = p.const()
            if c.denominator != 1:
                raise TypeError('index is not an integer')
            return int(c)
        if not is_int_poly(p):
            raise TypeError("'Sym' object cannot be interpreted as an integer")
        # guess from the pool, then enumerate outward within the known bounds
        for _ in range(400):
            lo, ls, hi, hs, ex = self._pb(p)
            if lo == hi:
                return int(lo)
            # (only the initial samples: the guess must be the same whenever this prefix is run again)
            x = self.num.poly(p)[:self.n0]
            g = x[self.mask[:self.n0] & np.isfinite(x)]
            if lo != -INF and hi != INF and hi - lo < 12:
                g = ()
            k = int(round(float(np.median(g)))) if len(g) else None
            if k is None or k < lo or k > hi:
                if lo != -INF:
                    k = math.ceil(lo)
                elif hi != INF:
                    k = math.floor(hi)
                else:
                    k = 0
            if self.decide(p.sub(const(k)), '=='):
                return k
            # excluded: narrow by comparing
            self.decide(p.sub(const(k)), '<')
        raise EngineLimit('integer case split too wide')

    def _pb(self, p):
        if p.t:
            m, v, flip = norm_cond(p)
            k = tm.lead(p)
            mono, c = next(iter(m.t.items())) if len(m.t) == 1 else ((), 1)
            at = T.atoms[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else None
            if at is not None and at.kind == 'fn' and at.name == 'floor' and not at.args[0].is_const():
                m2, v2, _ = norm_cond(at.args[0])
                k2 = tm.lead(at.args[0])
                lo, ls, hi, hs, _ = self._bounds(m2)
                # x = k2*(m2 - v2)
                a = k2 * (lo - v2) if lo not in (INF, -INF) else (-INF if k2 > 0 else INF)
                b = k2 * (hi - v2) if hi not in (INF, -INF) else (INF if k2 > 0 else -INF)
                if k2 < 0:
                    a, b, ls, hs = b, a, hs, ls
                flo = math.floor(a) if a not in (INF, -INF) else a
                fhi = b
                if b not in (INF, -INF):
                    fhi = math.floor(b)
                    if hs and fhi == b:
                        fhi -= 1
                lo2 = k * (flo - v) if flo not in (INF, -INF) else (flo if k > 0 else -flo)
                hi2 = k * (fhi - v) if fhi not in (INF, -INF) else (fhi if k > 0 else -fhi)
                if k < 0:
                    lo2, hi2 = hi2, lo2
                return lo2, False, hi2, False, ()
            lo, ls, hi, hs, ex = self._bounds(m)
            a = k * (lo - v) if lo not in (INF, -INF) else (lo if k > 0 else -lo)
            b = k * (hi - v) if hi not in (INF, -INF) else (hi if k > 0 else -hi)
            if k < 0:
                a, b, ls, hs = b, a, hs, ls
            if a not in (INF, -INF):
                f = math.ceil(a)
                a = f + 1 if (f == a and ls) else f
            if b not in (INF, -INF):
                f = math.floor(b)
                b = f - 1 if (f == b and hs) else f
            return a, False, b, False, ()
        lo, hi = p.interval()
        return (Fraction(math.ceil(lo)) if lo != -INF else lo, False,
                Fraction(math.floor(hi)) if hi != INF else hi, False, ())

    def sample(self):
        """A pool sample on the current path, as {name: float}, or None."""
        idx = np.flatnonzero(self.mask)
        if not len(idx):
            return None
        i = int(idx[0])
        return {k: float(v[i]) for k, v in self.base_env.items()}, i
