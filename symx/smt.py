"""Terms -> SMT (non-linear real arithmetic, z3; cvc5 as a second opinion).

Every atom becomes a real variable.  Function atoms (exp, log, roots, ...) are constrained by
sound axioms only (so `unsat` is a proof over the reals; `sat` may be spurious and is always
replayed on the real code before it is reported).
"""
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, INF, atom_interval

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'cvc5': 0}


def q(f):
    f = Fraction(f)
    return z3.RatVal(f.numerator, f.denominator)


def fl(x):
    """A double as an exact rational constant."""
    return q(Fraction(x))


def out(x, up):
    """A short rational just outside the bound x (keeps the solver's numbers small)."""
    if x == 0:
        return q(0)
    d = abs(x) * 1e-7
    return q(Fraction('%.9g' % (x + d if up else x - d)))


class Encoder:
    def __init__(self, level=1):
        self.level = level
        self.v = {}          # atom -> z3 var
        self.inv = {}        # atom -> z3 var for 1/atom
        self.ax = []
        self.queue = []
        self.bypair = {}

    def atom(self, i):
        r = self.v.get(i)
        if r is None:
            a = T.atoms[i]
            r = z3.Real('a%d' % i)
            self.v[i] = r
            self.queue.append(i)
        return r

    def inverse(self, i):
        r = self.inv.get(i)
        if r is None:
            x = self.atom(i)
            r = z3.Real('i%d' % i)
            self.inv[i] = r
            self.ax.append(x * r == 1)
            lo, hi = atom_interval(i)
            if lo >= 0:
                self.ax.append(r > 0)
            if hi <= 0:
                self.ax.append(r < 0)
        return r

    def poly(self, p):
        if not p.t:
            return z3.RealVal(0)
        s = []
        for m, c in p.t.items():
            f = []
            for a, e in m:
                x = self.atom(a) if e > 0 else self.inverse(a)
                f += [x] * abs(e)
            if not f:
                s.append(q(c))
            else:
                t = f[0]
                for y in f[1:]:
                    t = t * y
                if c != 1:
                    t = q(c) * t
                s.append(t)
        return s[0] if len(s) == 1 else z3.Sum(s)

    def cond(self, m, op, v):
        # even-power trick is not needed: inverses are explicit variables
        l, r = self.poly(m), q(v)
        return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r,
                '==': l == r, '!=': l != r}[op]

    def axioms(self):
        while self.queue:
            i = self.queue.pop()
            a = T.atoms[i]
            x = self.v[i]
            lo, hi = atom_interval(i)
            if a.kind != 'let':
                isv = a.kind == 'var'
                if lo != -INF:
                    self.ax.append(x >= (q(tm.snap(lo)) if isv else out(lo, False)))
                if hi != INF:
                    self.ax.append(x <= (q(tm.snap(hi)) if isv else out(hi, True)))
            if a.kind == 'var':
                if a.meta == 'int':
                    self.ax.append(x == z3.ToReal(z3.Int('n%d' % i)))
                continue
            args = [self.poly(p) for p in a.args if not (a.kind == 'fn' and a.name in ('root', 'round') and p.is_const())]
            if a.kind == 'let':
                self.ax.append(x == args[0])
                continue
            n = a.name
            if a.kind == 'fn':
                y = args[0]
                if n == 'exp':
                    self.ax += [x > 0, x >= 1 + y, z3.Implies(y < 1, x * (1 - y) <= 1)]
                elif n == 'log':
                    self.ax += [y > 0, x <= y - 1, x * y >= y - 1]
                elif n == 'root':
                    t = x
                    for _ in range(a.meta - 1):
                        t = t * x
                    self.ax += [x >= 0, t == y]
                elif n == 'sin' or n == 'cos':
                    self.ax += [x >= -1, x <= 1]
                    if n == 'cos':
                        self.ax.append(x >= 1 - y * y / 2)
                    else:
                        self.ax += [z3.Implies(z3.And(y >= 0, y <= q('3.14159')), x >= 0), z3.Implies(y >= 0, x <= y)]
                    j = T.index.get(('fn', 'cos' if n == 'sin' else 'sin', (a.args[0].key,)))
                    if j is not None and j in self.v:
                        self.ax.append(x * x + self.v[j] * self.v[j] == 1)
                elif n == 'max':
                    self.ax += [x >= args[0], x >= args[1], z3.Or(x == args[0], x == args[1])]
                elif n == 'min':
                    self.ax += [x <= args[0], x <= args[1], z3.Or(x == args[0], x == args[1])]
                elif n in ('csqrt_re', 'csqrt_im'):
                    o = 'csqrt_im' if n == 'csqrt_re' else 'csqrt_re'
                    j = T.get('fn', o, a.args)
                    z = self.atom(j)
                    re, im = (x, z) if n == 'csqrt_re' else (z, x)
                    if n == 'csqrt_re' or True:
                        self.ax += [re >= 0, re * re - im * im == args[0], 2 * re * im == args[1],
                                    z3.Implies(args[1] > 0, im > 0), z3.Implies(args[1] < 0, im < 0)]
                elif n == 'floor':
                    self.ax += [x <= y, y < x + 1, x == z3.ToReal(z3.Int('n%d' % i))]
                elif n == 'round':
                    h = q(Fraction(1, 2) / 10 ** a.meta)
                    self.ax += [x - y <= h, y - x <= h]
            if self.level > 0 and n not in ('max', 'min'):
                fam = self.bypair.setdefault((n, len(args), a.meta if n in ('root', 'round') else None), [])
                if len(fam) < 10:
                    for (x2, args2) in fam:
                        if n == 'root':
                            continue
                        if n in ('exp', 'log') :
                            self.ax.append(z3.And((args[0] < args2[0]) == (x < x2),
                                                  (args[0] == args2[0]) == (x == x2)))
                        elif n in ('floor', 'round'):
                            self.ax.append(z3.And(z3.Implies(args[0] <= args2[0], x <= x2),
                                                  z3.Implies(args[0] >= args2[0], x >= x2)))
                        else:
                            self.ax.append(z3.Implies(z3.And([u == w for u, w in zip(args, args2)]), x == x2))
                    fam.append((x, args))
        return self.ax


class Z3:
    def __init__(self, timeout_ms=4000, quick_ms=150):
        self.timeout = timeout_ms
        self.quick = quick_ms
        self.cache = {}
        self.last_model = None

    def check(self, conds, quick=False, goal=None, level=1, timeout=None, pins=None, model=False):
        """conds: list of (m, op, v); all of them together.  goal: extra z3-free condition list of
        alternatives (a disjunction) of (m, op, v)."""
        key = None
        if quick:
            key = frozenset((c[0].key, c[1], c[2]) for c in conds)
            r = self.cache.get(key)
            if r is not None:
                return r
        t0 = time.time()
        enc = Encoder(level)
        fs = [enc.cond(*c) for c in conds]
        if goal:
            fs.append(z3.Or([enc.cond(*c) for c in goal]))
        if pins:
            for i, (lo, hi) in pins.items():
                x = enc.atom(i)
                fs += [x >= fl(lo), x <= fl(hi)]
        fs += enc.axioms()
        hasint = any(T.atoms[i].kind == 'fn' and T.atoms[i].name == 'floor' or T.atoms[i].meta == 'int'
                     for i in enc.v)
        ms = timeout or (self.quick if quick else self.timeout)
        s = z3.Solver() if hasint else z3.SolverFor('QF_NRA')
        s.set('timeout', int(ms))
        s.add(fs)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        STATS[r] += 1
        if r == 'unknown' and not quick and not hasint:
            # second configuration: the default SMT core with incremental linearisation
            t0 = time.time()
            s = z3.Solver()
            s.set('timeout', int(ms))
            s.add(fs)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = 'unknown'
            STATS['queries'] += 1
            STATS['time'] += time.time() - t0
            STATS[r] += 1
        self.last_model = None
        if r == 'sat' and model:
            m = s.model()
            out = {}
            for i, x in enc.v.items():
                if T.atoms[i].kind == 'var':
                    w = m.eval(x, model_completion=True)
                    try:
                        if z3.is_algebraic_value(w):
                            w = w.approx(25)
                        out[T.atoms[i].name] = float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
                    except Exception:
                        pass
            self.last_model = out
        if key is not None:
            self.cache[key] = r
        self.last_fs = fs
        return r

    def refute_equalities(self, pairs):
        """Is there a point where some pair of terms differs?  (terms with rounding noise in their
        coefficients are compared after normalisation only)"""
        t0 = time.time()
        enc = Encoder(0)
        alts = []
        for p, w in pairs:
            if p.key != w.key:
                continue
            alts.append(enc.poly(p) != enc.poly(w))
        if not alts:
            return 'noise'
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 1000)
        s.add(z3.Or(alts))
        r = str(s.check())
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        STATS[r] += 1
        return r

    def cross(self, conds, goal, timeout=20):
        """The same query to cvc5 (thorough tier)."""
        import subprocess
        import tempfile
        enc = Encoder(1)
        fs = [enc.cond(*c) for c in conds]
        if goal:
            fs.append(z3.Or([enc.cond(*c) for c in goal]))
        fs += enc.axioms()
        s = z3.Solver()
        s.add(fs)
        txt = '(set-logic QF_NIRA)\n' + s.to_smt2()
        t0 = time.time()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '-'], input=txt,
                               capture_output=True, text=True, timeout=timeout + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        except Exception:
            o = 'unknown'
        STATS['cvc5'] += 1
        STATS['time'] += time.time() - t0
        return o if o in ('sat', 'unsat') else 'unknown'
