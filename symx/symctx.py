"""Symbolic run of a harness: inputs are symbolic, every goal is put to the solver."""
import math
import random
import zlib
from fractions import Fraction

import numpy as np

from . import engine as E
from . import terms as tm
from . import smt
from . import shims
from .ctx import Outcome, UNDEF
from .engine import Sym, SymBool, SymComplex, PathEnd, EngineLimit, NEG
from .loader import Space
from .pool import pool_values
from .terms import T, INF, Poly, const
from . import canon


class Failure:
    __slots__ = ('label', 'verdict', 'cands', 'why')

    def __init__(self, label, verdict, cands, why=''):
        self.label, self.verdict, self.cands, self.why = label, verdict, cands, why


class Run:
    """One obligation: explores all paths of a harness and collects the verdicts."""
    def __init__(self, ob, params, seed=1, pool_n=3000, max_paths=20000, time_limit=300,
                 timeout_ms=4000, quick_ms=150, max_fail=6, cross=False, merge=True):
        self.ob, self.params, self.seed = ob, params, seed
        self.solver = smt.Z3(timeout_ms, quick_ms)
        self.pool = {}
        self.decl = {}
        self.pool_n = pool_n
        self.eng = E.Engine(self.solver, self.pool, pool_n, max_paths, time_limit)
        self.eng.merge = merge
        self.failures = []
        self.unknown = []
        self.goals = 0
        self.identical = 0
        self.by_solver = 0
        self.samples = []         # (inputs, recorded values)
        self.max_fail = max_fail
        self.limit = None
        self.cross = cross
        self.cross_n = 0
        self.no_sample = 0
        self.hollow = 0
        self.rng = random.Random(seed)
        self.numok = True
        self.paths_with_goal = 0
        self.batch_unsat = 0
        self.batch_noise = 0

    def explore(self):
        self.eng.explore(self._one)
        if self.eng.truncated and not self.limit:
            self.limit = 'path or time limit reached after %d paths' % self.eng.paths

    def _one(self, eng):
        if len(self.failures) - self.hollow >= self.max_fail:
            self.eng.truncated = True
            self.limit = 'stopped after %d failing goals' % len(self.failures)
            eng.max_paths = 0
            raise PathEnd()
        c = SymCtx(self, eng)
        try:
            self.ob(c, **self.params)
        except EngineLimit as e:
            self.limit = '%s: %s' % (type(e).__name__, e)
            raise PathEnd()
        if c.ngoals:
            self.paths_with_goal += 1
        if c.closed:
            # the path's equality goals, negated, as one query
            v = self.solver.refute_equalities(c.closed)
            if v == 'unsat':
                self.batch_unsat += 1
            elif v == 'sat':
                self.batch_noise += 1
        s = eng.sample()
        if s is None:
            self.no_sample += 1
        elif len(self.samples) < 400:
            inp, i = s
            vals = []
            for v in c.obs:
                vals.append(num_flat(v, eng.num, i))
            self.samples.append((inp, vals))


def num_flat(x, num, i):
    if isinstance(x, dict):
        return [num_flat(x[k], num, i) for k in sorted(x, key=str)]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [num_flat(v, num, i) for v in x]
    if isinstance(x, SymComplex):
        return [num_flat(x.re, num, i), num_flat(x.im, num, i)]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, Sym):
        return float(num.poly(x.p)[i])
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, (bool, int, float, np.integer, np.floating)):
        return float(x)
    return str(x)


class SymCtx:
    symbolic = True

    def __init__(self, run, eng):
        self.run_ = run
        self.eng = eng
        self.params = run.params
        self.obs = []
        self.ngoals = 0
        self.closed = []

    # ---- inputs
    def real(self, name, lo, hi, pts=(), log=None):
        r = self.run_
        if name not in r.pool:
            r.pool[name] = pool_values(name, lo, hi, self.eng.pool_n, r.seed, pts, log)
            r.decl[name] = (lo, hi)
        if lo == hi:
            return lo
        return Sym(tm.var(name, lo, hi))

    def integer(self, name, lo, hi):
        r = self.run_
        if name not in r.pool:
            g = np.random.RandomState(zlib.crc32(name.encode()) & 0x7fffffff)
            r.pool[name] = g.randint(lo, hi + 1, size=self.eng.pool_n).astype(float)
            r.decl[name] = (lo, hi)
        v = Sym(tm.var(name, lo, hi, 'int'))
        return v.concretise()

    def assume(self, c):
        self.eng.assume(c)

    # ---- code under test
    def module(self, name, stubs=None, fakes=None, inject=None):
        self.space = Space(stubs, fakes, inject)
        return self.space.load(name)

    def program(self, name, stubs=None, fakes=None, inject=None):
        """Runs a script as a program"""
        self.space = Space(stubs, fakes, inject)
        return self.run(self.space.load, name, True)

    def more(self, name):
        return self.space.load(name)

    def fn(self, module, name, stubs=None):
        return getattr(self.module(module, stubs), name)

    def run(self, f, *a, **k):
        try:
            v = f(*a, **k)
        except UNDEF as e:
            return Outcome('undef', err='%s: %s' % (type(e).__name__, e))
        except (KeyError, IndexError, AttributeError, NameError, TypeError) as e:
            if isinstance(e, TypeError) and 'symbolic' in str(e):
                raise shims.Unsupported(str(e))
            return Outcome('exc', err='%s: %s' % (type(e).__name__, e))
        return Outcome('ok', v)

    def note(self, name, v):
        self.obs.append(v)

    # ---- goals
    def true(self, label, c, got=None):
        self.ngoals += 1
        r = self.run_
        r.goals += 1
        if not isinstance(c, SymBool):
            if c:
                r.identical += 1
                return
            return self._fail(label, [], None, '')
        if c.p.is_const():
            return self.true(label, E.holds(c.p.const(), c.op))
        m, op, v = self.eng.norm(c.p, c.op)
        if self.eng.implied(m, op, v) is True:
            r.identical += 1
            return
        self._prove(label, [(m, NEG[op], v)], (m, op, v))

    def at(self, value, name, x):
        """The result's expression at name = x (a one-sided limit when the path excludes x itself)."""
        from . import diff
        try:
            return E.mk(diff.subst(E.lift(value), T.index.get(('var', name, ())), x))
        except diff.NotSmooth as e:
            raise shims.Unsupported('limit of ' + str(e))

    def falling(self, label, value, name, probe=None):
        """The result does not grow with the input `name` inside this path's region."""
        from . import diff
        i = T.index.get(('var', name, ()))
        try:
            d = diff.clear(diff.expand(diff.d_poly(E.lift(value), i)))
        except diff.NotSmooth as e:
            raise shims.Unsupported('derivative of ' + str(e))
        self.weaker_first = True
        self.true(label, E.cmp(E.mk(d), 0, '<=') if not d.is_const() else float(d.const()) <= 0)
        self.weaker_first = False

    def le(self, label, a, b, tol=1e-9):
        self.true(label, E.cmp(a, b, '<=') if E.is_sym(a) or E.is_sym(b) else bool(a <= b + tol * max(1, abs(a), abs(b))))

    def fail(self, label, why=''):
        self.ngoals += 1
        self.run_.goals += 1
        self._fail(label, [], None, why)

    def eq(self, label, got, want, tol=1e-8, atol=None, obs=True):
        if obs:
            self.obs.append(got)
        self._eq(label, got, want, tol)

    def _eq(self, label, a, b, tol):
        if isinstance(a, np.ndarray):
            a = a.tolist() if a.ndim else a.item()
        if isinstance(b, np.ndarray):
            b = b.tolist() if b.ndim else b.item()
        if isinstance(b, dict):
            if not isinstance(a, dict):
                return self.fail(label, 'not a mapping')
            for k in b:
                if k not in a:
                    return self.fail('%s[%r]' % (label, k), 'missing')
                self._eq('%s[%r]' % (label, k), a[k], b[k], tol)
            return
        if isinstance(b, (list, tuple)):
            try:
                if isinstance(a, dict):
                    a = [a[i] for i in range(len(b))]
                a = list(a)
            except Exception:
                return self.fail(label, 'not a sequence')
            if len(a) != len(b):
                return self.fail(label, 'length %d, expected %d' % (len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq('%s[%d]' % (label, i), x, y, tol)
            return
        if isinstance(b, str) or b is None:
            return self.true(label, a == b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            x, y = SymComplex.lift(a), SymComplex.lift(b)
            if x is None or y is None:
                return self.fail(label, 'not a number')
            self._eq(label + '.real', x.re, y.re, tol)
            self._eq(label + '.imag', x.im, y.im, tol)
            return
        try:
            p, w = E.lift(a), E.lift(b)
        except TypeError:
            return self.fail(label, 'not a number: %r' % (type(a),))
        self.ngoals += 1
        r = self.run_
        r.goals += 1
        d = canon.diff(p, w)
        if not d.t:
            r.identical += 1
            self.closed.append((p, w))
            return
        if d.is_const():
            s = tol * (1 + max(abs(float(p.const())), abs(float(w.const()))))
            if p.is_const() and w.is_const() and abs(float(d.const())) <= s:
                r.identical += 1
                return
        d2 = canon.simplify(d, self.eng, p, w)
        if not d2.t:
            r.identical += 1
            return
        self._prove(label, None, None, d2, p, w, tol)

    weaker_first = False

    @staticmethod
    def _related(conds, goal):
        """The conditions over the goal's own terms (no max/min or function the goal does not have)."""
        mine, todo = set(), [a for m, o, v in goal or () for a in m.atoms()]
        while todo:
            a = todo.pop()
            if a not in mine:
                mine.add(a)
                todo += [b for q in T.atoms[a].args for b in q.atoms()]
        return [c for c in conds if all(a in mine for a in c[0].atoms())]

    def _prove(self, label, neg, cond, d=None, p=None, w=None, tol=1e-8):
        r, eng = self.run_, self.eng
        if r.hollow >= 3 and not eng.mask.any():
            # undecided already on paths no known point lies on: no more time for such paths, on to those that have one
            raise PathEnd()
        # numeric look first: an actual point of this path that breaks the goal
        bad = None
        with np.errstate(all='ignore'):
            if d is not None:
                x, y = eng.num.poly(p), eng.num.poly(w)
                z = np.abs(x - y) > 1e-6 * np.maximum(np.abs(x), np.abs(y)) + 1e-6 * (tol / 1e-8)
                z &= np.isfinite(x) & np.isfinite(y)
            else:
                m, op, v = cond
                z = ~eng._nmask(m, op, v) & np.isfinite(eng.num.poly(m))
            bad = np.flatnonzero(eng.mask & z)
        if d is not None:
            if d.is_const():
                conds = list(eng.pc)
                goal = None
            else:
                m, op, v = eng.norm(d, '!=')
                conds, goal = list(eng.pc), [(m, '!=', v)]
        else:
            conds, goal = list(eng.pc), neg
        if len(bad):
            # confirm with the solver at that point: inputs pinned, path condition and negated goal
            i = int(bad[0])
            res = self._pinned(conds, goal, i)
            cands = [{k: float(a[j]) for k, a in r.pool.items()} for j in bad[:4]]
            if res == 'unknown' and d is None:
                # not settled at the point itself: rounding noise or a real breach?
                m, op, v = cond
                x = eng.num.poly(m)[bad]
                with np.errstate(all='ignore'):
                    size = sum((np.abs(eng.num.poly(Poly({k: c}))[bad]) for k, c in m.t.items()), abs(float(v)))
                if np.all(np.abs(x - float(v)) <= 1e-11 * size):
                    res = 'unsat'
            if res != 'unsat':
                return self._fail(label, cands, res, '')
        # (a point the solver refutes exactly was rounding noise of the numeric look)
        few = self._related(conds, goal) if cond is not None else conds
        if len(few) < len(conds) and self.weaker_first:
            # the goal from fewer hypotheses: what follows from a part of the path condition holds on the path
            if r.solver.check(few, goal=goal) == 'unsat':
                r.by_solver += 1
                return
        res = r.solver.check(conds, goal=goal, model=True)
        if res == 'unknown' and len(few) < len(conds) and not self.weaker_first:
            if r.solver.check(few, goal=goal) == 'unsat':
                res = 'unsat'
        if res == 'unknown' and cond is not None:
            # the same with functions and roots as plain unknowns
            if r.solver.check(conds, goal=goal, level=0) == 'unsat':
                res = 'unsat'
        if res == 'unsat':
            r.by_solver += 1
            if r.cross and r.cross_n < 12:
                r.cross_n += 1
                c = r.solver.cross(conds, goal)
                if c == 'sat':
                    r.unknown.append('%s: z3 unsat, cvc5 sat' % label)
            return
        model = r.solver.last_model
        if d is not None and not d.is_const():
            # rounding noise: equality up to 1e-9 of the size of the expected value
            y = eng.num.poly(w)[eng.mask]
            sc = float(np.median(np.abs(y))) if len(y) else 1.0
            eps = Fraction(max(sc, 1e-12) * 1e-9).limit_denominator(10**22)
            m, op, v = eng.norm(d, '!=')
            k = abs(1 / tm.lead(d))
            res2 = r.solver.check(conds, goal=[(m, '>', v + eps * k), (m, '<', v - eps * k)], model=True)
            if res2 == 'unsat':
                r.by_solver += 1
                return
            if r.solver.last_model:
                model = r.solver.last_model
        cands = []
        if model:
            cands.append(model)
        self._fail(label, cands, res, tm.show(d, 2) if d is not None else tm.show(cond[0], 2) + ' ' + cond[1] + ' %g' % float(cond[2]), (p, w) if d is not None else None)

    def _pinned(self, conds, goal, i):
        pins = {}
        for a in T.atoms:
            if a.kind == 'var' and a.name in self.run_.pool:
                x = float(self.run_.pool[a.name][i])
                pins[a.id] = (x, x)
        try:
            return self.run_.solver.check(conds, goal=goal, pins=pins, timeout=1000)
        except Exception:
            return 'unknown'

    def _fail(self, label, cands, verdict, why, sides=None):
        r, eng = self.run_, self.eng
        idx = np.flatnonzero(eng.mask)
        for j in idx[:6]:
            cands.append({k: float(a[j]) for k, a in r.pool.items()})
        cands += search(r, eng, cands, sides=sides)
        # solver model of the bare path condition when nothing else is at hand
        if not cands:
            if r.solver.check(list(eng.pc), model=True) == 'sat' and r.solver.last_model:
                cands.append(r.solver.last_model)
        r.failures.append(Failure(label, verdict, cands, why))
        if verdict == 'unknown' and not len(idx):
            r.hollow += 1
        if len(r.failures) - r.hollow >= r.max_fail:
            raise PathEnd()


def search(r, eng, starts, rounds=12, n=400, sides=None):
    """Points near the path condition's region: numeric descent on its violation."""
    if eng.mask.sum() >= 6:
        return []
    names = list(r.pool)
    if not names:
        return []
    rng = np.random.RandomState(r.seed)
    lo = np.array([r.decl[k][0] if r.decl[k][0] != -INF else -1e9 for k in names])
    hi = np.array([r.decl[k][1] if r.decl[k][1] != INF else 1e9 for k in names])

    def viol(X):
        env = {k: X[:, j] for j, k in enumerate(names)}
        num = tm.NumEnv(env, len(X), eng.num.ufs)
        tot = np.zeros(len(X))
        for m, op, v in eng.pc:
            x = num.poly(m)
            v = float(v)
            s = max(abs(v), 1e-9)
            d = {'<': x - v, '<=': x - v, '>': v - x, '>=': v - x, '==': np.abs(x - v), '!=': np.where(x == v, 1.0, 0)}[op]
            d = np.where(np.isfinite(d), d, 1e9)
            tot += np.where(d > 0, np.minimum(d / s, 1e6) + (1e-9 if op in '<>' else 0), 0) if op != '==' else np.where(d > 1e-12 * s, d / s, 0)
        return tot
    X = np.stack([r.pool[k] for k in names], 1)[:2000]
    for s in starts[:4]:
        X = np.vstack([X, np.array([[min(max(s.get(k, 0.0), a), b) for k, a, b in zip(names, lo, hi)]])])
    try:
        V = viol(X)
        best = X[np.argsort(V)[:20]]
        sig = 0.3
        for _ in range(rounds):
            P = best[rng.randint(len(best), size=n)]
            W = np.where(rng.rand(*P.shape) < 0.4, 1.0, 0.0) * rng.randn(*P.shape)
            Y = np.clip(P + W * sig * np.maximum(np.abs(P), 1e-6 * (hi - lo)), lo, hi)
            X = np.vstack([best, Y])
            V = viol(X)
            o = np.argsort(V)
            best = X[o[:20]]
            sig *= 0.7
        out = []
        if sides:
            # wander inside the region; the points where the two sides differ most come first
            ok = X[V == 0]
            for k in range(12 if len(ok) else 0):
                P = ok[rng.randint(len(ok), size=n)]
                sig = (1.0, 0.3, 0.1)[k % 3]
                W = np.where(rng.rand(*P.shape) < (0.2, 0.5)[k % 2], 1.0, 0.0) * rng.randn(*P.shape)
                Y = np.clip(P + W * sig * np.maximum(np.abs(P), 1e-6 * (hi - lo)), lo, hi)
                ok = np.vstack([ok, Y[viol(Y) == 0]])[-3000:]
            if len(ok):
                with np.errstate(all='ignore'):
                    num = tm.NumEnv({k: ok[:, j] for j, k in enumerate(names)}, len(ok), eng.num.ufs)
                    x, y = num.poly(sides[0]), num.poly(sides[1])
                    e = np.abs(x - y) / (1e-6 + np.abs(x) + np.abs(y))
                e = np.where(np.isfinite(e), e, 0)
                for j in np.argsort(-e)[:40:5]:
                    if e[j] > 1e-9:
                        out.append({k: float(ok[j, i]) for i, k in enumerate(names)})
        for j in range(min(6, len(best))):
            out.append({k: float(best[j, i]) for i, k in enumerate(names)})
        return out
    except Exception:
        return []
