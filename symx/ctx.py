"""What a harness sees.  The same harness runs symbolically (SymCtx, under the solver) and
concretely (RealCtx, in the interpreter the project is installed in, on the unmodified code)."""
import importlib
import math
import sys

REPO_SRC = ('itmlogic', 'area', 'area_2tiles', 'p2p', 'p2p_2tiles', 'pimter', 'terrain_module')


class Skip(BaseException):
    """The concrete inputs are outside the harness's assumptions."""


class Outcome:
    __slots__ = ('kind', 'value', 'err')

    def __init__(self, kind, value=None, err=None):
        self.kind, self.value, self.err = kind, value, err

    @property
    def ok(self):
        return self.kind == 'ok'


class TrackDict(dict):
    """A dict that records which keys were read and written."""
    def __init__(self, *a):
        super().__init__(*a)
        self.reads, self.writes = set(), set()

    def __getitem__(self, k):
        self.reads.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.reads.add(k)
        return super().get(k, d)

    def __setitem__(self, k, v):
        self.writes.add(k)
        super().__setitem__(k, v)


UNDEF = (ArithmeticError, ValueError)


def bad_number(x):
    """nan or infinity somewhere in a concrete result"""
    if isinstance(x, dict):
        return any(bad_number(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(bad_number(v) for v in x)
    if isinstance(x, complex):
        return not (math.isfinite(x.real) and math.isfinite(x.imag))
    try:
        return not math.isfinite(x)
    except (TypeError, ValueError):
        return False


class RealCtx:
    """Concrete run of a harness on the real code."""
    symbolic = False

    def __init__(self, inputs, params, loose=1.0):
        self.inputs = inputs
        self.loose = loose
        self.rng = None
        if '__seed__' in inputs:
            import numpy
            self.seed = int(inputs['__seed__'])
            self.inputs = {}
            self.rng = numpy.random.RandomState(self.seed)
        self.params = params
        self.goals = []           # (label, ok, got, want)
        self.obs = []
        self.used = {}

    def real(self, name, lo, hi, pts=(), log=None):
        if self.rng is not None:
            if name not in self.inputs:
                from .pool import pool_values
                self.inputs[name] = float(pool_values(name, lo, hi, 1, self.seed, pts, log)[0])
            v = self.inputs[name]
        elif name not in self.inputs:
            v = lo if lo > -1e300 else 0.0
        else:
            v = self.inputs[name]
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def integer(self, name, lo, hi):
        if self.rng is not None and name not in self.inputs:
            self.inputs[name] = float(self.rng.randint(lo, hi + 1))
        return int(round(self.real(name, lo, hi)))

    def assume(self, c):
        if not c:
            raise Skip()

    def module(self, name, stubs=None, fakes=None, inject=None):
        for m in list(sys.modules):
            if m.split('.')[0] in REPO_SRC:
                del sys.modules[m]
        return importlib.import_module(name)

    def program(self, name, stubs=None, fakes=None, inject=None):
        import os
        import runpy
        self.module('itmlogic')
        p = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'scripts', name + '.py')
        return self.run(runpy.run_path, p, run_name='__main__')

    def more(self, name):
        return importlib.import_module(name)

    def fn(self, module, name, stubs=None):
        return getattr(self.module(module), name)

    def run(self, f, *a, **k):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                v = f(*a, **k)
        except UNDEF as e:
            return Outcome('undef', err='%s: %s' % (type(e).__name__, e))
        except Exception as e:
            return Outcome('exc', err='%s: %s' % (type(e).__name__, e))
        return Outcome('ok', v)

    def note(self, name, v):
        self.obs.append(v)

    def true(self, label, c, got=None):
        self.goals.append((label, bool(c), repr(got) if got is not None else bool(c), True))

    def fail(self, label, why=''):
        self.goals.append((label, False, why, None))

    def at(self, value, name, x):
        return value

    def falling(self, label, value, name, probe=None):
        lo = self.inputs.get(name, 0.0)
        for h in (1e-4, 1e-2, 0.3):
            o = probe(lo + h)
            if o is not None:
                self.goals.append((label, bool(o <= value + 1e-9 * (1 + abs(value))), '%r at %r' % (float(o), lo + h), '<= %r at %r' % (float(value), lo)))

    def le(self, label, a, b, tol=1e-9):
        s = max(1.0, abs(a), abs(b))
        self.goals.append((label, bool(a <= b + tol * self.loose * s), float(a), '<= %r' % float(b)))

    def eq(self, label, got, want, tol=1e-8, atol=None, obs=True):
        ok, why = same(got, want, tol * self.loose, None if atol is None else atol * self.loose)
        self.goals.append((label, ok, why if not ok else '', None))
        if obs:
            self.obs.append(flat(got))


def flat(x):
    if isinstance(x, dict):
        return [flat(x[k]) for k in sorted(x, key=str)]
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if hasattr(x, 'tolist'):
        return flat(x.tolist())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (bool, int, float)):
        return float(x)
    return str(x)


def same(a, b, tol, atol=None):
    if hasattr(a, 'tolist'):
        a = a.tolist()
    if hasattr(b, 'tolist'):
        b = b.tolist()
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return False, 'got %r' % (a,)
        for k in b:
            if k not in a:
                return False, 'missing %r' % (k,)
            o, w = same(a[k], b[k], tol, atol)
            if not o:
                return False, '%r: %s' % (k, w)
        return True, ''
    if isinstance(b, (list, tuple)):
        try:
            if isinstance(a, dict):
                a = [a[i] for i in range(len(b))]
            a = list(a)
        except Exception:
            return False, 'got %r' % (a,)
        if len(a) != len(b):
            return False, 'length %d, expected %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            o, w = same(x, y, tol, atol)
            if not o:
                return False, '[%d]: %s' % (i, w)
        return True, ''
    if isinstance(b, str) or b is None:
        return (a == b), 'got %r, expected %r' % (a, b)
    try:
        d = abs(a - b)
        if a != a and b != b:
            return True, ''
        s = tol * max(abs(a), abs(b)) + (tol if atol is None else atol)
        if d <= s:
            return True, ''
        return False, 'got %r, expected %r' % (a, b)
    except Exception as e:
        return False, 'got %r, expected %r (%s)' % (a, b, e)
