"""Loads the code under test from /repo's working tree into an isolated module space whose
math, cmath, numpy and numeric builtins understand symbolic numbers.  Source is read from disk
once per process; modules are re-executed for every path (no state leaks between paths)."""
import os
import sys
import types

from . import shims

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOTS = [os.path.join(REPO, 'src'), os.path.join(REPO, 'scripts')]

_code = {}


def source_path(name):
    rel = name.replace('.', '/')
    for r in ROOTS:
        for p in (os.path.join(r, rel + '.py'), os.path.join(r, rel, '__init__.py')):
            if os.path.isfile(p):
                return p
        if os.path.isdir(os.path.join(r, rel)):
            return os.path.join(r, rel) + '/'
    return None


def code_for(path):
    c = _code.get(path)
    if c is None:
        if path.endswith('/'):
            src = ''
        else:
            with open(path) as f:
                src = f.read()
        c = compile(src, path, 'exec')
        _code[path] = c
    return c


class Fake(types.ModuleType):
    """A third-party package the checks replace (rasters, shapefiles, projections)."""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = FakeThing(self.__name__ + '.' + n)
        setattr(self, n, v)
        return v


class FakeThing:
    def __init__(self, name):
        self._n = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return FakeThing(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise shims.Unsupported('call of ' + self._n)


FAKE = ('fiona', 'rasterio', 'shapely', 'pyproj', 'tqdm', 'rasterstats', 'geopandas', 'pandas',
        'osgeo', 'affine', 'matplotlib', 'seaborn')


class Space:
    """One module space.  stubs: {(module, attribute): callable}; fakes: {module name: object}."""
    def __init__(self, stubs=None, fakes=None, inject=None):
        self.mods = {}
        self.stubs = stubs or {}
        self.fakes = fakes or {}
        self.inject = inject or {}     # module -> dict merged before execution
        self.b = dict(shims.BUILTINS)
        self.b['__import__'] = self._import

    def load(self, name, main=False):
        """main: run it as a program"""
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = source_path(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType('__main__' if main else name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.b
        if path.endswith('__init__.py') or path.endswith('/'):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        m.__dict__.update(self.inject.get(name, {}))
        self.mods[name] = m
        exec(code_for(path), m.__dict__)
        for (mod, attr), f in self.stubs.items():
            if mod == name:
                # (a routine that has been renamed or merged away runs as it is)
                if hasattr(m, attr):
                    setattr(m, attr, f)
        if parent is not None:
            k = name.rsplit('.', 1)[1]
            setattr(parent, k, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.fakes:
            return self.fakes[name] if fromlist or '.' not in name else self.fakes.get(top, Fake(top))
        if top == 'math':
            return shims.MATH
        if top == 'statistics':
            return shims.STATISTICS
        if top == 'cmath':
            return shims.CMATH
        if top == 'numpy':
            if name == 'numpy' or not fromlist:
                return shims.NUMPY
            return shims.Proxy(name, __import__(name, fromlist=['x']), {})
        if source_path(name) is not None or source_path(top) is not None:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and source_path(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.load(top)
        if top in FAKE:
            f = self.fakes.get(top)
            return f if f is not None and name == top else Fake(name)
        return __import__(name, globals, locals, fromlist, level)
