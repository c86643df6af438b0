"""The files the runners write.

The writers run symbolically on a scratch directory with the real csv module: a symbolic number is
written as a token that stands for it, and the file is parsed back into the numbers the tokens stand
for.  fiona (shapefiles) is replaced by a model that keeps what each field type can hold; on the
real program the real fiona writes, and the shapefile is read back."""
import csv
import os
import re
import shutil
import tempfile
import types

from .common import *

TEXT = ('plain', 'with, comma and "quotes"', '', 'line\nbreak', ' padded ', '0012')


def read_csv(path, tokens):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    return rows


def cell(text, tokens, like):
    """The value a cell stands for, taken as the kind of value that was to be written"""
    if isinstance(like, str):
        return text
    if text in tokens:
        return tokens[text]
    try:
        return float(text)
    except ValueError:
        return None


def h_csv(c, script, n, existing, folder):
    from . import scripts
    tokens = {}
    if c.symbolic:
        from symx import engine as E
        E.TOKENS = tokens
    m = scripts.quiet(c.module(script, scripts.p2p_stubs(c) if script.startswith('p2p') else None))
    rows, want = [], []
    for i in range(n):
        r = {'distance_km': c.real('d%d' % i, 0, 1000, pts=(0,)), 'id': TEXT[i % len(TEXT)],
             'propagation_loss_dB': c.real('l%d' % i, -300, 600, pts=(0,)), 'level': 10 * i}
        if i % 2:
            r = dict(reversed(list(r.items())))
        rows.append(r)
        want.append(dict(r))
    head = list(want[0])
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        d = os.path.join(tmp, *folder) if folder else tmp
        if existing:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'out.csv'), 'w') as f:
                f.write('old,file\n' + '1,2\n' * 40)
            with open(os.path.join(d, 'other.csv'), 'w') as f:
                f.write('a,b\n1,2\n')
        o = c.run(m.csv_writer, rows, d, 'out.csv')
        if not o.ok:
            return c.fail('results are written', o.err)
        p = os.path.join(d, 'out.csv')
        if not os.path.isfile(p):
            return c.fail('the file is where it was asked for')
        got = read_csv(p, tokens)
        left = sorted(os.path.relpath(os.path.join(a, x), d) for a, _, b in os.walk(d) for x in b)
        other = not existing or read_csv(os.path.join(d, 'other.csv'), tokens) == [['a', 'b'], ['1', '2']]
    finally:
        if c.symbolic:
            E.TOKENS = None
        shutil.rmtree(tmp)
    c.true('only the file asked for is written', left == (['other.csv', 'out.csv'] if existing else ['out.csv']) and other, left)
    c.true('a heading and one record per row', len(got) == n + 1, len(got))
    if len(got) != n + 1:
        return
    c.true('the heading names the columns', sorted(got[0]) == sorted(head), got[0])
    if sorted(got[0]) != sorted(head):
        return
    for i in range(n):
        c.true('a value for each column', len(got[i + 1]) == len(head))
        if len(got[i + 1]) != len(head):
            return
        for k, t in zip(got[0], got[i + 1]):
            w = want[i][k]
            v = cell(t, tokens, w)
            if isinstance(w, str) or v is None:
                c.true('text of a row', v == w, v)
            else:
                c.eq('value of a row', v, w, tol=1e-12, obs=False)
    c.true('rows unchanged', [sorted(r) for r in rows] == [sorted(r) for r in want])
    for r, w in zip(rows, want):
        for k in w:
            if isinstance(w[k], str):
                c.true('rows unchanged', r[k] == w[k])
            else:
                c.eq('rows unchanged', r[k], w[k], obs=False)


# ------------------------------------------------------------------ shapefiles
class Sink:
    """An open shapefile: keeps of each value what the type of its field can hold"""
    def __init__(self, store, path, mode, driver, schema, crs):
        if mode == 'a' and path in store:
            self.f = store[path]
        else:
            self.f = store[path] = {'driver': driver, 'schema': schema, 'crs': crs, 'features': []}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def write(self, rec):
        sch = self.f['schema']
        if rec['geometry']['type'] != sch['geometry']:
            raise ValueError('Record\'s geometry type does not match collection schema\'s geometry type')
        if set(rec['properties']) != set(sch['properties']):
            raise ValueError('Record does not match collection schema')
        co = rec['geometry']['coordinates']
        pts = [tuple(co)] if sch['geometry'] == 'Point' else [tuple(p) for p in co]
        self.f['features'].append({'type': rec['geometry']['type'], 'coordinates': pts,
                                   'properties': {k: hold(t, rec['properties'][k]) for k, t in sch['properties'].items()}})

    def writerecords(self, recs):
        for r in recs:
            self.write(r)


def hold(t, v):
    from symx import engine as E
    if t is None:
        raise ValueError('no type for a field')
    t = str(t)
    m = re.match(r'float:(\d+)\.(\d+)$', t)
    if t.startswith('int'):
        return E.trunc_int(v) if isinstance(v, E.Sym) else int(v)
    if m:
        return round(v, int(m.group(2))) if int(m.group(2)) < 12 else v
    if t.startswith('str'):
        k = re.match(r'str:(\d+)$', t)
        return v[:int(k.group(1)) if k else 80] if isinstance(v, str) else str(v)
    return v


def fake_fiona(store):
    f = types.ModuleType('fiona')
    f.FIELD_TYPES_MAP = {'int32': int, 'float': float, 'str': str, 'date': bytes, 'bool': bool, 'bytes': bytes, 'int64': int, 'int': int}

    def op(path, mode='r', driver=None, schema=None, crs=None, **k):
        return Sink(store, os.fspath(path), mode, driver, schema, crs)
    f.open = op
    c = types.ModuleType('fiona.crs')
    c.from_epsg = lambda n: {'init': 'epsg:%d' % n}
    c.from_string = lambda s: s
    c.CRS = types.SimpleNamespace(from_epsg=c.from_epsg, from_string=c.from_string)
    f.crs = c
    return {'fiona': f, 'fiona.crs': c}


def kind():
    """type() and isinstance() that take a symbolic real for a float"""
    import builtins
    from symx import engine as E

    def typ(*a):
        if len(a) == 1 and isinstance(a[0], E.Sym):
            return int if E.is_int_poly(a[0].p) else float
        return builtins.type(*a)

    def isi(x, t):
        if builtins.isinstance(x, E.Sym):
            want = int if E.is_int_poly(x.p) else float
            ts = t if builtins.isinstance(t, tuple) else (t,)
            return any(builtins.isinstance(q, builtins.type) and issubclass(want, q) or builtins.isinstance(x, q) for q in ts)
        return builtins.isinstance(x, t)
    return {'type': typ, 'isinstance': isi}


def code(crs):
    """the EPSG number of whatever stands for a coordinate system"""
    if hasattr(crs, 'to_epsg'):
        return str(crs.to_epsg())
    s = crs.get('init', '') if isinstance(crs, dict) else str(crs)
    m = re.search(r'epsg:?\s*:*(\d+)', s, re.I)
    return m.group(1) if m else s


def h_shape(c, script, geometry, n, existing, crs):
    from . import scripts
    store = {}
    if c.symbolic:
        m = scripts.quiet(c.module(script, scripts.p2p_stubs(c), fakes=fake_fiona(store), inject={script: kind()}))
    else:
        m = scripts.quiet(c.module(script))
    data = []
    for i in range(n):
        xy = lambda t: (c.real('x%s%d' % (t, i), -179, 179), c.real('y%s%d' % (t, i), -89, 89))
        co = xy('') if geometry == 'Point' else [xy('a'), xy('b')]
        data.append({'type': 'Feature', 'geometry': {'type': geometry, 'coordinates': co},
                     'properties': {'elevation': c.real('e%d' % i, -400, 9000), 'id': 'site %d' % i, 'number': 3 * i + 1}})
    import copy
    want = copy.deepcopy(data)
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        d = os.path.join(tmp, 'results', 'shapes')
        p = os.path.join(d, 'out.shp')
        if existing:
            old = [{'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (1.0, 2.0)}, 'properties': {'old': 'x'}}] * 5
            c.run(m.write_shapefile, old, d, 'out.shp', 'epsg:4326')
        o = c.run(m.write_shapefile, data, d, 'out.shp', crs)
        if not o.ok:
            return c.fail('features are written', o.err)
        if c.symbolic:
            # (the directory must have been made before the file is opened)
            there = os.path.isdir(d)
            f = store.get(p)
        else:
            import fiona
            there, f = os.path.isfile(p), None
            if there:
                with fiona.open(p) as src:
                    f = {'driver': src.driver, 'crs': src.crs, 'features': []}
                    for r in src:
                        co = r['geometry']['coordinates']
                        f['features'].append({'type': r['geometry']['type'], 'coordinates': [co] if r['geometry']['type'] == 'Point' else list(co),
                                              'properties': dict(r['properties'])})
    finally:
        shutil.rmtree(tmp)
    if not there or f is None:
        return c.fail('the shapefile is where it was asked for')
    c.true('a shapefile', f['driver'] == 'ESRI Shapefile', f['driver'])
    c.true('in the coordinate system asked for', code(f['crs']) == code(crs), str(f['crs']))
    c.true('one record per feature', len(f['features']) == n, len(f['features']))
    if len(f['features']) != n:
        return
    for g, w in zip(f['features'], want):
        c.true('geometry of a feature', g['type'] == geometry)
        co = w['geometry']['coordinates']
        c.eq('position of a feature', [list(q)[:2] for q in g['coordinates']], [list(co)] if geometry == 'Point' else [list(q) for q in co], tol=1e-11, obs=False)
        c.true('properties of a feature', set(g['properties']) == set(w['properties']), sorted(g['properties']))
        if set(g['properties']) != set(w['properties']):
            return
        for k, v in w['properties'].items():
            if isinstance(v, str):
                c.true('text of a feature', g['properties'][k] == v, g['properties'][k])
            else:
                x = g['properties'][k]
                if isinstance(x, str) or x is None:
                    c.fail('value of a feature', repr(x))
                else:
                    c.eq('value of a feature', x, v, tol=1e-11, obs=False)


# ------------------------------------------------------------------ the scripts as programs
SITES = {'area': (-0.07491679518573545, 51.42413477117786), 'area_2tiles': (26.9976, -3.5409),
         'p2p': ((-0.07491679518573545, 51.42413477117786), (-0.8119433954872186, 51.94972494521946)),
         'p2p_2tiles': ((26.676, -3.513), (27.594, -3.514))}
DEM = {'area': 'ASTGTM2_N51W001_dem.tif', 'area_2tiles': 'S_AVE_DSM.vrt', 'p2p': 'ASTGTM2_N51W001_dem.tif', 'p2p_2tiles': 'S_AVE_DSM.vrt'}
OUT = {'area': 'area_results.csv', 'area_2tiles': 'area_results_2tiles.csv', 'p2p': 'p2p_results.csv', 'p2p_2tiles': 'p2p_results_2tiles.csv'}
# the profile of the Longley-Rice documentation
PROFILE = [
    96, 84, 65, 46, 46, 46, 61, 41, 33, 27, 23, 19, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 17, 19, 21, 23, 25, 27, 29, 35, 46, 41,
    35, 30, 33, 35, 37, 40, 35, 30, 51, 62, 76, 46, 46, 46, 46, 46, 46, 50, 56, 67, 106, 83, 95, 112, 137, 137, 76, 103, 122, 122, 83, 71,
    61, 64, 67, 71, 74, 77, 79, 86, 91, 83, 76, 68, 63, 76, 107, 107, 107, 119, 127, 133, 135, 137, 142, 148, 152, 152, 107, 137, 104, 91,
    99, 120, 152, 152, 137, 168, 168, 122, 137, 137, 170, 183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127, 116, 107, 104,
    101, 98, 95, 103, 91, 97, 102, 107, 107, 107, 103, 98, 94, 91, 105, 122, 122, 122, 122, 122, 137, 137, 137, 137, 137, 137, 137, 137,
    140, 144, 147, 150, 152, 159]


class Scratch:
    """A scratch directory as working directory, with a data folder in it"""
    def __enter__(self):
        self.back = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='verif-')
        os.mkdir(os.path.join(self.d, 'data'))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        from symx import engine as E
        E.TOKENS = None
        os.chdir(self.back)
        shutil.rmtree(self.d)


def table(c, path, tokens, label):
    """the rows of a results file as dicts of numbers"""
    if not os.path.isfile(path):
        c.fail(label, 'no file ' + path)
        return None
    r = read_csv(path, tokens)
    return [{k: cell(t, tokens, 0) for k, t in zip(r[0], x)} for x in r[1:]]


def begin(c):
    tokens = {}
    if c.symbolic:
        from symx import engine as E
        E.TOKENS = tokens
    return tokens


def h_area_main(c, script, n):
    from . import scripts, terrain
    lon, lat = SITES[script]
    v = [c.real('v%d' % i, -400, 4000) for i in range(n)]
    asked = []
    with Scratch():
        fakes = None
        if c.symbolic:
            def pixels(a, nodata):
                import numpy as np
                asked.append(a)
                data = np.empty((1, n), dtype=object)
                data[0, :] = v
                return np.ma.MaskedArray(data, mask=False)
            fakes, log = terrain.geo(c, pixels=pixels)
        else:
            import numpy as np
            st = 0.6 / 200
            terrain.write_raster('data/' + DEM[script], lon - 0.45, lat + 0.3, st, 300, 200,
                                 lambda x, y: np.choose((np.arange(300)[None, :] + np.arange(200)[:, None]) % n, v))
        tokens = begin(c)
        o = c.program(script, scripts.area_stubs(c), fakes=fakes)
        if not o.ok:
            return c.fail('the program runs', o.err)
        got = table(c, os.path.join('results', OUT[script]), tokens, 'the program writes its results')
        if c.symbolic:
            c.true('terrain of one area', len(asked) == 1)
            c.eq('terrain around the transmitter', [asked[0].x, asked[0].y, asked[0].r], [lon, lat, 20000], obs=False)
            c.true('terrain of the elevation model of the example', log['dem'] == os.path.join('data', DEM[script]), log['dem'])
            tip = c.more('terrain_module').interdecile_range(list(v))
        else:
            tip = c.module('terrain_module').terrain_area('data/' + DEM[script], lon, lat, 20000)
    if got is None:
        return
    w = scripts.area_ref(c, {'hg': [3.3, 1.3], 'fmhz': 20, 'dh': tip, 'ipol': 0})
    scripts.rows(c, 'results file', got, w, ('distance_km', 'confidence_level_%', 'propagation_loss_dB'))


def h_p2p_main(c, script, lo, hi):
    from . import scripts, terrain
    (x0, y0), (x1, y1) = ends = SITES[script]
    A, B, C = c.real('h', -1000, 8000), c.real('hx', -600, 600), c.real('hy', -600, 600)
    plane = lambda x, y: A + (x - x0) * B + (y - y0) * C
    store = {}
    with Scratch():
        fakes = None
        if c.symbolic:
            fakes, log = terrain.geo(c, c.real('dist', lo, hi), plane, ends=ends)
            fakes.update(fake_fiona(store))
        else:
            terrain.write_raster('data/' + DEM[script], min(x0, x1) - 0.2, max(y0, y1) + 0.2, 1.5 / 150, 150, 150, plane)
        tokens = begin(c)
        o = c.program(script, scripts.p2p_stubs(c), fakes=fakes, inject={script: kind()})
        if not o.ok:
            return c.fail('the program runs', o.err)
        got = table(c, os.path.join('results', OUT[script]), tokens, 'the program writes its results')
        if got is None:
            return
        # the shapefiles, and whether their folder was there to write them in
        shapes = {}
        d = os.path.join('data', 'processed', 'shapes')
        c.true('the folder of the shapefiles is made', os.path.isdir(d))
        if c.symbolic:
            for k, f in store.items():
                shapes[os.path.basename(k)] = f['features']
                c.true('shapefiles go to their folder', os.path.normpath(os.path.dirname(k)) == d, k)
                c.true('shapefiles are in geographic coordinates', code(f['crs']) == '4326')
        else:
            import fiona
            for k in sorted(os.listdir(d)):
                if k.endswith('.shp'):
                    with fiona.open(os.path.join(d, k)) as src:
                        c.true('shapefiles are in geographic coordinates', code(src.crs) == '4326')
                        shapes[k] = [{'type': r['geometry']['type'], 'coordinates': [r['geometry']['coordinates']], 'properties': dict(r['properties'])} for r in src]
    w = scripts.p2p_ref(c, {'hg': [143.9, 8.5], 'fmhz': 41.5, 'd': 77.8, 'ipol': 0}, PROFILE)
    scripts.rows(c, 'results file', got, w, ('distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB'))
    names = {'points.shp', 'transmitter.shp', 'receiver.shp'} if script == 'p2p' else {'p2p_2tiles.shp'}
    c.true('the shapefiles of the path', set(shapes) == names, sorted(shapes))
    if set(shapes) != names:
        return
    if script == 'p2p':
        for k, q in (('transmitter.shp', ends[0]), ('receiver.shp', ends[1])):
            c.true('one site', len(shapes[k]) == 1)
            c.eq('site of the ' + k, [list(p)[:2] for p in shapes[k][0]['coordinates']], [list(q)], obs=False, tol=1e-11)
    f = shapes['points.shp' if script == 'p2p' else 'p2p_2tiles.shp']
    n = len(f)
    c.true('terrain points of the path', n >= 2, n)
    for i, g in enumerate(f):
        t = terrain.frac(i, n - 1) if c.symbolic else i / (n - 1)
        x, y = x0 + (x1 - x0) * t, y0 + (y1 - y0) * t
        c.eq('position of a terrain point', [list(g['coordinates'][0])[:2]], [[x, y]], obs=False)
        e = g['properties'].get('elevation')
        if e is None or isinstance(e, str):
            c.fail('elevation of a terrain point', repr(e))
        else:
            c.eq('elevation of a terrain point', e, plane(x, y), tol=1e-7, obs=False)


def programs(tier):
    out = []
    for s in ('area', 'area_2tiles'):
        for n in (2,) if tier == 'quick' else (1, 2, 3, 4):
            out.append(Ob('%s as a program, %d elevations' % (s, n), h_area_main, {'script': s, 'n': n}, pool_n=300))
    for s in ('p2p', 'p2p_2tiles'):
        for lo, hi in ((0, 0.5),) if tier == 'quick' else ((0, 2.5), (2, 12), (1000, 1000.4), (10e3, 10.01e3)):
            out.append(Ob('%s as a program, %g to %g m' % (s, lo, hi), h_p2p_main, {'script': s, 'lo': lo, 'hi': hi}, pool_n=300))
    return out


def writers(tier):
    out = []
    ns = (1, 3) if tier == 'quick' else (1, 2, 3, 7, 20)
    for s in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles'):
        for n in ns:
            out.append(Ob('%s: %d rows into a new folder' % (s, n), h_csv, {'script': s, 'n': n, 'existing': False, 'folder': ['results', 'csv']}))
            out.append(Ob('%s: %d rows over an older file' % (s, n), h_csv, {'script': s, 'n': n, 'existing': True, 'folder': []}))
    for s in ('p2p', 'p2p_2tiles'):
        for n in ns:
            for g in ('Point', 'LineString'):
                for e in (False, True):
                    out.append(Ob('%s: %d %s features%s' % (s, n, g, ' over an older file' if e else ''), h_shape,
                                  {'script': s, 'geometry': g, 'n': n, 'existing': e, 'crs': 'epsg:4326' if n != 3 else 'epsg:27700'}))
    return out
