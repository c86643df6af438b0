"""scripts/terrain_module.py: sampling of the terrain along a path and over an area.

Symbolically the geometry, projection and raster packages are replaced by small models of the
operations used (a straight line in the plane, a disc, a raster whose elevation is a plane); on the
real program the real packages run on a raster written to a scratch directory."""
import math
import os
import shutil
import tempfile

from .common import *


def nsamples(d):
    return 600 - 1 / (d / 100000 + 1 / 598)


# ------------------------------------------------------------------ number of samples
def h_number(c, lo, hi):
    f = c.fn('terrain_module', 'determine_num_samples', None) if not c.symbolic else c.module('terrain_module', fakes=geo(c)[0]).determine_num_samples
    d = c.real('d', lo, hi, pts=(0, 1, 1000, 1e5))
    o = c.run(f, d)
    if not o.ok:
        return c.fail('number of samples', o.err)
    n = o.value
    c.le('at least two samples', 2, n)
    c.le('at most 600 samples', n, 600)
    x = nsamples(d)
    c.le('nearest integer to the published curve', n, x + 0.5, tol=1e-7)
    c.le('nearest integer to the published curve (other side)', x - 0.5, n, tol=1e-7)
    if not c.symbolic:
        c.true('a whole number', n == int(n) and not isinstance(n, float))
    else:
        from symx import engine as E
        c.true('a whole number', isinstance(n, int) or (isinstance(n, E.Sym) and E.is_int_poly(n.p)))


def h_number_monotone(c, lo, hi):
    f = c.fn('terrain_module', 'determine_num_samples', None) if not c.symbolic else c.module('terrain_module', fakes=geo(c)[0]).determine_num_samples
    a, b = c.real('d', lo, hi), c.real('d2', lo, hi)
    c.assume(a <= b)
    o, p = c.run(f, a), c.run(f, b)
    if not (o.ok and p.ok):
        return c.fail('number of samples', (o.err or '') + (p.err or ''))
    c.le('a longer path has no fewer samples', o.value, p.value)


# ------------------------------------------------------------------ interdecile range
def h_interdecile(c, n):
    f = c.module('terrain_module', fakes=geo(c)[0]).interdecile_range
    v = [c.real('v%d' % i, -400, 9000) for i in range(n)]
    o = c.run(f, list(v))
    if not o.ok:
        return c.fail('interdecile range', o.err)
    s = sorted(v)

    def q(num):
        k, r = divmod(num * (n - 1), 10)
        return s[k] if not r else s[k] + (s[k + 1] - s[k]) * r / 10
    w = q(9) - q(1)
    c.le('whole metres nearest to the range of the middle 80 %', o.value, w + 0.5, tol=1e-9)
    c.le('whole metres nearest to the range of the middle 80 % (other side)', w - 0.5, o.value, tol=1e-9)
    c.le('not negative', 0, o.value)


# ------------------------------------------------------------------ models of the packages
class Pt:
    def __init__(self, x, y=None):
        if y is None:
            x, y = x
        self.x, self.y = x, y
        self.coords = [(x, y)]

    def buffer(self, r, *a, **k):
        return Disc(self.x, self.y, r)


class Disc:
    """A disc; images under a projection keep the pre-image's radius and the image of the centre."""
    def __init__(self, x, y, r):
        self.x, self.y, self.r = x, y, r


class Line:
    def __init__(self, coords):
        self.c = [tuple(p) for p in coords]
        assert len(self.c) == 2
        (x0, y0), (x1, y1) = self.c
        dx, dy = x1 - x0, y1 - y0
        self.length = gm.sqrt(dx * dx + dy * dy)
        self.coords = self.c

    def interpolate(self, s, normalized=False):
        (x0, y0), (x1, y1) = self.c
        if not normalized:
            s = s / self.length
        # positions outside the line are clamped to its ends
        s = gm.mn(gm.mx(s, 0), 1)
        return Pt(x0 + (x1 - x0) * s, y0 + (y1 - y0) * s)


class Box:
    def __init__(self, **k):
        self.__dict__.update(k)


def same(p, q):
    return all(bool(a == b) for a, b in zip(p, q))


def geo(c, dist=None, plane=None, pixels=None, ends=None):
    """(fakes, log).  dist: geodesic length of the line between `ends`; plane: elevation at (x, y);
    pixels: the elevations of the raster cells inside an area."""
    log = {}
    if not c.symbolic:
        return None, log
    from symx import engine as E

    class Geod:
        def __init__(self, init='', ellps='', a=None, **k):
            s = '%s %s' % (init, ellps)
            self.ok = 'WGS84' in s or 'GRS80' in s or a == 6378137.0

        def _len(self, p, q, radians=False):
            if callable(dist) and self.ok and not radians:
                return dist(p, q)
            if self.ok and not radians and (same(p, ends[0]) and same(q, ends[1]) or same(p, ends[1]) and same(q, ends[0])):
                return dist
            # another ellipsoid, other points: some other length
            from .scripts import U
            return U('Elsewhere', *p, *q, lo=0)

        def geometry_length(self, g, radians=False):
            log['line'] = g
            return self._len(g.c[0], g.c[-1], radians)

        def inv(self, lon1, lat1, lon2, lat2, radians=False, **k):
            return 0, 0, self._len((lon1, lat1), (lon2, lat2), radians)

        def line_length(self, lons, lats, radians=False):
            return self._len((lons[0], lats[0]), (lons[-1], lats[-1]), radians)

    class CRS:
        """A coordinate system: {'proj': ..., 'lon_0': ...} or {'epsg': ...}"""
        def __init__(self, x=None, **k):
            self.p = dict(crs_params(x), **k)

        from_string = from_proj4 = from_user_input = from_dict = staticmethod(lambda x, **k: CRS(x, **k))
        from_epsg = staticmethod(lambda x: CRS({'epsg': int(x)}))

    def crs_params(x):
        if x is None:
            return {}
        if isinstance(x, CRS):
            return x.p
        if isinstance(x, int):
            return {'epsg': x}
        if isinstance(x, dict):
            return dict(x)
        if x.lower().startswith('epsg:'):
            return {'epsg': int(x[5:])}
        out = {}
        for w in x.split():
            k, _, v = w.lstrip('+').partition('=')
            out[k] = v
        if 'init' in out:
            out.update(crs_params(out['init']), old=True)
        return out

    def num(x):
        if isinstance(x, str):
            return E.TOKENS[x] if E.TOKENS and x in E.TOKENS else float(x)
        return x

    class Tr:
        """Azimuthal equidistant <-> geographic, near its origin"""
        def __init__(self, a, b, always_xy=False):
            a, b = crs_params(a), crs_params(b)
            self.back = a.get('proj') == 'aeqd'
            s, g = (a, b) if self.back else (b, a)
            assert s.get('proj') == 'aeqd' and ('epsg' in g or g.get('proj') in ('longlat', 'latlong'))
            z = lambda k, d=0: num(s.get(k, d))
            self.o = (z('lon_0'), z('lat_0'))
            self.f = (z('x_0'), z('y_0'))
            self.unit = 1000 if s.get('units') == 'km' else num(s.get('to_meter', 1))
            # (the axes of EPSG:4326 are latitude, longitude)
            self.xy = always_xy or g.get('old') or 'proj' in g
            self.geo = g.get('epsg', 4326) in (4326, 4979)

        @staticmethod
        def from_crs(a, b, always_xy=False, **k):
            return Tr(a, b, always_xy)

        from_proj = from_crs

        def transform(self, x, y, *r, direction='FORWARD', **kw):
            assert self.back == (str(direction).rsplit('.')[-1].upper() in ('FORWARD', 'IDENT')), 'to the geographic system'
            assert self.geo
            k = self.unit / 111194.9
            x, y = x - self.f[0], y - self.f[1]
            lon, lat = self.o
            if not (isinstance(x, (int, float)) and x == 0):
                lon = lon + x * k / gm.cos(lat * math.pi / 180)
            if not (isinstance(y, (int, float)) and y == 0):
                lat = lat + y * k
            return (lon, lat) if self.xy else (lat, lon)

    def transform(f, g):
        x, y = f(g.x, g.y)[:2]
        return Disc(x, y, g.r * getattr(getattr(f, '__self__', None), 'unit', 1))

    def point_query(pts, dem, *a, **k):
        if isinstance(pts, Pt):
            pts = [pts]
        log['dem'] = dem
        if k.get('interpolate', 'bilinear') != 'bilinear':
            from .scripts import U
            return [U('Cell', p.x, p.y) for p in pts]
        return [plane(p.x, p.y) for p in pts]

    def gen_zonal_stats(areas, dem, layer=0, band=1, nodata=None, affine=None, stats=None, all_touched=False,
                        categorical=False, category_map=None, add_stats=None, **k):
        if not isinstance(areas, (list, tuple)):
            areas = [areas]
        for a in areas:
            log['area'], log['dem'] = a, dem
            out = {}
            for n, f in (add_stats or {}).items():
                out[n] = f(pixels(a, nodata))
            yield out

    def mapping(p):
        return {'type': 'Point', 'coordinates': (p.x, p.y)}
    import types
    P = types.ModuleType('pyproj')
    P.Geod, P.Transformer, P.CRS, P.Proj = Geod, Tr, CRS, CRS
    S = types.ModuleType('shapely.geometry')
    S.Point, S.LineString, S.mapping = Pt, Line, mapping
    O = types.ModuleType('shapely.ops')
    O.transform = transform
    Q = types.ModuleType('rasterstats')
    Q.point_query, Q.gen_zonal_stats = point_query, gen_zonal_stats
    Q.zonal_stats = lambda *a, **k: list(gen_zonal_stats(*a, **k))
    SH = types.ModuleType('shapely')
    SH.geometry, SH.ops = S, O
    return {'pyproj': P, 'shapely.geometry': S, 'shapely.ops': O, 'rasterstats': Q, 'shapely': SH}, log


def write_raster(path, west, north, step, nx, ny, fn):
    import numpy as np
    import rasterio
    from rasterio.transform import from_origin
    lon = west + (np.arange(nx) + 0.5) * step
    lat = north - (np.arange(ny) + 0.5) * step
    a = fn(lon[None, :], lat[:, None]).astype('float64')
    with rasterio.open(path, 'w', driver='GTiff', width=nx, height=ny, count=1, dtype='float64', crs='EPSG:4326',
                       transform=from_origin(west, north, step, step), nodata=-9999) as f:
        f.write(a, 1)


# ------------------------------------------------------------------ profile along a path
def h_profile(c, lo, hi, span):
    x0, y0 = c.real('lon', -170, 170), c.real('lat', -60, 60)
    u, v = c.real('u', -1, 1), c.real('v', -1, 1)
    x1, y1 = x0 + u * span, y0 + v * span
    c.assume((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0) > 1e-6 * span * span)
    A, B, C = c.real('h', -1000, 8000), c.real('hx', -600, 600), c.real('hy', -600, 600)
    plane = lambda x, y: A + (x - x0) / span * B + (y - y0) / span * C
    line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(x0, y0), (x1, y1)]}, 'properties': {}}
    d = c.real('dist', lo, hi)
    tmp = None
    try:
        if c.symbolic:
            fakes, log = geo(c, d, plane, ends=((x0, y0), (x1, y1)))
            m = c.module('terrain_module', fakes=fakes)
            dem = 'dem.tif'
        else:
            m = c.module('terrain_module')
            import pyproj
            d = pyproj.Geod(ellps='WGS84').line_length([x0, x1], [y0, y1])
            tmp = tempfile.mkdtemp(prefix='verif-')
            dem = os.path.join(tmp, 'dem.tif')
            st = 2.6 * span / 64
            write_raster(dem, x0 - 32 * st, y0 + 32 * st, st, 64, 64, plane)
        o = c.run(m.terrain_p2p, dem, line)
    finally:
        if tmp:
            shutil.rmtree(tmp)
    if not o.ok:
        return c.fail('terrain profile', o.err)
    prof, km, pts = o.value
    c.eq('distance in kilometres', km, d / 1000, obs=False)
    n = len(prof)
    c.true('between 2 and 600 samples', 2 <= n <= 600)
    c.true('one sampling point per profile value', len(pts) == n)
    x = nsamples(d)
    c.le('number of samples', n, x + 0.5, tol=1e-6)
    c.le('number of samples (other side)', x - 0.5, n, tol=1e-6)
    if len(pts) != n or n < 2:
        return
    for i in range(n):
        f = i / (n - 1) if not c.symbolic else frac(i, n - 1)
        x, y = x0 + (x1 - x0) * f, y0 + (y1 - y0) * f
        g = pts[i]['geometry']['coordinates']
        t = 'first sample is at the transmitter' if i == 0 else 'last sample is at the receiver' if i == n - 1 else 'evenly spaced samples'
        c.eq(t, [g[0], g[1]], [x, y], obs=False)
        c.eq('profile value is the elevation at its point', prof[i], plane(x, y), tol=1e-6, obs=False)
        c.eq('point carries its elevation', pts[i]['properties']['elevation'], plane(x, y), tol=1e-6, obs=False)


def frac(a, b):
    from fractions import Fraction
    return Fraction(a, b)


# ------------------------------------------------------------------ irregularity of an area
def h_area(c, n):
    lon, lat = c.real('lon', -170, 170, pts=(0,)), c.real('lat', -60, 60, pts=(0,))
    r = c.real('range', 100, 30000)
    v = [c.real('v%d' % i, -400, 3000, pts=(0,)) for i in range(n)]
    tmp = None
    if c.symbolic:
        got = []

        def pixels(a, nodata):
            got.append(a)
            import numpy as np
            data = np.empty((1, n + 2), dtype=object)
            data[0, :] = [out[0]] + list(v) + [out[1]]
            # cells holding the value declared to mean "no data" are masked, too
            gone = [nodata is not None and bool(x == nodata) for x in v]
            return np.ma.MaskedArray(data, mask=[[True] + gone + [True]])
        # cells outside the disc (masked) hold anything
        out = [c.real('out0', -9999, 9000), c.real('out1', -9999, 9000)]
        fakes, log = geo(c, pixels=pixels)
        m = c.module('terrain_module', fakes=fakes)
        from symx import engine as E
        E.TOKENS = {}
        try:
            o = c.run(m.terrain_area, 'dem.tif', lon, lat, r)
        finally:
            E.TOKENS = None
        if not o.ok:
            return c.fail('terrain irregularity of an area', o.err)
        c.true('one area', len(got) == 1)
        a = got[0]
        c.eq('centred on the site', [a.x, a.y], [lon, lat], obs=False)
        c.eq('radius is the cell range', a.r, r, obs=False)
        c.true('of the given elevation model', log['dem'] == 'dem.tif')
        w = c.run(m.interdecile_range, list(v))
        c.eq('interdecile range of the elevations inside', o.value, w.value, obs=False)
        return
    import numpy as np
    import pyproj
    m = c.module('terrain_module')
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        dem = os.path.join(tmp, 'dem.tif')
        k = 111194.9
        w = 2.4 * r / k / math.cos(math.radians(lat))
        st = 2 * w / 160
        f = lambda x, y: 500 + v[0] / 3 * (x - lon) / w + v[-1] / 3 * (y - lat) / w + 0.1 * v[-1] * np.sin((x - lon) / w * 9)
        write_raster(dem, lon - 80 * st, lat + 80 * st, st, 160, 160, f)
        o = c.run(m.terrain_area, dem, lon, lat, r)
        # cells that take the values in turn
        turn = lambda x, y: np.choose((np.arange(160)[None, :] + np.arange(160)[:, None]) % n, v)
        write_raster(dem, lon - 80 * st, lat + 80 * st, st, 160, 160, turn)
        o2 = c.run(m.terrain_area, dem, lon, lat, r)
    finally:
        shutil.rmtree(tmp)
    if not (o.ok and o2.ok):
        return c.fail('terrain irregularity of an area', o.err or o2.err)
    xs = lon - 80 * st + (np.arange(160) + 0.5) * st
    ys = lat + 80 * st - (np.arange(160) + 0.5) * st
    X, Y = np.meshgrid(xs, ys)
    g = pyproj.Geod(ellps='WGS84')
    D = g.inv(np.full(X.size, lon), np.full(X.size, lat), X.ravel(), Y.ravel())[2]
    # cells on the rim may fall either way
    E = f(X, Y).ravel()
    a, b = [float(np.subtract(*np.percentile(E[D <= r * s], [90, 10]))) for s in (0.96, 1.04)]
    tol = 1 + 0.02 * max(a, b)
    c.goals.append(('interdecile range of the elevations inside', min(a, b) - tol <= o.value <= max(a, b) + tol, float(o.value), [a, b]))
    if hasattr(m, 'geodesic_point_buffer'):
        o = c.run(m.geodesic_point_buffer, lon, lat, r)
        if not o.ok:
            return c.fail('the area around a site', o.err)
        xy = np.array(o.value.exterior.coords)[:, :2]
        D = g.inv(np.full(len(xy), lon), np.full(len(xy), lat), xy[:, 0], xy[:, 1])[2]
        c.goals.append(('centred on the site', bool(np.all(np.abs(D - r) <= 1e-3 * r)), [float(min(D)), float(max(D))], r))
    e = max(v) - min(v)
    c.goals.append(('range of equally frequent elevations', abs(o2.value - e) <= 0.5 + 1e-6, float(o2.value), e))


# ------------------------------------------------------------------ the line of a path
def h_line(c, script):
    from . import scripts
    m = scripts.quiet(c.module(script, scripts.p2p_stubs(c)))
    v = [c.real(k, -180, 180) for k in ('ax', 'ay', 'bx', 'by')]
    pt = lambda x, y: {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': (x, y)}, 'properties': {'id': 'site'}}
    a, b = pt(v[0], v[1]), pt(v[2], v[3])
    o = c.run(m.straight_line_from_points, a, b)
    if not o.ok:
        return c.fail('line of the path', o.err)
    g = o.value['geometry']
    c.true('a line of two points', g['type'] == 'LineString' and len(g['coordinates']) == 2)
    c.eq('from the first site to the second', [list(x) for x in g['coordinates']], [v[:2], v[2:]])
    c.eq('sites unchanged', [list(a['geometry']['coordinates']), list(b['geometry']['coordinates'])], [v[:2], v[2:]], obs=False)


# ------------------------------------------------------------------ repeated calls (C22)
def h_repeat(c, what, n=2):
    """A call gives what it gives in a fresh interpreter, after a call with other arguments."""
    from .scripts import U
    import contextlib

    def args(tag):
        if what == 'number':
            return (c.real('d' + tag, 0, 3e5),)
        if what == 'decile':
            return ([c.real('v%d%s' % (i, tag), -400, 9000) for i in range(3)],)
        x, y = c.real('lon' + tag, 10, 10.3), c.real('lat' + tag, 50, 50.3)
        if what in ('buffer', 'area'):
            return (x, y, c.real('range' + tag, 1000, 20000))
        u, v = c.real('u' + tag, -1, 1), c.real('v' + tag, -1, 1)
        c.assume(u * u + v * v > 0.01)
        return ({'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(x, y), (x + u * 2e-5, y + v * 2e-5)]}, 'properties': {}},)
    name = {'number': 'determine_num_samples', 'decile': 'interdecile_range', 'buffer': 'geodesic_point_buffer', 'area': 'terrain_area', 'profile': 'terrain_p2p'}[what]

    def pixels(a, nodata):
        import numpy as np
        data = np.empty((1, n), dtype=object)
        data[0, :] = [U('Cell%d' % i, a.x, a.y, a.r, lo=-400, hi=9000) for i in range(n)]
        return np.ma.MaskedArray(data, mask=False)

    def load():
        if not c.symbolic:
            return c.module('terrain_module')
        return c.module('terrain_module', fakes=geo(c, lambda p, q: U('Geodesic', *p, *q, lo=0.1, hi=2.5), lambda x, y: U('Elevation', x, y), pixels)[0])

    def view(v):
        if isinstance(v, Disc):
            return [v.x, v.y, v.r]
        if hasattr(v, 'bounds'):
            return list(v.bounds)
        if what == 'profile':
            return [list(v[0]), v[1], [[list(p['geometry']['coordinates']), p['properties']['elevation']] for p in v[2]]]
        return v
    a, b = args('_before'), args('')
    with contextlib.ExitStack() as st:
        if what in ('area', 'profile'):
            dem = 'dem.tif'
            if not c.symbolic:
                import numpy as np
                tmp = tempfile.mkdtemp(prefix='verif-')
                st.callback(shutil.rmtree, tmp)
                dem = os.path.join(tmp, 'dem.tif')
                write_raster(dem, 9.5, 50.8, 0.01, 130, 130, lambda x, y: 300 + 5000 * np.sin(7 * x + 3 * y) * np.cos(11 * y) * (x - 9.4))
            a, b = (dem,) + a, (dem,) + b
        if c.symbolic:
            from symx import engine as E
            E.TOKENS = {}
            st.callback(setattr, E, 'TOKENS', None)
        m = load()
        first = c.run(getattr(m, name), *a)
        kept = copy(view(first.value)) if first.ok else None
        o = c.run(getattr(m, name), *b)
        w = c.run(getattr(load(), name), *b)
    if not w.ok:
        return
    if not o.ok:
        return c.fail('result after another call', o.err)
    c.eq('result does not depend on an earlier call', view(o.value), view(w.value), obs=False)
    if first.ok:
        c.eq('an earlier result is not changed by a later call', view(first.value), kept, obs=False)


def copy(v):
    return [copy(x) for x in v] if isinstance(v, (list, tuple)) else v


def repeats(tier):
    return [Ob('terrain, %s, after another call' % w, h_repeat, {'what': w}, pool_n=500) for w in ('number', 'decile', 'buffer', 'area', 'profile')]


def terrain(tier):
    out = [Ob('number of samples, near', h_number, {'lo': 0, 'hi': 1000}), Ob('number of samples', h_number, {'lo': 0, 'hi': 1e7}),
           Ob('number of samples never falls', h_number_monotone, {'lo': 0, 'hi': 1e7})]
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        out.append(Ob('interdecile range, n=%d' % n, h_interdecile, {'n': n}))
    spans = [(0, 2.5, 1e-5), (1000, 1000.4, 0.006), (50e3, 50.02e3, 0.3)]
    if tier != 'quick':
        spans += [(2, 12, 5e-5), (10e3, 10.01e3, 0.06), (5e5, 5.2e5, 3.0)]
    for lo, hi, span in spans:
        out.append(Ob('profile, %g to %g m' % (lo, hi), h_profile, {'lo': lo, 'hi': hi, 'span': span}, pool_n=500))
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        out.append(Ob('area of %d cells' % n, h_area, {'n': n}))
    for s in ('p2p', 'p2p_2tiles'):
        out.append(Ob('line of a path, ' + s, h_line, {'script': s}))
    return out
