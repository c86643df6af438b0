"""Preparatory routines: system parameters, siting, horizons, fits, terrain irregularity."""
import math

from .common import *

KST = (-1, 0, 1, 2, 3)


# ------------------------------------------------------------------ C12
def h_qlrps(c, ipol):
    f = c.fn(M_QLRPS, 'qlrps')
    a = [c.real('fmhz', 1, 1e5), c.real('zsys', -1000, 2e4, pts=(0,)), c.real('en0', 50, 800),
         ipol, c.real('eps', 1.001, 1000, pts=(15, 80)), c.real('sgm', 0, 100, pts=(0, 0.005, 5))]
    o = c.run(f, *a)
    w = undefined_ok(c, 'system parameters', o, lambda: R.qlrps(*a))
    if w is None:
        return
    wn, gme, ens, z = o.value
    c.eq('wave number', wn, w[0])
    c.eq('effective earth curvature', gme, w[1], atol=1e-16)
    c.eq('surface refractivity', ens, w[2])
    c.eq('surface impedance, resistance', z.real, w[3])
    c.eq('surface impedance, reactance', z.imag, w[4])


def h_qlrps_sign(c, ipol):
    """The impedance is passive (non-negative resistance); curvature does not exceed the actual one."""
    f = c.fn(M_QLRPS, 'qlrps')
    a = [c.real('fmhz', 20, 20000), c.real('zsys', 0, 9000, pts=(0,)), c.real('en0', 200, 450),
         ipol, c.real('eps', 1.001, 100, pts=(15, 80)), c.real('sgm', 0, 10, pts=(0, 0.005, 5))]
    o = c.run(f, *a)
    if not o.ok:
        return c.fail('system parameters', o.err)
    wn, gme, ens, z = o.value
    c.le('passive ground', 0, z.real)
    c.le('curvature below the actual earth\'s', gme, R.GMA)
    c.le('surface refractivity falls with elevation', ens, a[2])


def qlrps(tier):
    return [Ob('ipol=%d' % i, h_qlrps, {'ipol': i}) for i in (0, 1, 2)] + \
           [Ob('physical range, ipol=%d' % i, h_qlrps_sign, {'ipol': i}) for i in (0, 1)]


# ------------------------------------------------------------------ C13
def h_qlra(c, kst, mdvarx=(12,), klimx=(5,), lvars=(0,), flags=False):
    f = c.fn(M_QLRA, 'qlra')
    p = {'hg': [c.real('hg0', 0.1, 2e4, pts=(5,)), c.real('hg1', 0.1, 2e4, pts=(5,))],
         'dh': c.real('dh', 0, 2e4, pts=(0, 0.001, 90)), 'gme': gme(c), 'wn': c.real('wn', 0.4, 450),
         'ens': 301, 'zgnd': complex(3, 0.1), 'kwx': 0, 'klim': 1, 'mdvar': 0}
    if flags:
        # the flags do not touch the terminals
        p['hg'], p['dh'] = [3.0, 12.0], 90.0
    pick = lambda n, v: v[c.integer(n, 0, len(v) - 1)] if len(v) > 1 else v[0]
    mv, kl, lv = pick('mdvarx_index', mdvarx), pick('klimx_index', klimx), pick('lvar_index', lvars)
    q = dict(p, hg=list(p['hg']), mdvarx=mv, klimx=kl, lvar=lv)
    k = list(kst)
    o = c.run(f, k, q)
    w = undefined_ok(c, 'area terminals', o, lambda: [R.area_terminal(kst[j], p['hg'][j], p['dh'], p['gme']) for j in (0, 1)])
    if w is None:
        return
    out = o.value
    for j in (0, 1):
        c.eq('effective height %d' % j, out['he'][j], w[j][0])
        c.eq('horizon distance %d' % j, out['dl'][j], w[j][1])
        c.eq('horizon angle %d' % j, out['the'][j], w[j][2])
    c.eq('area mode is started', out['mdp'], 1)
    want = max(lv, 3)
    if mv >= 0:
        want = max(want, 4)
        c.eq('mode of variability', out['mdvar'], mv)
    else:
        c.eq('mode of variability kept', out['mdvar'], 0)
    if kl > 0:
        want = 5
        c.eq('climate', out['klim'], kl)
    else:
        c.eq('climate kept', out['klim'], 1)
    c.eq('refresh level', out['lvar'], want)
    for key in ('hg', 'dh', 'gme', 'wn', 'ens', 'kwx'):
        c.eq('input %s unchanged' % key, out[key], p[key])
    c.eq('siting unchanged', k, list(kst))


def h_qlra_heights(c, kst):
    f = c.fn(M_QLRA, 'qlra')
    p = {'hg': [c.real('hg0', 0.3, 1000, pts=(5,)), 10.0], 'dh': c.real('dh', 0, 1000, pts=(0,)),
         'gme': gme(c), 'mdvarx': 12, 'klimx': 5, 'lvar': 0, 'mdvar': 0, 'klim': 1}
    o = c.run(f, [kst, 0], dict(p, hg=list(p['hg'])))
    if not o.ok:
        return c.fail('area terminals', o.err)
    he = o.value['he'][0]
    if kst <= 0:
        c.eq('random siting: the structural height', he, p['hg'][0])
    else:
        c.le('good siting never lowers the terminal', p['hg'][0], he)
        c.le('gain of siting is bounded', he, p['hg'][0] + (5 if kst == 1 else 10))


def qlra(tier):
    out = []
    pairs = [(a, b) for a in KST for b in KST]
    for a, b in pairs:
        out.append(Ob('siting %d,%d' % (a, b), h_qlra, {'kst': (a, b)}))
    for mv in (-1, 0, 3, 12):
        out.append(Ob('flags, mdvarx=%d' % mv, h_qlra, {'kst': (0, 1), 'mdvarx': (mv,), 'klimx': (-1, 0, 1, 5, 7, 8),
                                                       'lvars': (0, 1, 2, 3, 4, 5), 'flags': True}))
    for k in (0, 1, 2):
        out.append(Ob('gain of siting, kst=%d' % k, h_qlra_heights, {'kst': k}))
    return out


# ------------------------------------------------------------------ C14
def likely(c, n, lo, hi):
    """Only when a concrete counterexample is looked for: terrain of ordinary shape for two inputs out of three."""
    r, k = c.rng, c.seed % 6
    if k > 3:
        return
    d = math.exp(r.uniform(math.log(1e3), math.log(1.5e5)))
    g = r.uniform(1e-7, 1.7e-7)
    h = math.exp(r.uniform(-0.6, 4))
    if k == 0:
        d = 2 * math.sqrt(2 * h / g) * r.uniform(0.8, 1.5)
    bulge = g * d * d / 8
    x = [i / n for i in range(n + 1)]
    amp = math.exp(r.uniform(math.log(0.3), math.log(300)))
    if k == 0:            # a valley (line of sight), hardly deeper than the earth's bulge
        amp = bulge * r.uniform(0.1, 1.6)
        z = [4 * amp * (u - 0.5) ** 2 for u in x]
    elif k == 1:          # a ridge
        m = r.randint(1, n) if n > 1 else 0
        z = [0.1 * amp * r.rand() for u in x]
        z[m] += 5 * amp + bulge
    elif k == 2:          # two ridges
        z = [0.1 * amp * r.rand() for u in x]
        for _ in (0, 1):
            z[r.randint(1, n) if n > 1 else 0] += r.uniform(0.5, 5) * amp + bulge
    else:                 # rolling terrain
        z = [amp * r.rand() for u in x]
    b = r.uniform(0, 300)
    c.inputs.update({'z%d' % i: min(max(v + b, lo), hi) for i, v in enumerate(z)})
    if k == 0:
        hg = [h * r.uniform(0.7, 1.4) for _ in (0, 1)]
    else:
        hg = [math.exp(r.uniform(-0.6, 5)) for _ in (0, 1)]
    c.inputs.update(xi=d / n, gme=g, hg0=hg[0], hg1=hg[1])


def profile(c, n, lo=-400, hi=9000, dxi=(0.5, 50000)):
    if not c.symbolic and c.rng is not None and 'xi' not in c.inputs:
        likely(c, n, lo, hi)
    xi = c.real('xi', *dxi)
    return [n, xi] + [c.real('z%d' % i, lo, hi) for i in range(n + 1)]


def h_hzns(c, n, free=None):
    """free: the profile points that vary (default all of them)"""
    f = c.fn(M_HZNS, 'hzns')
    if free is None:
        pfl = profile(c, n)
        h = [c.real('hg0', 0.5, 3000), c.real('hg1', 0.5, 3000)]
        g = gme(c)
    else:
        pfl = [n, 100.0] + [c.real('z%d' % i, 0, 3000) if i in free else 40 + (7 * i) % 5 for i in range(n + 1)]
        h, g = [20.0, 35.0], 1.2e-7
    dist = n * pfl[1]
    arg, hh = list(pfl), list(h)
    o = c.run(f, arg, dist, hh, g)
    w = undefined_ok(c, 'horizons', o, lambda: R.horizons(pfl, dist, h, g))
    if w is None:
        return
    the, dl = o.value
    c.eq('horizon angle 0', the[0], w[0][0])
    c.eq('horizon angle 1', the[1], w[0][1])
    # the distance is that of a point which is seen under the horizon angle (ties may go either way)
    z = [pfl[2] + h[0], pfl[n + 2] + h[1]]
    far = [z[1], z[0]]
    for j in (0, 1):
        hit = False
        for i in range(1, n + 1):
            if c.symbolic:
                hit = bool(dl[j] == i * pfl[1])
            else:
                hit = abs(dl[j] - i * pfl[1]) < 1e-6 * pfl[1]
            if hit:
                break
        c.true('horizon %d lies on the profile' % j, hit)
        if hit:
            s = i * pfl[1]
            top = far[j] if i == n else pfl[2 + (i if j == 0 else n - i)]
            c.eq('horizon %d is seen under the horizon angle' % j, the[j], (top - z[j]) / s - 0.5 * g * s)
    c.eq('profile unchanged', arg, pfl)
    c.eq('heights unchanged', hh, h)


def hzns(tier):
    ns = (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6)
    out = [Ob('n=%d' % n, h_hzns, {'n': n}) for n in ns]
    # long profiles (the model takes up to 600 points), two points varying
    for n, free in ((40, (1, 39)), (40, (12, 27)), (650, (300, 603))) + (((650, (3, 649)),) if tier != 'quick' else ()):
        out.append(Ob('n=%d, points %d and %d vary' % ((n,) + free), h_hzns, {'n': n, 'free': free}))
    return out


# ------------------------------------------------------------------ C15
def interval(c, n, xi, free=False):
    u1 = c.real('u1', 0, n, pts=(0, 1, n - 1))
    u2 = c.real('u2', 0, n, pts=(n, 1, n - 1))
    if not free:
        c.assume(u1 <= u2)
    return u1 * xi, u2 * xi


def h_zlsq1(c, n):
    f = c.fn(M_ZLSQ1, 'zlsq1')
    z = profile(c, n, -400, 9000)
    x1, x2 = interval(c, n, z[1])
    arg = list(z)
    o = c.run(f, arg, x1, x2)
    w = undefined_ok(c, 'fitted line', o, lambda: R.straight_fit(z, x1, x2))
    if w is None:
        return
    c.eq('fitted line', list(o.value), list(w))
    c.eq('profile unchanged', arg, z)


def h_zlsq1_long(c, n, x):
    f = c.fn(M_ZLSQ1, 'zlsq1')
    z = profile(c, n, -400, 9000, (90, 90) if n > 50 else (30, 2000))
    arg = list(z)
    o = c.run(f, arg, x[0] * z[1], x[1] * z[1])
    w = undefined_ok(c, 'fitted line', o, lambda: R.straight_fit(z, x[0] * z[1], x[1] * z[1]))
    if w is None:
        return
    c.eq('fitted line', list(o.value), list(w))
    c.eq('profile unchanged', arg, z)


def h_zlsq1_line(c, n):
    f = c.fn(M_ZLSQ1, 'zlsq1')
    a, b = c.real('a', -400, 9000), c.real('b', -500, 500)
    xi = c.real('xi', 30, 2000)
    x1, x2 = interval(c, n, xi)
    o = c.run(f, [n, xi] + [a + b * i for i in range(n + 1)], x1, x2)
    if not o.ok:
        return c.fail('fitted line', o.err)
    c.eq('a straight profile is its own fit', list(o.value), [a, a + b * n])


def h_zlsq1_beyond(c, n):
    """Ends outside the profile are clipped to it."""
    f = c.fn(M_ZLSQ1, 'zlsq1')
    z = profile(c, n, -400, 9000)
    x1 = c.real('u1', -5, 0) * z[1]
    x2 = c.real('u2', n, n + 5) * z[1]
    o = c.run(f, list(z), x1, x2)
    if not o.ok:
        return c.fail('fitted line', o.err)
    c.eq('ends are clipped to the profile', list(o.value), list(R.straight_fit(z, 0, n * z[1])))


def zlsq1(tier):
    ns = (1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 10)
    out = [Ob('n=%d' % n, h_zlsq1, {'n': n}) for n in ns]
    out += [Ob('straight profile, n=%d' % n, h_zlsq1_line, {'n': n}) for n in (1, 2, 4) + ((7, 12) if tier != 'quick' else ())]
    out += [Ob('interval beyond the profile, n=%d' % n, h_zlsq1_beyond, {'n': n}) for n in (1, 3)]
    for n, x in ((20, (0, 20)), (20, (2.5, 16.5)), (120, (0.5, 119.5)), (640, (0, 640)), (640, (7.5, 610.5))):
        out.append(Ob('n=%d, samples %s to %s' % (n, x[0], x[1]), h_zlsq1_long, {'n': n, 'x': x}))
    return out


# ------------------------------------------------------------------ C16
class Kth:
    """Order statistic, abstracted (that qtile is one is C19's): same values, same rank, same result;
    a higher rank is not larger."""
    def __init__(self, c):
        self.c = c
        self.seen = []
        self.sort = False        # an order statistic does not depend on the order of the values

    def __call__(self, v, k):
        v = list(v)
        if not self.c.symbolic:
            return sorted(v, reverse=True)[k]
        from symx import uf, engine as E
        if all(not gm._s(x) for x in v):
            return sorted(v, reverse=True)[k]
        if 'Kth' not in uf.NUMERIC:
            uf.register('Kth', lambda k, *r: sorted(r, reverse=True)[int(k)])
        if self.sort:
            v.sort(key=lambda x: E.CUR.rep(E.lift(x)).key)
        r = uf.uf_call('Kth', [k] + v)
        key = tuple(E.CUR.rep(E.lift(x)) for x in v)
        for kk, key2, r2 in self.seen:
            if key2 == key and kk != k:
                self.c.assume(r2 >= r if kk < k else r2 <= r)
        self.seen.append((k, key, r))
        return r

    def stubs(self):
        return {(M_QTILE, 'qtile'): self} if self.c.symbolic else {}


def dl_interval(c, n, xi, x):
    """x: fractions of the spacing, or ranges of them"""
    out = []
    for k, v in zip(('u1', 'u2'), x):
        u = c.real(k, *v) if isinstance(v, tuple) else v
        out.append(u * xi)
    return out


def heights(c, n, free):
    if free is None or n + 1 <= free:
        return [c.real('z%d' % i, -100, 5000) for i in range(n + 1)]
    import math
    at = {round(j * n / (free - 1)): j for j in range(free)}
    return [c.real('z%d' % i, -100, 5000) if i in at else 100 + 3 * ((7 * i) % 11) for i in range(n + 1)]


def h_dlthx(c, n, x, free=None, xi=None):
    k = Kth(c)
    f = c.fn(M_DLTHX, 'dlthx', k.stubs())
    xi = c.real('xi', 30, 2000) if xi is None else xi
    z = [n, xi] + heights(c, n, free)
    x1, x2 = dl_interval(c, n, xi, x)
    arg = list(z)
    o = c.run(f, arg, x1, x2)
    w = undefined_ok(c, 'terrain irregularity', o, lambda: R.terrain_irregularity(z, x1, x2, kth=k))
    if w is None:
        return
    c.eq('terrain irregularity', o.value, w, atol=1e-6)
    c.eq('profile unchanged', arg, z)


def h_dlthx_line(c, n, x):
    f = c.fn(M_DLTHX, 'dlthx')
    a, b = c.real('a', -400, 5000), c.real('b', -300, 300)
    xi = c.real('xi', 30, 2000)
    x1, x2 = dl_interval(c, n, xi, x)
    o = c.run(f, [n, xi] + [a + b * i for i in range(n + 1)], x1, x2)
    if not o.ok:
        return c.fail('terrain irregularity', o.err)
    c.eq('straight terrain is not irregular', o.value, 0, atol=1e-6)


def h_dlthx_ramp(c, n, x, free=None):
    k = Kth(c)
    f = c.fn(M_DLTHX, 'dlthx', k.stubs())
    xi = c.real('xi', 30, 2000)
    z = heights(c, n, free)
    a, b = c.real('a', -100, 1000), c.real('b', -100, 100)
    x1, x2 = dl_interval(c, n, xi, x)
    o1 = c.run(f, [n, xi] + z, x1, x2)
    o2 = c.run(f, [n, xi] + [v + a + b * i for i, v in enumerate(z)], x1, x2)
    if not (o1.ok and o2.ok):
        return c.fail('terrain irregularity', (o1.err or '') + (o2.err or ''))
    c.eq('a ramp under the terrain does not matter', o2.value, o1.value, atol=1e-6)
    c.le('not negative', 0, o1.value)


def dlthx(tier):
    cases = [(2, (0, 2)), (3, (0, 3)), (3, (0.25, 2.75)), (4, (0.5, 3.5)), (5, (0.05, 4.9)), (6, (1.3, 4.6)), (3, (0.9, 2.8)), (8, (2.5, 4.4))]
    out = []
    for n, x in cases:
        t = 'n=%d, x=%s..%s' % (n, x[0], x[1])
        out.append(Ob(t, h_dlthx, {'n': n, 'x': x}))
        out.append(Ob('ramp, ' + t, h_dlthx_ramp, {'n': n, 'x': x}))
    out.append(Ob('n=4, near end free', h_dlthx, {'n': 4, 'x': ((0, 0.9), 3.8)}))
    out.append(Ob('n=4, far end free', h_dlthx, {'n': 4, 'x': (0.3, (3.2, 4))}))
    out.append(Ob('n=60', h_dlthx, {'n': 60, 'x': (0.7, 58.9)}))
    out.append(Ob('n=100, few heights free', h_dlthx, {'n': 100, 'x': (1.5, 98.75), 'free': 8}))
    out.append(Ob('n=300, few heights free', h_dlthx, {'n': 300, 'x': (1.5, 298.75), 'free': 6}))
    out.append(Ob('n=650, few heights free', h_dlthx, {'n': 650, 'x': (20.5, 611.75), 'free': 6}))
    for n, x in [(2, (0, 2)), (5, (0.05, 4.9)), (60, (0.7, 58.9)), (4, ((0, 0.9), 3.8))]:
        out.append(Ob('straight, n=%d, %s' % (n, x), h_dlthx_line, {'n': n, 'x': x}))
    out.append(Ob('short interval', h_dlthx, {'n': 4, 'x': ((0, 2), (2, 4))} if tier != 'quick' else {'n': 4, 'x': (1.5, (1.5, 3.49))}))
    if tier != 'quick':
        for n, x in [(4, ((0, 1.9), 4)), (6, ((0, 0.99), 5.5)), (6, (0.2, (3, 6))), (10, (0.5, (9, 10))), (50, (0.1, (49, 50)))]:
            out.append(Ob('n=%d, %s' % (n, x), h_dlthx, {'n': n, 'x': x}))
        out.append(Ob('n=300', h_dlthx, {'n': 300, 'x': (1.5, 298.75), 'free': 60}))
    return out


# ------------------------------------------------------------------ C17
class Prep:
    """hzns, dlthx, zlsq1 and lrprop as uninterpreted functions of their arguments."""
    def __init__(self, c):
        self.c = c
        if c.symbolic:
            from symx import uf
            if 'Hz_t0' not in uf.NUMERIC:
                def hz(i, j):
                    def g(d, h0, h1, gm_, *pfl):
                        p = [int(pfl[0])] + list(pfl[1:])
                        return R.horizons(p, d, [h0, h1], gm_)[i][j]
                    return g
                for j in (0, 1):
                    uf.register('Hz_t%d' % j, hz(0, j))
                    uf.register('Hz_d%d' % j, hz(1, j))
                uf.register('Dlthx', lambda x1, x2, *p: R.terrain_irregularity([int(p[0])] + list(p[1:]), x1, x2))
                for j in (0, 1):
                    uf.register('Fit%d' % j, lambda x1, x2, *p, j=j: R.straight_fit([int(p[0])] + list(p[1:]), x1, x2)[j])

    def hzns(self, pfl, dist, hg, gme):
        if not self.c.symbolic:
            return R.horizons(pfl, dist, hg, gme)
        from symx.uf import uf_call
        a = [dist, hg[0], hg[1], gme] + list(pfl)
        return [uf_call('Hz_t%d' % j, a) for j in (0, 1)], [uf_call('Hz_d%d' % j, a, 1, 1e7) for j in (0, 1)]

    def dlthx(self, pfl, x1, x2):
        if not self.c.symbolic:
            return R.terrain_irregularity(pfl, x1, x2)
        from symx.uf import uf_call
        return uf_call('Dlthx', [x1, x2] + list(pfl), 0, 1e5)

    def fit(self, pfl, x1, x2):
        if not self.c.symbolic:
            return R.straight_fit(pfl, x1, x2)
        from symx.uf import uf_call
        return tuple(uf_call('Fit%d' % j, [x1, x2] + list(pfl)) for j in (0, 1))

    def stubs(self, log):
        if not self.c.symbolic:
            return {}

        def hz(pfl, dist, hg, gme):
            t, d = self.hzns(pfl, dist, hg, gme)
            return {0: t[0], 1: t[1]}, {0: d[0], 1: d[1]}

        def lrprop(d, prop):
            log.append((d, dict(prop)))
            prop['aref'] = 0
            return prop
        return {(M_HZNS, 'hzns'): hz, (M_DLTHX, 'dlthx'): self.dlthx, (M_ZLSQ1, 'zlsq1'): self.fit, (M_LRPROP, 'lrprop'): lrprop}


def h_qlrpfl(c, n, lvars=(0,), mdvarx=(12,), klimx=(5,), flags=False):
    P = Prep(c)
    log = []
    f = c.fn(M_QLRPFL, 'qlrpfl', P.stubs(log))
    if flags:
        pfl, h, g = [2, 5000.0, 10.0, 12.0, 9.0], [20.0, 30.0], 1.2e-7
    else:
        pfl = profile(c, n)
        h = [c.real('hg0', 0.5, 3000), c.real('hg1', 0.5, 3000)]
        g = gme(c)
    pick = lambda nm, v: v[c.integer(nm, 0, len(v) - 1)] if len(v) > 1 else v[0]
    mv, kl, lv = pick('mdvarx_index', mdvarx), pick('klimx_index', klimx), pick('lvar_index', lvars)
    q = {'pfl': list(pfl), 'hg': list(h), 'gme': g, 'wn': c.real('wn', 0.1, 1000), 'ens': 301.0, 'zgnd': complex(3, 0.1),
         'kwx': 0, 'mdp': -1, 'mdvarx': mv, 'klimx': kl, 'lvar': lv, 'mdvar': 0, 'klim': 1}
    wn = q['wn']
    o = c.run(f, q)

    def ref():
        w = R.p2p_geometry(pfl, h, g, P.hzns, P.dlthx, P.fit)
        if not c.symbolic:
            from . import chain
            w['aref'] = chain.p2p_aref(dict(w, hg=h, gme=g, wn=wn, ens=301.0, zgnd=complex(3, 0.1)))
        return w
    w = undefined_ok(c, 'path parameters', o, ref)
    if w is None:
        return
    out = o.value
    for k in ('dist', 'dh'):
        c.eq(k, out[k], w[k])
    for k in ('he', 'dl', 'the'):
        for j in (0, 1):
            c.eq('%s of terminal %d' % (k, j), out[k][j], w[k][j])
    c.eq('point-to-point mode', out['mdp'], -1)
    want = max(lv, 3)
    if mv >= 0:
        want = max(want, 4)
        c.eq('mode of variability', out['mdvar'], mv)
    else:
        c.eq('mode of variability kept', out['mdvar'], 0)
    if kl > 0:
        want = 5
        c.eq('climate', out['klim'], kl)
    else:
        c.eq('climate kept', out['klim'], 1)
    c.eq('refresh level', out['lvar'], want)
    c.eq('profile unchanged', out['pfl'], pfl)
    c.eq('structural heights unchanged', out['hg'], h)
    if c.symbolic:
        c.true('the reference attenuation is evaluated once', len(log) == 1)
        if len(log) == 1:
            s = log[0][1]
            c.eq('attenuation is evaluated for the whole path', s['dist'], w['dist'], obs=False)
            c.eq('... in point-to-point mode', s['mdp'], -1, obs=False)
            for k in ('he', 'dl', 'the'):
                for j in (0, 1):
                    c.eq('... with the final %s of terminal %d' % (k, j), s[k][j], w[k][j], obs=False)
            c.eq('... with the final dh', s['dh'], w['dh'], obs=False)
    else:
        c.goals.append(('reference attenuation of the path', abs(out['aref'] - w['aref']) <= 1e-6 * (1 + abs(w['aref'])), out['aref'], w['aref']))


def qlrpfl(tier):
    out = [Ob('n=%d' % n, h_qlrpfl, {'n': n}) for n in ((1, 2, 3, 12, 63, 623) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 12, 30, 63, 156, 303, 623, 1300))]
    for mv in (-1, 0, 12):
        out.append(Ob('flags, mdvarx=%d' % mv, h_qlrpfl, {'n': 2, 'mdvarx': (mv,), 'klimx': (-1, 0, 1, 7), 'lvars': (0, 3, 4, 5), 'flags': True}))
    return out
