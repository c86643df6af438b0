"""Reciprocity: exchanging the two terminals (and reversing the profile) changes nothing."""
from .common import *
from .stubs import *
from . import assembly, prep
from symx.ctx import Skip


def exchange(p):
    q = dict(p)
    for k in PAIR:
        if k in q:
            q[k] = [p[k][1], p[k][0]]
    return q


def twice(c, f, call, p, label):
    a = c.run(call, f, dict(exchange(exchange(p))))
    b = c.run(call, f, exchange(p))
    if a.ok != b.ok:
        if c.symbolic:
            c.fail(label, (a.err or '') + (b.err or ''))
        else:
            c.fail(label, 'only one direction has a value: ' + (a.err or b.err))
        return None
    return (a.value, b.value) if a.ok else None


def h_adiff0(c, mdp):
    f = c.fn(M_ADIFF, 'adiff')
    p = {'hg': hg(c), 'he': he(c), 'dl': dl(c), 'wn': wn(c), 'gme': gme(c), 'dh': dh(c), 'mdp': mdp,
         'dla': c.real('dla', 100, 8e5), 'dlsa': c.real('dlsa', 3000, 6e5), 'tha': c.real('tha', -0.1, 0.4), 'zgnd': cx(c, 'z')}
    w = twice(c, f, lambda f, q: f(0, q)[1], p, 'diffraction set-up')
    if w is None:
        return
    for k in SETUP_OUT:
        if k in w[0]:
            c.eq('diffraction constant %s is symmetric' % k, w[1][k], w[0][k])


def h_adiff(c):
    f = c.fn(M_ADIFF, 'adiff')
    p = {'dl': dl(c), 'wn': wn(c), 'gme': gme(c), 'dh': dh(c), 'tha': c.real('tha', -0.1, 0.4),
         'qk': c.real('qk', 0.01, 20), 'xht': c.real('xht', -500, 5e4), 'aht': c.real('aht', -300, 3000),
         'wd1': c.real('wd1', 0.1, 50), 'xd1': c.real('xd1', 0, 5e6), 'afo': c.real('afo', 0, 15)}
    p['dla'] = p['dl'][0] + p['dl'][1]
    d = c.real('d', 1e3, 3e6)
    c.assume(p['tha'] + p['dla'] * p['gme'] >= 0)
    c.assume(d > p['dla'])
    w = twice(c, f, lambda f, q: f(d, q)[0], p, 'diffraction attenuation')
    if w is not None:
        c.eq('diffraction attenuation is symmetric', w[1], w[0])


def h_alos(c):
    f = c.fn(M_ALOS, 'alos')
    p = {'he': he(c), 'wn': wn(c), 'dh': dh(c), 'zgnd': cx(c, 'z'), 'emd': c.real('emd', -1e-3, 1e-2),
         'aed': c.real('aed', -500, 500), 'wis': c.real('wis', 0, 1)}
    d = c.real('d', 10, 1e6)
    w = twice(c, f, lambda f, q: f(d, q), p, 'line-of-sight attenuation')
    if w is not None:
        c.eq('line-of-sight attenuation is symmetric', w[1], w[0])


def h_ascat(c, tie=False):
    stubs = {}
    if c.symbolic:
        from symx.uf import uf
        stubs = {(M_H0F, 'h0f'): uf('H01', R.h0f, lo=0), (M_AHD, 'ahd'): uf('F0', R.f0)}
    f = c.fn(M_ASCAT, 'ascat', stubs)
    p = {'the': the(c), 'he': he(c), 'wn': wn(c), 'gme': gme(c), 'ens': ens(c), 'tha': c.real('tha', -0.1, 0.8),
         'ad': 0 if tie else c.real('ad', 0, 4e5), 'rr': c.real('rr', 1e-4, 1e4), 'etq': c.real('etq', -0.3, 0.3),
         'h0s': c.real('h0s', -15, 60, pts=(-15, 0, 15)), 'ascat1': 0}
    d = c.real('d', 2e5, 1.3e6)
    c.assume(d > p['ad'])
    c.assume(p['tha'] >= p['the'][0] + p['the'][1])
    c.assume(p['tha'] + d * p['gme'] > 0)
    if tie:
        # equal horizon distances: the ratio of heights, which then has no preferred direction, does not matter
        a = c.run(f, d, exchange(exchange(p)))
        b = c.run(f, d, dict(exchange(p), rr=1 / p['rr']))
        w = (a.value, b.value) if a.ok and b.ok else None
    else:
        w = twice(c, f, lambda f, q: f(d, q), p, 'scatter attenuation')
    if w is not None:
        c.eq('scatter attenuation is symmetric', w[1]['ascat1'], w[0]['ascat1'])
        c.eq('frequency gain is symmetric', w[1]['h0s'], w[0]['h0s'])


class Symmetric(Leaves):
    """Leaves whose values do not change when the terminals are exchanged (shown separately)."""
    def order(self, p):
        if self.c.symbolic:
            from symx import engine as E
            k = [tuple(E.CUR.rep(E.lift(p[n][j])).key for n in PAIR if n in p) for j in (0, 1)]
            if k[1] < k[0]:
                return exchange(p)
        return p

    def setup(self, p):
        return Leaves.setup(self, self.order(p))

    def adiff(self, d, p):
        return Leaves.adiff(self, d, self.order(p))

    def alos(self, d, p):
        return Leaves.alos(self, d, self.order(p))

    def ascat(self, d, p):
        return Leaves.ascat(self, d, self.order(p))


def h_lrprop(c, mdp, region, case):
    L = Symmetric(c)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    p = assembly.path_inputs(c)
    assembly.split(c, p, case)
    c.assume(p['dl'][0] != p['dl'][1])
    d = assembly.distance(c, p, region, calm=True)
    a = assembly.call(c, f, d, assembly.fresh(p, mdp), mdp)
    b = assembly.call(c, f, d, assembly.fresh(exchange(p), mdp), mdp)
    if a.ok != b.ok:
        return c.fail('reference attenuation', (a.err or '') + (b.err or ''))
    if a.ok:
        c.eq('reference attenuation is symmetric', b.value['aref'], a.value['aref'])


def h_marker(c, heights=False):
    L = Leaves(c, null=True)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    b = assembly.IN_LIMITS
    p = {'wn': b['wn'], 'dh': b['dh'], 'hg': hg(c), 'ens': b['ens'], 'gme': b['gme'], 'zgnd': b['z'],
         'the': the(c), 'he': list(b['he']), 'dl': [c.real('dl0', 10, 8e4), c.real('dl1', 10, 8e4)], 'kwx': 0}
    d = 2.5e5
    if heights:
        p.update(hg=list(b['hg']), the=list(b['the']), he=he(c), dl=[2e4, 3e4], zgnd=b['z'])
        d = c.real('d', 1e3, 2.1e6)
    x = c.run(f, d, assembly.fresh(p, 1))
    y = c.run(f, d, assembly.fresh(exchange(p), 1))
    if x.ok and y.ok:
        c.eq('warning marker is symmetric', y.value['kwx'], x.value['kwx'])


def rev(pfl):
    return list(pfl[:2]) + list(reversed(pfl[2:]))


def h_hzns(c, n, free=None):
    f = c.fn(M_HZNS, 'hzns')
    if free is None:
        pfl = prep.profile(c, n)
        h = [c.real('hg0', 0.5, 3000), c.real('hg1', 0.5, 3000)]
        g = gme(c)
    else:
        pfl = [n, 100.0] + [c.real('z%d' % i, 0, 3000) if i in free else 40 + (7 * i) % 5 for i in range(n + 1)]
        h, g = [20.0, 35.0], 1.2e-7
    dist = n * pfl[1]
    z = pfl[2:]
    # no two points under the same angle (which of them is the horizon is then a matter of taste)
    for za, pts in ((z[0] + h[0], [(z[i], i) for i in range(1, n)] + [(z[n] + h[1], n)]),
                    (z[n] + h[1], [(z[n - i], i) for i in range(1, n)] + [(z[0] + h[0], n)])):
        ang = [(v - za) / (i * pfl[1]) - 0.5 * g * i * pfl[1] for v, i in pts]
        if free:
            # (of the fixed points only the highest can be a horizon)
            top = max(range(len(ang)), key=lambda i: -9 if i + 1 in free or n - i - 1 in free else ang[i])
            ang = [ang[i] for i in range(len(ang)) if i == top or i + 1 in free or n - i - 1 in free]
        for i in range(len(ang)):
            for j in range(i):
                c.assume(ang[i] != ang[j])
    a = c.run(f, list(pfl), dist, list(h), g)
    b = c.run(f, rev(pfl), dist, [h[1], h[0]], g)
    if not (a.ok and b.ok):
        return c.fail('horizons', (a.err or '') + (b.err or ''))
    for j in (0, 1):
        c.eq('horizon angle %d of the reversed path' % j, b.value[0][1 - j], a.value[0][j])
        c.eq('horizon distance %d of the reversed path' % j, b.value[1][1 - j], a.value[1][j])


def h_zlsq1(c, n, x=None):
    f = c.fn(M_ZLSQ1, 'zlsq1')
    z = prep.profile(c, n, -400, 9000)
    if x:
        u1, u2 = x
    else:
        u1, u2 = c.real('u1', 0, n, pts=(0, 1)), c.real('u2', 0, n, pts=(n, 1))
        c.assume(u1 <= u2)
    a = c.run(f, list(z), u1 * z[1], u2 * z[1])
    b = c.run(f, rev(z), (n - u2) * z[1], (n - u1) * z[1])
    if not (a.ok and b.ok):
        return c.fail('fitted line', (a.err or '') + (b.err or ''))
    if not c.symbolic:
        # rounding decides on which side of a sample an interval end falls
        for u in (u1, u2, n - u1, n - u2):
            if abs(u - round(u)) < 1e-9:
                raise Skip()
    c.eq('fit of the reversed profile', list(b.value), list(reversed(list(a.value))))


def h_dlthx(c, n, x, free=None):
    k = prep.Kth(c)
    k.sort = True
    f = c.fn(M_DLTHX, 'dlthx', k.stubs())
    xi = c.real('xi', 30, 2000)
    z = prep.heights(c, n, free)
    a = c.run(f, [n, xi] + z, x[0] * xi, x[1] * xi)
    b = c.run(f, [n, xi] + z[::-1], (n - x[1]) * xi, (n - x[0]) * xi)
    if not (a.ok and b.ok):
        return c.fail('terrain irregularity', (a.err or '') + (b.err or ''))
    c.eq('terrain irregularity of the reversed profile', b.value, a.value, atol=1e-6)


class SymPrep(prep.Prep):
    """The preparatory leaves, symmetric under reversal (shown separately)."""
    def flip(self, pfl, hg=None):
        if not self.c.symbolic:
            return False
        from symx import engine as E
        key = lambda v: tuple(E.CUR.rep(E.lift(x)).key for x in v)
        a = list(pfl[2:]) + (list(hg) if hg else [])
        b = list(reversed(pfl[2:])) + ([hg[1], hg[0]] if hg else [])
        return key(b) < key(a)

    def hzns(self, pfl, dist, hg, gme):
        if self.flip(pfl, [hg[0], hg[1]]):
            t, d = prep.Prep.hzns(self, rev(pfl), dist, [hg[1], hg[0]], gme)
            return [t[1], t[0]], [d[1], d[0]]
        return prep.Prep.hzns(self, pfl, dist, hg, gme)

    def dlthx(self, pfl, x1, x2):
        if self.flip(pfl):
            d = pfl[0] * pfl[1]
            return prep.Prep.dlthx(self, rev(pfl), d - x2, d - x1)
        return prep.Prep.dlthx(self, pfl, x1, x2)

    def fit(self, pfl, x1, x2):
        if self.flip(pfl):
            d = pfl[0] * pfl[1]
            a, b = prep.Prep.fit(self, rev(pfl), d - x2, d - x1)
            return b, a
        return prep.Prep.fit(self, pfl, x1, x2)


def h_qlrpfl(c, n):
    P = SymPrep(c)
    log = []
    f = c.fn(M_QLRPFL, 'qlrpfl', P.stubs(log))
    pfl = prep.profile(c, n)
    h = [c.real('hg0', 0.5, 3000), c.real('hg1', 0.5, 3000)]
    q = {'gme': gme(c), 'wn': c.real('wn', 0.84, 209), 'ens': 301.0, 'zgnd': complex(3, 0.1), 'kwx': 0, 'mdp': -1,
         'mdvarx': 12, 'klimx': 5, 'lvar': 0, 'mdvar': 0, 'klim': 1}
    if not c.symbolic:
        from . import chain
        try:
            chain.p2p(list(pfl), list(h), q['gme'])      # (notes whether rounding decides which samples are fitted)
        except (ArithmeticError, ValueError):
            pass
    a = c.run(f, dict(q, pfl=list(pfl), hg=list(h)))
    b = c.run(f, dict(q, pfl=rev(pfl), hg=[h[1], h[0]]))
    if a.ok != b.ok:
        return c.fail('path parameters', (a.err or '') + (b.err or '')) if c.symbolic else None
    if not a.ok:
        return
    for k in ('he', 'dl', 'the'):
        for j in (0, 1):
            c.eq('%s of terminal %d of the reversed path' % (k, j), b.value[k][1 - j], a.value[k][j])
    c.eq('dh of the reversed path', b.value['dh'], a.value['dh'])
    if not c.symbolic:
        c.goals.append(('attenuation of the reversed path', abs(a.value['aref'] - b.value['aref']) < 1e-6 * (1 + abs(a.value['aref'])),
                        b.value['aref'], a.value['aref']))


def h_avar(c, mode, klim=5):
    from . import stats
    curv, st = stats.curv_leaf(c)
    f = c.fn(M_AVAR, 'avar', st)
    p = stats.avar_inputs(c)
    z = stats.deviates(c)
    q = dict(p, klim=klim, mdvar=mode, lvar=5)
    a = c.run(f, z[0], z[1], z[2], dict(q, he=list(p['he'])))
    b = c.run(f, z[0], z[1], z[2], dict(q, he=[p['he'][1], p['he'][0]]))
    if not (a.ok and b.ok):
        return c.fail('quantile', (a.err or '') + (b.err or ''))
    c.eq('quantile is symmetric', b.value[0], a.value[0])


def reciprocity(tier):
    out = [Ob('diffraction set-up/area', h_adiff0, {'mdp': 1}), Ob('diffraction set-up/point', h_adiff0, {'mdp': -1}),
           Ob('diffraction', h_adiff), Ob('line of sight', h_alos), Ob('scatter', h_ascat), Ob('scatter, equal horizons', h_ascat, {'tie': True}),
           Ob('warning marker', h_marker), Ob('warning marker, effective heights', h_marker, {'heights': True})]
    for mdp in (1, -1):
        for region in ('near', 'far'):
            for case in ('he0>=he1,dl0>=dl1', 'he0>=he1,dl0<dl1'):
                out.append(Ob('attenuation/%s/%s/%s' % ('area' if mdp > 0 else 'point', region, case), h_lrprop,
                              {'mdp': mdp, 'region': region, 'case': case}))
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        out.append(Ob('horizons, n=%d' % n, h_hzns, {'n': n}))
    for n, free in ((40, (3, 21)), (300, (50, 290))) + (((650, (300, 603)),) if tier != 'quick' else ()):
        out.append(Ob('horizons, n=%d, points %d and %d vary' % ((n,) + free), h_hzns, {'n': n, 'free': free}))
    for n in (1, 2, 3, 4) + ((5, 6) if tier != 'quick' else ()):
        out.append(Ob('fit, n=%d' % n, h_zlsq1, {'n': n}))
    for n, x in ((20, (0.25, 17.5)), (300, (1.25, 290.5)), (640, (0.75, 639.5))):
        out.append(Ob('fit, n=%d, samples %s to %s' % (n, x[0], x[1]), h_zlsq1, {'n': n, 'x': x}))
    for n, x in ((2, (0, 2)), (4, (0.25, 3.5)), (5, (0.6, 4.1)), (12, (0.3, 11.3))):
        out.append(Ob('terrain irregularity, n=%d' % n, h_dlthx, {'n': n, 'x': x}))
    out.append(Ob('terrain irregularity, n=60', h_dlthx, {'n': 60, 'x': (0.3, 58.6), 'free': 12}))
    out.append(Ob('terrain irregularity, n=300', h_dlthx, {'n': 300, 'x': (2.25, 290.75), 'free': 6}))
    for n in (2, 3, 43, 323):
        out.append(Ob('point-to-point preparation, n=%d' % n, h_qlrpfl, {'n': n}))
    for m in (0, 1, 2, 3, 11, 12, 21, 33):
        out.append(Ob('variability, mode %d' % m, h_avar, {'mode': m}))
    for k in (1, 2, 3, 4, 6, 7):
        out.append(Ob('variability, climate %d' % k, h_avar, {'mode': 12, 'klim': k}))
    return out
