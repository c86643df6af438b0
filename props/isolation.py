"""Every public routine: results depend on the arguments of the call alone (C22), and valid
arguments have a result (C23)."""
import copy

from .common import *
from . import stubs as S, prep, scripts, assembly


class V:
    """A named real parameter."""
    def __init__(self, lo, hi, pts=(), fixed=None):
        self.lo, self.hi, self.pts = lo, hi, pts

    def make(self, c, name):
        return c.real(name, self.lo, self.hi, self.pts)


WN, GME, ENS = V(0.4, 450), V(7e-8, 2.6e-7), V(200, 450)
HG, HE, DL, THE, DH = V(0.3, 3500), V(0.3, 5000), V(50, 4e5), V(-0.4, 0.4), V(0, 3000, (0,))


def cplx(P, n):
    return mkc(P[n + '_re'], P[n + '_im'])


class R_:
    """A routine: its parameters, how it is called, and what of the result is looked at."""
    def __init__(self, name, module, fn, params, build, view=lambda v: v, groups=None, assume=None, stub=None, opts=None, total=None, tassume=None, nominal=None, narrow=None, tview=False, tnominal=None):
        self.name, self.module, self.fn, self.params, self.build, self.view = name, module, fn, params, build, view
        self.groups = groups or [(k,) for k in params]
        self.assume, self.stub, self.opts = assume, stub, opts or {}
        self.tparams = dict(params, **(total or {}))
        self.tassume = tassume or assume
        self.tview = self.view if tview is False else tview      # None: not among the routines of C23
        self.tnominal = tnominal or {}
        self.narrow = narrow or {}         # narrower ranges when two calls are compared
        self.nominal = nominal or {}       # parameters held fixed when two calls are compared


def pair(n, v):
    return {n + '0': v, n + '1': v}


def two(P, n):
    return [P[n + '0'], P[n + '1']]


def pick(d, keys):
    return [d[k] for k in keys]


def adiff0(P, mdp):
    return (0, {'hg': two(P, 'hg'), 'he': two(P, 'he'), 'dl': two(P, 'dl'), 'wn': P['wn'], 'gme': P['gme'], 'dh': P['dh'], 'mdp': mdp,
                'dla': P['dla'], 'dlsa': P['dlsa'], 'tha': P['tha'], 'zgnd': cplx(P, 'z')})


ZP = {'z_re': V(0.01, 60), 'z_im': V(-60, 60)}
LIST = []


def routine(*a, **k):
    r = R_(*a, **k)
    LIST.append(r)
    return r


routine('aknfe', M_AKNFE, 'aknfe', {'v2': V(0, 1e7)}, lambda P: (P['v2'],))
routine('fht', M_FHT, 'fht', {'x': V(1e-3, 2e5), 'pk': V(1e-8, 50)}, lambda P: (P['x'], P['pk']))
routine('adiff set-up', M_ADIFF, 'adiff', dict(pair('hg', HG), **pair('he', HE), **pair('dl', DL), wn=WN, gme=GME, dh=DH, dla=V(100, 8e5),
        dlsa=V(3000, 6e5), tha=V(-0.1, 0.4), **ZP), lambda P: adiff0(P, 1), lambda v: pick(v[1], S.SETUP_OUT),
        groups=[('hg0', 'hg1'), ('he0',), ('wn',), ('dl0',), ('gme',), ('dla',), ('dlsa', 'tha'), ('z_re', 'z_im'), ('dh',)],
        nominal={'hg0': 10.0, 'hg1': 12.0, 'he0': 12.0, 'he1': 20.0, 'dl0': 15e3, 'dl1': 18e3, 'wn': 8.0, 'dla': 33e3, 'dlsa': 36e3, 'tha': -0.002,
                 'z_re': 4.0, 'z_im': 0.2, 'gme': 1.1e-7},
        assume=lambda c, P: c.assume(P['tha'] + P['dla'] * P['gme'] >= 0))


def adiff1(P):
    p = {k: P[k] for k in ('wn', 'gme', 'dh', 'tha', 'qk', 'xht', 'aht', 'wd1', 'xd1', 'afo')}
    p['dl'] = two(P, 'dl')
    p['dla'] = P['dl0'] + P['dl1']
    return P['d'], p


def adiff_ok(c, P):
    c.assume(P['tha'] + (P['dl0'] + P['dl1']) * P['gme'] >= 0)
    c.assume(P['d'] > P['dl0'] + P['dl1'])


def adiff_total(c, P):
    adiff_ok(c, P)
    dla = P['dl0'] + P['dl1']
    c.assume(P['qk'] ** 3 * (P['tha'] + P['d'] * P['gme']) <= 4 * (P['d'] - dla) * P['wn'])


routine('adiff', M_ADIFF, 'adiff', dict(pair('dl', DL), wn=WN, gme=GME, dh=DH, tha=V(-0.1, 0.4), qk=V(0.01, 20), xht=V(0, 5e4), aht=V(-300, 3000),
        wd1=V(1, 50), xd1=V(0, 5e6), afo=V(0, 15), d=V(1e3, 3e6)), adiff1, lambda v: v[0],
        groups=[('d',), ('dl0',), ('tha',), ('wn', 'dh'), ('gme',), ('qk', 'xht', 'aht'), ('wd1', 'xd1', 'afo')], assume=adiff_ok, tassume=adiff_total,
        nominal={'dl0': 15e3, 'dl1': 18e3, 'tha': 0.001, 'wn': 8.0, 'gme': 1.1e-7, 'dh': 60.0, 'd': 60e3})


def alos(P):
    return P['d'], {'he': two(P, 'he'), 'wn': P['wn'], 'dh': P['dh'], 'zgnd': cplx(P, 'z'), 'emd': P['emd'], 'aed': P['aed'], 'wis': P['wis']}


routine('alos', M_ALOS, 'alos', dict(pair('he', HE), wn=WN, dh=DH, emd=V(-1e-3, 1e-2), aed=V(-500, 500), wis=V(0, 1), d=V(10, 1e6), **ZP), alos,
        groups=[('d',), ('he0',), ('wn',), ('dh',), ('z_re',), ('z_im',), ('emd',), ('aed', 'wis')],
        nominal={'he0': 12.0, 'he1': 20.0, 'wn': 8.0, 'dh': 60.0, 'emd': 1e-4, 'aed': 5.0, 'wis': 0.5, 'z_re': 4.0, 'z_im': 0.2, 'd': 20e3},
        narrow={'d': V(2e3, 6e4), 'he0': V(5, 100)}, tview=None)
routine('ahd', M_AHD, 'ahd', {'td': V(1, 2e6)}, lambda P: (P['td'],))
routine('h0f', M_H0F, 'h0f', {'r': V(0.01, 1e4), 'et': V(-2, 12)}, lambda P: (P['r'], P['et']))


def ascat(P):
    return P['d'], {'the': two(P, 'the'), 'he': two(P, 'he'), 'wn': P['wn'], 'gme': P['gme'], 'ens': P['ens'], 'tha': P['tha'], 'ad': P['ad'],
                    'rr': P['rr'], 'etq': P['etq'], 'h0s': P['h0s'], 'ascat1': 0}


def ascat_ok(c, P):
    c.assume(P['d'] > P['ad'])
    c.assume(P['tha'] >= P['the0'] + P['the1'])
    c.assume(P['tha'] + P['d'] * P['gme'] > 0)


def ascat_stub(c):
    if not c.symbolic:
        return {}
    from symx.uf import uf
    return {(M_H0F, 'h0f'): uf('H01', R.h0f, lo=0), (M_AHD, 'ahd'): uf('F0', R.f0)}


routine('ascat', M_ASCAT, 'ascat', dict(pair('the', THE), **pair('he', HE), wn=WN, gme=GME, ens=ENS, tha=V(-0.1, 0.8), ad=V(0, 4e5), rr=V(1e-4, 1e4),
        etq=V(-0.3, 0.3), h0s=V(-15, 60, (-15,)), d=V(2e5, 1.3e6)), ascat, lambda v: pick(v, ('ascat1', 'h0s')),
        groups=[('h0s',), ('d',), ('he0', 'rr'), ('wn',), ('ens',), ('the0', 'tha'), ('gme',), ('ad', 'etq')], assume=ascat_ok, stub=ascat_stub,
        nominal={'the0': 0.004, 'the1': 0.003, 'he0': 12.0, 'he1': 20.0, 'wn': 8.0, 'gme': 1.1e-7, 'tha': 0.01, 'ad': 3e3, 'd': 3e5, 'h0s': -15, 'ens': 301.0, 'etq': 0.05, 'rr': 0.8},
        narrow={'d': V(2.5e5, 1.0e6)})


def lrprop(P):
    dls = [gm.sqrt(2 * P['he%d' % j] / P['gme']) for j in (0, 1)]
    return P['d'], {'hg': two(P, 'hg'), 'he': two(P, 'he'), 'dl': [P['t%d' % j] * dls[j] for j in (0, 1)], 'the': two(P, 'the'), 'wn': P['wn'],
                    'gme': P['gme'], 'ens': P['ens'], 'dh': P['dh'], 'zgnd': cplx(P, 'z'), 'kwx': 0, 'mdp': 1}


def lrprop_ok(c, P):
    c.assume(P['he0'] >= P['he1'])
    c.assume(P['d'] >= 5 * (P['he0'] - P['he1']))


def leaves(c):
    return S.Leaves(c).stubs()


routine('lrprop', M_LRPROP, 'lrprop', dict(pair('hg', V(1, 1000)), **pair('he', V(1, 3000)), **pair('t', V(0.1001, 2.999)), **pair('the', V(-0.2, 0.2)),
        wn=V(0.84, 209), gme=V(7.6e-8, 2.5e-7), ens=V(250, 400), dh=V(0, 1000), d=V(1e3, 1e6), z_re=V(1, 60), z_im=V(-0.9, 0.9)), lrprop,
        lambda v: pick(v, ('aref', 'kwx', 'dist')), groups=[('wn', 'dh'), ('the0', 'ens', 'hg0', 'z_re'), ('d',), ('he0',), ('gme',), ('t0', 't1')], assume=lrprop_ok, stub=leaves,
        nominal={'he0': 25.0, 'he1': 14.0, 'hg0': 20.0, 'hg1': 10.0, 't0': 0.8, 't1': 0.9, 'the0': 0.001, 'the1': 0.002, 'gme': 1.1e-7, 'z_im': 0.2, 'z_re': 4.0,
                 'ens': 301.0, 'dh': 90.0, 'wn': 8.0, 'd': 6e4},
        narrow={'he0': V(20, 40)}, tview=None)


def avar(mode):
    def f(P):
        return P['zt'], P['zl'], P['zc'], {'dist': P['dist'], 'he': two(P, 'he'), 'dh': P['dh'], 'wn': P['wn'], 'aref': P['aref'], 'kwx': 0,
                                           'klim': 5, 'mdvar': mode, 'lvar': 5}
    return f


AV = dict(pair('he', V(0.5, 3000)), dist=V(1e3, 2e6), dh=V(0, 1000, (0,)), wn=WN, aref=V(0, 300), zt=V(-3.1, 3.1), zl=V(-3.1, 3.1), zc=V(-3.1, 3.1))


def curv_stub(c):
    if not c.symbolic:
        return {}
    from symx.uf import uf
    return {(M_CURV, 'curv'): uf('Curv', R.curv)}


for _m in (3, 0, 11):
    routine('avar, mode %d' % _m, M_AVAR, 'avar', AV, avar(_m), lambda v: [v[0], v[1]['kwx']],
            groups=[('dist',), ('he0', 'he1', 'dh'), ('wn',), ('aref',), ('zt', 'zl', 'zc')], stub=curv_stub)
routine('curv', M_CURV, 'curv', {'c1': V(-10, 11), 'c2': V(0, 900), 'x1': V(1e4, 3e6), 'x2': V(1e4, 1e6), 'x3': V(1e4, 1e6), 'de': V(0, 3e6)},
        lambda P: (P['c1'], P['c2'], P['x1'], P['x2'], P['x3'], P['de']), groups=[('c1', 'c2'), ('x1', 'x2', 'x3'), ('de',)])
for _i in (0, 1):
    routine('qlrps, ipol %d' % _i, M_QLRPS, 'qlrps', {'fmhz': V(20, 20000), 'zsys': V(-400, 9000), 'en0': V(200, 450), 'eps': V(1.001, 100), 'sgm': V(0, 10)},
            lambda P, _i=_i: (P['fmhz'], P['zsys'], P['en0'], _i, P['eps'], P['sgm']), lambda v: list(v),
            tview=lambda v: [v[0], v[1], v[2], v[3].real, v[3].imag])
routine('qlra', M_QLRA, 'qlra', dict(pair('hg', HG), dh=DH, gme=GME, wn=WN),
        lambda P: ([1, 2], {'hg': two(P, 'hg'), 'dh': P['dh'], 'gme': P['gme'], 'wn': P['wn'], 'kwx': 0, 'klim': 1, 'mdvar': 0, 'mdvarx': 3, 'klimx': 5, 'lvar': 0}),
        lambda v: [list(v['he'][j] for j in (0, 1)), list(v['dl'][j] for j in (0, 1)), list(v['the'][j] for j in (0, 1)), v['lvar'], v['mdp']])


def zs(n, lo=0, hi=3000):
    return {'z%d' % i: V(lo, hi) for i in range(n + 1)}


def pfl(P, n):
    return [n, P['xi']] + [P['z%d' % i] for i in range(n + 1)]


for _n in (1, 3):
    routine('hzns, n=%d' % _n, M_HZNS, 'hzns', dict(pair('hg', V(0.5, 3000)), gme=GME, xi=V(30, 2000), **zs(_n)),
            lambda P, n=_n: (pfl(P, n), n * P['xi'], two(P, 'hg'), P['gme']), lambda v: [[v[i][j] for j in (0, 1)] for i in (0, 1)],
            groups=[('hg0', 'hg1'), ('gme',), ('xi',), ('z0', 'z1')])
for _n in (1, 4):
    routine('zlsq1, n=%d' % _n, M_ZLSQ1, 'zlsq1', dict(xi=V(30, 2000), u1=V(0, _n), u2=V(0, _n), **zs(_n, -400, 9000)),
            lambda P, n=_n: (pfl(P, n), P['u1'] * P['xi'], P['u2'] * P['xi']), lambda v: list(v),
            groups=[('xi',), ('u1', 'u2'), ('z0', 'z1')], assume=lambda c, P: c.assume(P['u1'] <= P['u2']))


def kth_stub(c):
    return prep.Kth(c).stubs()


routine('dlthx, n=3', M_DLTHX, 'dlthx', dict(xi=V(30, 2000), u1=V(0.2, 0.4), u2=V(2.6, 2.9), **zs(3, -100, 5000)),
        lambda P: (pfl(P, 3), P['u1'] * P['xi'], P['u2'] * P['xi']), groups=[('xi',), ('u1',), ('z0', 'z1'), ('u2',)], stub=kth_stub,
        nominal={'u1': 0.3, 'u2': 2.75})
routine('dlthx, n=60', M_DLTHX, 'dlthx', dict(xi=V(30, 2000), **zs(60, -100, 5000)),
        lambda P: (pfl(P, 60), 0.7 * P['xi'], 58.9 * P['xi']), groups=[('xi',), ('z0', 'z1', 'z30')], stub=kth_stub)


def prep_stub(c):
    return prep.Prep(c).stubs([])


def qlrpfl(P, n):
    return ({'pfl': pfl(P, n), 'hg': two(P, 'hg'), 'gme': P['gme'], 'wn': P['wn'], 'ens': 301.0, 'zgnd': complex(3, 0.1), 'kwx': 0, 'mdp': -1,
             'mdvarx': 12, 'klimx': 5, 'lvar': 0, 'mdvar': 0, 'klim': 1},)


routine('qlrpfl, n=3', M_QLRPFL, 'qlrpfl', dict(pair('hg', V(0.5, 3000)), gme=GME, wn=V(0.84, 209), xi=V(30, 2000), **zs(3)), lambda P: qlrpfl(P, 3),
        lambda v: [v['dist'], v['dh'], [v['he'][j] for j in (0, 1)], [v['dl'][j] for j in (0, 1)], [v['the'][j] for j in (0, 1)], v['lvar']],
        groups=[('hg0', 'hg1'), ('gme', 'wn'), ('xi',), ('z0', 'z3')], stub=prep_stub)
routine('qerf', M_QERF, 'qerf', {'z': V(-15, 15)}, lambda P: (P['z'],))
routine('qerfi', M_QERFI, 'qerfi', {'q0': V(0, 1), 'q1': V(0, 1)}, lambda P: ([P['q0'], P['q1']],), lambda v: list(v))
routine('qtile', M_QTILE, 'qtile', {'a0': V(-1000, 9000), 'a1': V(-1000, 9000), 'a2': V(-1000, 9000)}, lambda P: ([P['a0'], P['a1'], P['a2']], 1))

LOSS = lambda v: [r['propagation_loss_dB'] for r in v]
for _s in ('area', 'area_2tiles'):
    routine('runner ' + _s, _s, 'itmlogic_area', dict(pair('hg', V(0.5, 3000)), fmhz=V(20, 20000), dh=V(0, 500)),
            lambda P: ({'hg': two(P, 'hg'), 'fmhz': P['fmhz'], 'dh': P['dh'], 'ipol': 0},), LOSS,
            groups=[('hg0', 'hg1'), ('fmhz',), ('dh',)], stub=scripts.area_stubs, opts={'pool_n': 300})
for _s in ('p2p', 'p2p_2tiles'):
    routine('runner ' + _s, _s, 'itmlogic_p2p', dict(pair('hg', V(0.5, 3000)), fmhz=V(20, 20000), d=V(2, 500), **zs(3, 0, 2000)),
            lambda P: ({'hg': two(P, 'hg'), 'fmhz': P['fmhz'], 'd': P['d'], 'ipol': 1}, [P['z%d' % i] for i in range(4)]), LOSS,
            groups=[('hg0', 'hg1'), ('fmhz',), ('d',), ('z0', 'z2')], stub=scripts.p2p_stubs, opts={'pool_n': 300})
routine('runner pimter', 'pimter', 'run_itmlogic', dict(step=V(5, 3000), **zs(2, 0, 500)),
        lambda P: ([P['z0'], P['z1'], P['z2']], [0, P['step'], 2 * P['step']]), lambda v: [r[-1] for r in v],
        groups=[('step',), ('z0', 'z1')], stub=scripts.p2p_stubs, opts={'pool_n': 300})
BY = {r.name: r for r in LIST}


def snapshot(a):
    if isinstance(a, dict):
        return {k: snapshot(v) for k, v in a.items()}
    if isinstance(a, (list, tuple)):
        return [snapshot(v) for v in a]
    return a


def load(c, r):
    return scripts.quiet(c.module(r.module, r.stub(c) if r.stub else None))


def h_isolated(c, name, group):
    """A call is not affected by an earlier call whose arguments differed in `group`."""
    r = BY[name]
    B = {k: (r.nominal[k] if k in r.nominal and k not in group else r.narrow.get(k, v).make(c, k)) for k, v in r.params.items()}
    A = {k: (r.narrow.get(k, r.params[k]).make(c, k + '_before') if k in group else B[k]) for k in B}
    if r.assume:
        r.assume(c, B)
        r.assume(c, A)
    m = load(c, r)
    first = c.run(getattr(m, r.fn), *r.build(A))
    kept = snapshot(r.view(first.value)) if first.ok else None
    o = c.run(getattr(m, r.fn), *r.build(B))
    m = load(c, r)
    w = c.run(getattr(m, r.fn), *r.build(B))
    if not w.ok:
        return
    if not o.ok:
        return c.fail('result after another call', o.err)
    c.eq('result does not depend on an earlier call', r.view(o.value), r.view(w.value), obs=False)
    if first.ok:
        c.eq('an earlier result is not changed by a later call', r.view(first.value), kept, obs=False)


def h_args(c, name):
    """Lists and numbers passed in are not changed (the routine's own results in a parameter dict apart)."""
    r = BY[name]
    B = {k: (r.nominal[k] if k in r.nominal and i % 2 else v.make(c, k)) for i, (k, v) in enumerate(r.params.items())}
    if r.assume:
        r.assume(c, B)
    args = r.build(B)
    before = snapshot(args)
    o = c.run(getattr(load(c, r), r.fn), *args)
    if not o.ok:
        return
    own = OWN.get(name.split(',')[0], ())
    for i, (x, y) in enumerate(zip(args, before)):
        if isinstance(y, dict):
            for k in y:
                if k not in own:
                    c.eq('input %s unchanged' % k, x[k], y[k], obs=False)
        else:
            c.eq('argument %d unchanged' % i, x, y, obs=False)


OWN = {'ascat': ('ascat1', 'h0s'), 'lrprop': ('kwx', 'mdp'), 'avar': ('kwx', 'lvar', 'klim', 'mdvar'), 'qlra': ('lvar', 'klim', 'mdvar', 'mdp', 'kwx'),
       'qlrpfl': ('lvar', 'klim', 'mdvar', 'mdp', 'kwx'), 'runner area': ('kwx',), 'runner area_2tiles': ('kwx',)}


def h_again(c, name, change):
    """A runner called again with the user's parameter dict it was given before (and modified)."""
    r = BY[name]
    P = {k: v.make(c, k) for k, v in r.params.items()}
    Q = {k: (r.params[k].make(c, k + '_2') if k in change else P[k]) for k in P}
    m = load(c, r)
    a = r.build(P)
    o = c.run(getattr(m, r.fn), *a)
    if not o.ok:
        return
    b = r.build(Q)
    a[0].update(b[0])
    o = c.run(getattr(m, r.fn), a[0], *b[1:])
    w = c.run(getattr(load(c, r), r.fn), *r.build(Q))
    if not w.ok:
        return
    if not o.ok:
        return c.fail('second run with the same parameter dict', o.err)
    c.eq('second run with the same parameter dict', r.view(o.value), r.view(w.value), obs=False)


def isolation(tier):
    out = []
    for r in LIST:
        gs = r.groups if tier != 'quick' else r.groups[:4]
        for g in gs:
            out.append(Ob('%s after a call with other %s' % (r.name, ', '.join(g)), h_isolated, {'name': r.name, 'group': g}, **r.opts))
        out.append(Ob('%s leaves its arguments alone' % r.name, h_args, {'name': r.name}, **r.opts))
    for s in ('area', 'area_2tiles'):
        for ch in ((), ('fmhz', 'dh')):
            out.append(Ob('runner %s again%s' % (s, ', other ' + ', '.join(ch) if ch else ''), h_again, {'name': 'runner ' + s, 'change': ch}, pool_n=300))
    for s in ('p2p', 'p2p_2tiles'):
        for ch in ((), ('fmhz', 'd', 'z0')):
            out.append(Ob('runner %s again%s' % (s, ', other ' + ', '.join(ch) if ch else ''), h_again, {'name': 'runner ' + s, 'change': ch}, pool_n=300))
    from . import terrain
    out += terrain.repeats(tier)
    return out


def finite(c, label, v):
    if isinstance(v, dict):
        v = [v[k] for k in sorted(v, key=str)]
    if hasattr(v, 'tolist') and not gm._s(v):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            finite(c, '%s[%d]' % (label, i), x)
    elif c.symbolic:
        c.true(label + ' is a real number', not isinstance(v, complex) and type(v).__name__ != 'SymComplex')
    else:
        from symx.ctx import bad_number
        c.true(label + ' is a real number', not isinstance(v, complex) and not bad_number(v), v)


def h_total(c, name):
    """Arguments in the documented ranges have a finite real result."""
    r = BY[name]
    P = {k: (r.tnominal[k] if k in r.tnominal else v.make(c, k)) for k, v in r.tparams.items()}
    if r.tassume:
        r.tassume(c, P)
    o = c.run(getattr(load(c, r), r.fn), *r.build(P))
    if not o.ok:
        return c.fail('a result', o.err)
    finite(c, 'result', r.tview(o.value))


def total(tier):
    return [Ob('%s has a result' % r.name, h_total, {'name': r.name}, **r.opts) for r in LIST if r.tview is not None]
