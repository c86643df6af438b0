"""Leaf obligations: each attenuation routine equals the model's formula for every input."""
from .common import *


def h_aknfe(c):
    f = c.fn(M_AKNFE, 'aknfe')
    v2 = c.real('v2', -1e4, 1e10, pts=(0, 5.76, 1e-5), log=False)
    o = c.run(f, v2)
    w = undefined_ok(c, 'aknfe', o, lambda: R.knife_edge(v2))
    if w is not None:
        c.eq('knife-edge attenuation', o.value, w)


def h_fht(c):
    f = c.fn(M_FHT, 'fht')
    x = c.real('x', 1e-6, 1e7, pts=(1, 200, 2000))
    pk = c.real('pk', 1e-12, 1e3, pts=(1e-5, 1))
    o = c.run(f, x, pk)
    w = undefined_ok(c, 'fht', o, lambda: R.height_gain(x, pk))
    if w is not None:
        c.eq('height-gain function', o.value, w)


SETUP_OUT = ('wd1', 'xd1', 'afo', 'qk', 'aht', 'xht')


def h_adiff0(c, mdp):
    f = c.fn(M_ADIFF, 'adiff')
    p = {'hg': hg(c), 'he': he(c), 'dl': dl(c), 'wn': wn(c), 'gme': gme(c), 'dh': dh(c), 'mdp': mdp,
         'dla': c.real('dla', 100, 8e5), 'dlsa': c.real('dlsa', 3000, 6e5), 'tha': c.real('tha', -0.1, 0.4),
         'zgnd': cx(c, 'z')}
    q = TrackDict(p)
    q['hg'], q['he'], q['dl'] = list(p['hg']), list(p['he']), list(p['dl'])
    q.writes.clear()
    o = c.run(f, 0, q)
    w = undefined_ok(c, 'diffraction set-up', o, lambda: R.adiff_setup(p))
    if w is None:
        return
    a, out = o.value
    for k in SETUP_OUT:
        c.true('constant %s is defined' % k, k in out)
        if k in out:
            c.eq('diffraction constant ' + k, out[k], w[k])
    frame(c, p, out, SETUP_OUT)


def frame(c, before, after, writes):
    """Path parameters other than the routine's own results are left alone."""
    for k in before:
        if k not in writes:
            c.true('input %s kept' % k, k in after)
            if k in after:
                c.eq('input %s unchanged' % k, after[k], before[k])


def h_adiff(c):
    f = c.fn(M_ADIFF, 'adiff')
    p = {'dl': dl(c), 'wn': wn(c), 'gme': gme(c), 'dh': dh(c), 'tha': c.real('tha', -0.1, 0.4),
         'qk': c.real('qk', 0.01, 20), 'xht': c.real('xht', -500, 5e4), 'aht': c.real('aht', -300, 3000),
         'wd1': c.real('wd1', 0.1, 50), 'xd1': c.real('xd1', 0, 5e6), 'afo': c.real('afo', 0, 15)}
    p['dla'] = p['dl'][0] + p['dl'][1]
    d = c.real('d', 10, 2e7)
    c.assume(p['tha'] + p['dla'] * p['gme'] >= 0)
    c.assume(d > p['dla'])
    q = dict(p)
    q['dl'] = list(p['dl'])
    o = c.run(f, d, q)
    w = undefined_ok(c, 'diffraction attenuation', o, lambda: R.adiff(d, p))
    if w is None:
        return
    c.eq('diffraction attenuation', o.value[0], w)
    frame(c, p, o.value[1], ())


def h_alos(c):
    f = c.fn(M_ALOS, 'alos')
    p = {'he': he(c), 'wn': wn(c), 'dh': dh(c), 'zgnd': cx(c, 'z'), 'emd': c.real('emd', -1e-3, 1e-2),
         'aed': c.real('aed', -500, 500), 'wis': c.real('wis', 0, 1)}
    d = c.real('d', 0.1, 1e7)
    q = dict(p)
    q['he'] = list(p['he'])
    o = c.run(f, d, q)
    w = undefined_ok(c, 'line-of-sight attenuation', o, lambda: R.alos(d, p))
    if w is None:
        return
    c.eq('line-of-sight attenuation', o.value, w)
    frame(c, p, q, ())


def h_ahd(c):
    f = c.fn(M_AHD, 'ahd')
    td = c.real('td', 1e-3, 1e8, pts=(10e3, 70e3))
    o = c.run(f, td)
    w = undefined_ok(c, 'F0', o, lambda: R.f0(td))
    if w is not None:
        c.eq('F0', o.value, w)


def h_h0f(c):
    f = c.fn(M_H0F, 'h0f')
    r = c.real('r', 1e-5, 1e8)
    et = c.real('et', -50, 1000, pts=(0, 1, 2, 3, 4, 5))
    o = c.run(f, r, et)
    w = undefined_ok(c, 'H01', o, lambda: R.h0f(r, et))
    if w is not None:
        c.eq('frequency gain', o.value, w)


def h_ascat(c, stub=True):
    stubs = {}
    h0f, f0 = R.h0f, R.f0
    if c.symbolic:
        from symx.uf import uf
        h0f = uf('H01', R.h0f, lo=0)
        f0 = uf('F0', R.f0)
        stubs = {(M_H0F, 'h0f'): h0f, (M_AHD, 'ahd'): f0}
    f = c.fn(M_ASCAT, 'ascat', stubs)
    p = {'the': the(c), 'he': he(c), 'wn': wn(c), 'gme': gme(c), 'ens': ens(c), 'tha': c.real('tha', -0.1, 0.8),
         'ad': c.real('ad', 0, 4e5), 'rr': c.real('rr', 1e-4, 1e4), 'etq': c.real('etq', -0.3, 0.3),
         'h0s': c.real('h0s', -15, 60, pts=(-15, 0, 15)), 'ascat1': c.real('ascat1_before', -200, 900, pts=(0,))}
    d = c.real('d', 100, 2e7)
    c.assume(d > p['ad'])
    c.assume(p['tha'] >= p['the'][0] + p['the'][1])
    c.assume(p['tha'] + d * p['gme'] > 0)
    q = dict(p)
    for k in ('the', 'he'):
        q[k] = list(p[k])
    o = c.run(f, d, q)
    w = undefined_ok(c, 'scatter attenuation', o, lambda: R.ascat(d, p, h0f, f0))
    if w is None:
        return
    out = o.value
    c.eq('scatter attenuation', out['ascat1'], w[0])
    c.eq('frequency gain carried to the next call', out['h0s'], w[1])
    frame(c, p, out, ('ascat1', 'h0s'))


def diffraction(tier):
    return [Ob('knife-edge', h_aknfe), Ob('height-gain', h_fht), Ob('set-up/area', h_adiff0, {'mdp': 1}),
            Ob('set-up/point', h_adiff0, {'mdp': -1}), Ob('attenuation', h_adiff, merge=True)]


def los(tier):
    return [Ob('line-of-sight', h_alos)]


def scatter(tier):
    return [Ob('F0', h_ahd), Ob('frequency-gain', h_h0f), Ob('scatter', h_ascat)]
