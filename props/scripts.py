"""The runners in scripts/: which prediction each row of the output is.

Symbolically the preparatory routine, lrprop and avar are abstracted by uninterpreted functions
that keep their calling protocol (what they cache between calls, which refresh they need, what
they require to be set); that they compute the model's values is shown by the other properties.
On the real program the whole chain is compared with the whole reference model."""
from .common import *
from . import chain

AREA_KM = [10 * i for i in range(1, 16)] + [150 + 50 * i for i in range(1, 8)]
AREA_CONF = (50, 90, 10)
P2P_REL = (1, 10, 50, 90, 99)
P2P_CONF = (50, 90, 10)
DB = 8.685890
PATH = ('hg', 'he', 'dl', 'the', 'wn', 'gme', 'ens', 'dh', 'zgnd')


def z(level):
    return round(R.qerfi1(level / 100), 4)


def _mix(name):
    """Any fixed function will do as the numeric face of an uninterpreted one."""
    import numpy as np
    import zlib
    from symx import uf
    if name in uf.NUMERIC:
        return
    s = zlib.crc32(name.encode()) % 97 / 97.0
    if name == 'Dlsa':
        uf.NUMERIC[name] = lambda hg0, hg1, h0, h1, a, b, c, d, wn, g, *r: np.sqrt(np.abs(2 * h0 / g)) + np.sqrt(np.abs(2 * h1 / g))
        return
    if name == 'Dx':
        uf.NUMERIC[name] = lambda hg0, hg1, h0, h1, a, b, c, d, wn, g, *r: 3e4 + 100 * np.abs(c)
        return

    def f(*xs):
        t = np.zeros(len(xs[0]))
        for i, x in enumerate(xs):
            t = t + np.cos(1.7 * i + s) * np.log1p(np.abs(x)) + 0.3 * np.sin(x * (0.01 + 0.003 * i))
        return 100 + 20 * np.sin(t) + t
    uf.NUMERIC[name] = f


def U(name, *a, lo=float('-inf'), hi=float('inf')):
    from symx.uf import uf_call
    _mix(name)
    return uf_call(name, a, lo, hi)


def flatp(p):
    return [p[k] for k in PATH]


# ---- abstractions keeping the calling protocol
def lrprop_stub(d, prop, lazy=False):
    """lazy: the scatter onset is only there if it was needed"""
    cur = flatp(prop)
    prop['kwx'] = prop['kwx'] + 0
    if prop['mdp'] != 0:
        prop['_path'] = [v.copy() if isinstance(v, list) else v for v in cur]
        if prop['mdp'] > 0:
            prop['mdp'] = 0
            prop['dist'] = d
    elif d > 0:
        prop['dist'] = d
    prop['aref'] = U('Aref', prop['dist'], prop['_path'], cur)
    prop['dla'] = prop['dl'][0] + prop['dl'][1]
    prop['dlsa'] = U('Dlsa', prop['_path'], lo=1)
    # (the scatter onset is never short of the smooth-earth horizons: C05)
    if not lazy or prop['dist'] >= prop['dlsa']:
        prop['dx'] = prop['dlsa'] + U('Dx', prop['_path'], lo=0)
    return prop


def avar_stub(zt, zl, zc, prop):
    lv = prop['lvar']
    if lv > 0:
        if lv > 4:
            prop['_klim'] = prop['klim']
        if lv > 3:
            prop['_mdvar'] = prop['mdvar']
        if lv > 2:
            prop['_wn'] = prop['wn']
        if lv > 1:
            prop['_he'] = list(prop['he']) + [prop['wn']]
        prop['_at'] = [prop['dist'], prop['dh'], prop['wn']]
        prop['lvar'] = 0
    return U('Avar', zt, zl, zc, prop['aref'], prop['_klim'], prop['_mdvar'], prop['_wn'], prop['_he'], prop['_at']), prop


def want_avar(zt, zl, zc, p, klim, mdvar):
    """p: the path parameters with dist and aref"""
    return U('Avar', zt, zl, zc, p['aref'], klim, mdvar, p['wn'], list(p['he']) + [p['wn']], [p['dist'], p['dh'], p['wn']])


def qlrpfl_stub(prop, lazy=False):
    pfl = list(prop['pfl'])
    prop['dist'] = pfl[0] * pfl[1]
    prop.update(p2p_uf(pfl, prop['hg'], prop['gme']))
    prop['mdp'] = -1
    prop['lvar'] = max(prop['lvar'], 3)
    if prop['mdvarx'] >= 0:
        prop['mdvar'] = prop['mdvarx']
        prop['lvar'] = max(prop['lvar'], 4)
    if prop['klimx'] > 0:
        prop['klim'] = prop['klimx']
        prop['lvar'] = 5
    return lrprop_stub(0, prop, lazy)


def p2p_uf(pfl, hg, gme):
    a = [pfl, hg, gme]
    return {'he': [U('P_he%d' % j, *a, lo=0.1, hi=1e5) for j in (0, 1)], 'dl': [U('P_dl%d' % j, *a, lo=1, hi=1e7) for j in (0, 1)],
            'the': [U('P_the%d' % j, *a) for j in (0, 1)], 'dh': U('P_dh', *a, lo=0)}


def environment(fmhz, ens, ipol, eps, sgm):
    """wave number, curvature, ground impedance"""
    wn, gme, ens, zr, zi = R.qlrps(fmhz, 0, ens, ipol, eps, sgm)
    return {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': mkc(zr, zi)}


def free_space(wn, dist):
    return DB * gm.log(2 * wn * dist)


def quiet(m, said=None):
    def out(*a, **k):
        if said is not None:
            said.append(' '.join(str(x) for x in a))
    m.print = out
    return m


# ------------------------------------------------------------------ area runners
def area_inputs(c, ipol, tag=''):
    return {'hg': [c.real('hg0' + tag, 0.3, 5000), c.real('hg1' + tag, 0.3, 5000)], 'fmhz': c.real('fmhz' + tag, 5, 50000),
            'dh': c.real('dh' + tag, 0, 3000), 'ipol': ipol}


def area_ref(c, u):
    """[(km, level, loss)] by the model"""
    p = environment(u['fmhz'], 301, u['ipol'], 15, 0.001)
    t = [R.area_terminal(2, h, u['dh'], p['gme']) for h in u['hg']]
    p.update(hg=u['hg'], dh=u['dh'], he=[x[0] for x in t], dl=[x[1] for x in t], the=[x[2] for x in t])
    out = []
    if not c.symbolic:
        s = chain.setup(dict(p, mdp=1))
    for km in AREA_KM:
        d = km * 1000
        q = dict(p, dist=d)
        if c.symbolic:
            f = flatp(p)
            q['aref'] = U('Aref', d, f, f)
        else:
            try:
                q['aref'] = chain.aref(s, d)
                co = R.avar_coefficients(5, 3, d, p['he'], p['dh'], p['wn'])
            except (ArithmeticError, ValueError):
                out += [(km, cl, None) for cl in AREA_CONF]
                continue
        for cl in AREA_CONF:
            if c.symbolic:
                a = want_avar(z(50), z(50), z(cl), q, 5, 3)
            else:
                a = R.avar_quantile(z(50), z(50), z(cl), q['aref'], co)[0]
            out.append((km, cl, free_space(p['wn'], d) + a))
    return out


def area_stubs(c):
    return {(M_LRPROP, 'lrprop'): lrprop_stub, (M_AVAR, 'avar'): avar_stub} if c.symbolic else {}


def rows(c, label, got, want, keys, tol=1e-6):
    c.true(label + ': one row per combination', len(got) == len(want))
    if len(got) != len(want):
        return
    for r, w in zip(got, want):
        r = [r[k] for k in keys] if isinstance(r, dict) else list(r)
        c.eq(label + ': what the row is for', r[:-1], list(w[:-1]), obs=False)
        if w[-1] is not None:
            c.eq('%s: loss at %s' % (label, ', '.join('%s' % v for v in w[:-1] if not gm._s(v))), r[-1], w[-1], tol=tol, obs=False)


def h_area(c, script, ipol):
    m = quiet(c.module(script, area_stubs(c)))
    u = area_inputs(c, ipol)
    o = c.run(m.itmlogic_area, dict(u, hg=list(u['hg'])))
    w = undefined_ok(c, 'area prediction', o, lambda: area_ref(c, u))
    if w is not None:
        rows(c, 'area prediction', o.value, w, ('distance_km', 'confidence_level_%', 'propagation_loss_dB'))


# ------------------------------------------------------------------ point-to-point runners
def p2p_inputs(c, n, ipol, tag='', fixed=None):
    u = {'fmhz': c.real('fmhz' + tag, 5, 50000), 'd': c.real('d' + tag, 0.05, 3000), 'ipol': ipol,
         'hg': [c.real('hg0' + tag, 0.3, 5000), c.real('hg1' + tag, 0.3, 5000)]}
    prof = [c.real('z%d%s' % (i, tag), -400, 9000) for i in range(n + 1)]
    return u, prof


def p2p_path(c, p, pfl):
    """The prepared path and its reference attenuation"""
    if c.symbolic:
        p.update(p2p_uf(pfl, p['hg'], p['gme']))
        p['dist'] = pfl[0] * pfl[1]
        f = flatp(p)
        p['aref'] = U('Aref', p['dist'], f, f)
        return p
    p.update(chain.p2p(pfl, p['hg'], p['gme']))
    p['aref'] = chain.p2p_aref(p)
    return p


def p2p_quantile(c, rel, conf, p):
    if c.symbolic:
        return want_avar(z(rel), 0, z(conf), p, 5, 11)
    co = R.avar_coefficients(5, 11, p['dist'], p['he'], p['dh'], p['wn'])
    return R.avar_quantile(z(rel), 0, z(conf), p['aref'], co)[0]


def p2p_ref(c, u, prof):
    p = dict(environment(u['fmhz'], 314, u['ipol'], 15, 0.005), hg=u['hg'])
    n = len(prof) - 1
    pfl = [n, u['d'] * 1000 / n] + list(prof)
    p = p2p_path(c, p, pfl)
    out = []
    for r in P2P_REL:
        for q in P2P_CONF:
            out.append((u['d'], r, q, free_space(p['wn'], p['dist']) + p2p_quantile(c, r, q, p)))
    return out


def p2p_stubs(c):
    return {(M_QLRPFL, 'qlrpfl'): qlrpfl_stub, (M_AVAR, 'avar'): avar_stub} if c.symbolic else {}


def h_p2p(c, script, n, ipol):
    said = []
    m = quiet(c.module(script, p2p_stubs(c)), said)
    u, prof = p2p_inputs(c, n, ipol)
    arg = list(prof)
    o = c.run(m.itmlogic_p2p, dict(u, hg=list(u['hg'])), arg)
    w = undefined_ok(c, 'point-to-point prediction', o, lambda: p2p_ref(c, u, prof))
    if w is None:
        return
    rows(c, 'point-to-point prediction', o.value, w, ('distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB'))
    c.eq('profile unchanged', arg, prof, obs=False)


def h_report(c, script, n, ipol):
    """The printed report of a point-to-point run"""
    u, prof = p2p_inputs(c, n, ipol)
    said = []
    stubs = {(M_QLRPFL, 'qlrpfl'): lambda prop: qlrpfl_stub(prop, True), (M_AVAR, 'avar'): avar_stub} if c.symbolic else {}
    m = quiet(c.module(script, stubs), said)
    _report(c, m, said, n, ipol, u, prof)
    if not c.symbolic:
        # what the symbolic path data stand for is reached on the real program by varying the path
        for d in (1, 25, 100, 300, 800, 1500):
            for k, h in ((0, 300), (0.02, 5), (0.2, 20)):
                _report(c, m, said, n, ipol, dict(u, d=d, hg=[h, 10]), [k * x for x in prof])


def _report(c, m, said, n, ipol, u, prof):
    import re
    del said[:]
    tokens = {}
    if c.symbolic:
        from symx import engine as E
        E.TOKENS = tokens
    try:
        o = c.run(m.itmlogic_p2p, dict(u, hg=list(u['hg'])), list(prof))
    finally:
        if c.symbolic:
            E.TOKENS = None
    xi = u['d'] * 1000 / n
    env = dict(environment(u['fmhz'], 314, ipol, 15, 0.005), hg=u['hg'])
    p = undefined_ok(c, 'point-to-point prediction', o, lambda: p2p_path(c, dict(env), [n, xi] + list(prof)))
    if p is None:
        return
    text = [t.lower().replace('-', ' ') for t in said]
    has = lambda *k: any(w in t for t in text for w in k)
    v = r'num#\d+#|[-+]?\d[\d.]*(?:e[-+]?\d+)?'
    num = lambda x: tokens[x] if x in tokens else float(x)
    # ---- free space and confidence levels
    fs = [re.findall(v, t) for t in text if 'free space' in t]
    c.true('one free space value', len(fs) == 1 and len(fs[0]) == 1)
    if len(fs) == 1 and len(fs[0]) == 1:
        c.eq('free space value', num(fs[0][0]), free_space(p['wn'], p['dist']), tol=1e-6, obs=False)
    lv = [re.findall(v, t) for t in text if 'confidence' in t]
    c.true('confidence levels', len(lv) == 1 and [float(x) for x in lv[0]] == list(P2P_CONF))
    # ---- kind of path: the length against the sum of the horizon distances, to half a profile step
    q = p['dist'] - (p['dl'][0] + p['dl'][1])
    if c.symbolic:
        dlsa = U('Dlsa', flatp(p), lo=1)
        dx = dlsa + U('Dx', flatp(p), lo=0)
    else:
        if abs(abs(q) - 0.5 * xi) < 1e-6 * xi:
            return
        s = chain.setup(dict(p, mdp=-1))
        dlsa = dx = s['dlsa']
        if p['dist'] > dlsa * (1 + 1e-9):
            k = dict(s)
            k.update(R.scatter_constants(s))

            def f(x, h):
                k['h0s'] = h
                return R.ascat(x, k)
            dx = R.scatter_line(k, f)['dx']
        if abs(p['dist'] - dx) < 1e-6 * dx:
            return
    kind = 'line of sight' if q < -0.5 * xi else 'double' if q > 0.5 * xi else 'single'
    c.true('announced path type is ' + kind, has(kind) and not any(has(k) for k in ('line of sight', 'double', 'single') if k != kind), text)
    if kind == 'line of sight':
        c.true('no dominant mode beyond the horizon', not has('diffraction', 'scatter'), text)
    elif p['dist'] > dx:
        c.true('scatter is dominant', has('scatter') and not has('diffraction'), text)
    else:
        c.true('diffraction is dominant', has('diffraction') and not has('scatter'), text)


def reports(tier):
    out = []
    for s in ('p2p', 'p2p_2tiles'):
        for i in (0, 1):
            for n in (1, 2, 3, 12, 156) if tier == 'quick' else (1, 2, 3, 4, 5, 12, 40, 156, 620):
                out.append(Ob('%s, ipol=%d, n=%d' % (s, i, n), h_report, {'script': s, 'n': n, 'ipol': i}, pool_n=600))
    return out


# ------------------------------------------------------------------ PIMTER
def pimter_ref(c, prof, dist):
    n = len(prof) - 1
    pfl = [n, dist[1] - dist[0]] + list(prof)
    env = environment(2488.0, 314, 1, 15, 0.005)
    out = []
    for h in range(10, 131):
        p = p2p_path(c, dict(env, hg=[2.56, h]), pfl)
        out.append((2488.0, h, 50, free_space(p['wn'], p['dist']) + p2p_quantile(c, 50, 50, p)))
    return out


def h_pimter(c, n):
    m = quiet(c.module('pimter', p2p_stubs(c)))
    step = c.real('step', 0.1, 30000)
    prof = [c.real('z%d' % i, -400, 9000) for i in range(n + 1)]
    dist = [i * step for i in range(n + 1)]
    a, b = list(prof), list(dist)
    o = c.run(m.run_itmlogic, a, b)
    w = undefined_ok(c, 'PIMTER prediction', o, lambda: pimter_ref(c, prof, dist))
    if w is None:
        return
    rows(c, 'PIMTER prediction', o.value, w, None)
    c.eq('profile unchanged', a, prof, obs=False)


def runners(tier):
    out = []
    for s in ('area', 'area_2tiles'):
        for i in (0, 1):
            out.append(Ob('%s, ipol=%d' % (s, i), h_area, {'script': s, 'ipol': i}, pool_n=300))
    ns = (1, 2, 5, 40, 156, 620) if tier == 'quick' else (1, 2, 3, 5, 10, 20, 40, 80, 156, 300, 620, 1300)
    for s in ('p2p', 'p2p_2tiles'):
        for i in (0, 1):
            for n in ns:
                out.append(Ob('%s, ipol=%d, n=%d' % (s, i, n), h_p2p, {'script': s, 'n': n, 'ipol': i}, pool_n=300))
    for n in ((1, 2, 31, 130) if tier == 'quick' else (1, 2, 4, 31, 130, 620)):
        out.append(Ob('pimter, n=%d' % n, h_pimter, {'n': n}, pool_n=300))
    return out
