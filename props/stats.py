"""Statistics: quantiles of attenuation, normal deviates, order statistics."""
from .common import *

MODES = (0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33, -1, 4, 9, 14, 19, 24, 29, 34, 45)
CLIMATES = (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12)


def curv_leaf(c):
    """The climate curve, as a routine of its own or abstracted by an uninterpreted function."""
    if not c.symbolic:
        return R.curv, {}
    from symx.uf import uf
    f = uf('Curv', R.curv)
    return f, {(M_CURV, 'curv'): f}


def h_curv(c):
    f = c.fn(M_CURV, 'curv')
    a = [c.real('c1', -100, 100), c.real('c2', 0, 9000), c.real('x1', 1e3, 1e7), c.real('x2', 1e3, 1e7),
         c.real('x3', 1e3, 1e7), c.real('de', 0, 2e7)]
    o = c.run(f, *a)
    w = undefined_ok(c, 'climate curve', o, lambda: R.curv(*a))
    if w is not None:
        c.eq('climate curve', o.value, w)


def avar_inputs(c, tag='', zlim=3.1):
    p = {'dist': c.real('dist' + tag, 1, 2e7), 'he': [c.real('he0' + tag, 0.1, 2e4), c.real('he1' + tag, 0.1, 2e4)],
         'dh': c.real('dh' + tag, 0, 1e4, pts=(0, 90)), 'wn': c.real('wn' + tag, 0.05, 2000),
         'aref': c.real('aref' + tag, -50, 2000, pts=(0,)), 'kwx': 0}
    return p


def deviates(c, lim=3.1, tag=''):
    return [c.real(n + tag, -lim, lim, pts=(0, -1.2815, 1.2815)) for n in ('zt', 'zl', 'zc')]


def h_avar(c, klims=(5,), mdvars=(3,), zlim=3.1, kwx=0):
    curv, st = curv_leaf(c)
    f = c.fn(M_AVAR, 'avar', st)
    k = klims[c.integer('klim_index', 0, len(klims) - 1)] if len(klims) > 1 else klims[0]
    m = mdvars[c.integer('mode_index', 0, len(mdvars) - 1)] if len(mdvars) > 1 else mdvars[0]
    p = avar_inputs(c)
    if kwx:
        p['kwx'] = kwx
    z = deviates(c, zlim)
    q = dict(p, klim=k, mdvar=m, lvar=5, he=list(p['he']))
    o = c.run(f, z[0], z[1], z[2], q)

    def ref():
        co = R.avar_coefficients(k, m, p['dist'], p['he'], p['dh'], p['wn'], curv)
        a, w = R.avar_quantile(z[0], z[1], z[2], p['aref'], co)
        return a, max(p['kwx'], w, co['kwx'])
    w = undefined_ok(c, 'quantile of attenuation', o, ref)
    if w is None:
        return
    a, out = o.value
    c.eq('quantile of attenuation', a, w[0])
    c.eq('warning marker', out['kwx'], w[1])
    for key in ('dist', 'he', 'dh', 'wn', 'aref'):
        c.eq('input %s unchanged' % key, out[key], p[key])


def variability(tier):
    out = [Ob('climate curve', h_curv)]
    for i in range(0, len(MODES), 5):
        ms = MODES[i:i + 5]
        out.append(Ob('modes %s' % ','.join(map(str, ms)), h_avar, {'mdvars': ms}))
    for i in range(0, len(CLIMATES), 3):
        ks = CLIMATES[i:i + 3]
        out.append(Ob('climates %s' % ','.join(map(str, ks)), h_avar, {'klims': ks, 'mdvars': (3, 11)}))
    out.append(Ob('extreme deviates', h_avar, {'mdvars': (0, 1, 2, 3), 'zlim': 6}))
    if True:
        for k in CLIMATES:
            for i in range(0, len(MODES), 5):
                ms = MODES[i:i + 5]
                out.append(Ob('climate %d, modes %s' % (k, ','.join(map(str, ms))), h_avar, {'klims': (k,), 'mdvars': ms, 'zlim': 6 if tier == 'thorough' else 3.1}))
    return out


# ------------------------------------------------------------------ C11: refresh levels
def h_avar_refresh(c, level, first=(5, 3), second=(5, 3)):
    """avar after a first evaluation, asked to refresh `level`, equals a fresh evaluation of the
    present parameters.  The parameters that a level declares unchanged are left alone."""
    curv, st = curv_leaf(c)
    f = c.fn(M_AVAR, 'avar', st)
    a = avar_inputs(c, '_a')
    b = avar_inputs(c, '_b')
    if level < 5:
        second = (first[0], second[1])
    if level < 4:
        second = first
    if level < 3:
        b['wn'] = a['wn']
    if level < 2:
        b['he'] = a['he']
    if level < 1:
        b['dist'], b['dh'] = a['dist'], a['dh']
    z1 = [0.3, -0.4, 0.7]
    z = deviates(c)
    q = dict(a, klim=first[0], mdvar=first[1], lvar=5, he=list(a['he']))
    o1 = c.run(f, z1[0], z1[1], z1[2], q)
    if not o1.ok:
        return c.fail('first evaluation', o1.err)
    q = o1.value[1]
    c.eq('refresh request is cleared', q['lvar'], 0)
    q['dist'], q['dh'], q['wn'], q['he'], q['aref'] = b['dist'], b['dh'], b['wn'], list(b['he']), b['aref']
    if level >= 5:
        q['klim'] = second[0]
    if level >= 4:
        q['mdvar'] = second[1]
    q['lvar'] = level
    o = c.run(f, z[0], z[1], z[2], q)

    def ref():
        co = R.avar_coefficients(second[0], second[1], b['dist'], b['he'], b['dh'], b['wn'], curv)
        return R.avar_quantile(z[0], z[1], z[2], b['aref'], co)
    w = undefined_ok(c, 'quantile after refresh', o, ref)
    if w is None:
        return
    c.eq('quantile after refresh', o.value[0], w[0])
    c.eq('refresh request is cleared', o.value[1]['lvar'], 0)


def h_avar_stale(c):
    """Without a refresh request the distribution is that of the last refresh (only the deviates and
    the reference attenuation are read)."""
    curv, st = curv_leaf(c)
    f = c.fn(M_AVAR, 'avar', st)
    a = avar_inputs(c, '_a')
    z1, z = deviates(c, tag='_1'), deviates(c)
    q = dict(a, klim=5, mdvar=3, lvar=5, he=list(a['he']))
    o1 = c.run(f, z1[0], z1[1], z1[2], q)
    if not o1.ok:
        return c.fail('first evaluation', o1.err)
    o2 = c.run(f, z[0], z[1], z[2], o1.value[1])
    g = c.fn(M_AVAR, 'avar', st)
    q = dict(a, klim=5, mdvar=3, lvar=5, he=list(a['he']))
    o3 = c.run(g, z[0], z[1], z[2], q)
    if not (o2.ok and o3.ok):
        return c.fail('quantile', (o2.err or '') + (o3.err or ''))
    c.eq('quantile does not depend on earlier quantiles', o2.value[0], o3.value[0])


def refresh(tier):
    out = []
    for level in range(0, 6):
        out.append(Ob('level %d' % level, h_avar_refresh, {'level': level}))
    for level in range(0, 4):
        for first in ((2, 11), (4, 20), (1, 0), (3, 12), (6, 33), (7, 21), (2, 2), (4, 1), (8, 5)):
            out.append(Ob('level %d, climate %d, mode %d' % ((level,) + first), h_avar_refresh, {'level': level, 'first': first}))
    out.append(Ob('level 5, other climate and mode', h_avar_refresh, {'level': 5, 'first': (1, 11), 'second': (6, 23)}))
    out.append(Ob('level 5, invalid climate first', h_avar_refresh, {'level': 5, 'first': (0, 30), 'second': (7, 0)}))
    out.append(Ob('level 4, other mode', h_avar_refresh, {'level': 4, 'first': (2, 31), 'second': (2, 2)}))
    out.append(Ob('level 4, mode with locations after one without', h_avar_refresh, {'level': 4, 'first': (4, 13), 'second': (4, 1)}))
    out.append(Ob('level 3, point-to-point mode', h_avar_refresh, {'level': 3, 'first': (5, 11)}))
    out.append(Ob('level 1, point-to-point mode', h_avar_refresh, {'level': 1, 'first': (5, 12)}))
    out.append(Ob('repeated quantiles', h_avar_stale))
    if True:
        for k in range(1, 8):
            for lv in range(0, 6):
                out.append(Ob('level %d, climate %d' % (lv, k), h_avar_refresh,
                              {'level': lv, 'first': (k, 0), 'second': (8 - k, 12)}))
    return out


# ------------------------------------------------------------------ C18
def h_qerf(c):
    f = c.fn(M_QERF, 'qerf')
    z = c.real('z', -40, 40, pts=(0, 10, -10, 9.999))
    o = c.run(f, z)
    w = undefined_ok(c, 'probability', o, lambda: R.qerf(z))
    if w is not None:
        c.eq('probability', o.value, w)


def h_qerfi(c, n=1):
    f = c.fn(M_QERFI, 'qerfi')
    q = [c.real('q%d' % i, 0, 1, pts=(0, 1, 0.5, 0.01, 0.99, 0.1, 0.9)) for i in range(n)]
    qq = list(q)
    o = c.run(f, qq)
    w = undefined_ok(c, 'deviates', o, lambda: [gm.rnd(R.qerfi1(x), 4) for x in q])
    if w is None:
        return
    c.true('one deviate per level', len(o.value) == n)
    c.eq('deviates', list(o.value), w)
    c.eq('levels unchanged', qq, q)


def h_qerf_symmetry(c):
    f = c.fn(M_QERF, 'qerf')
    z = c.real('z', 1e-9, 15, pts=(10,))
    a, b = c.run(f, z), c.run(f, -z)
    if not (a.ok and b.ok):
        return c.fail('probability', (a.err or '') + (b.err or ''))
    c.eq('Q(z) + Q(-z) = 1', a.value + b.value, 1)


def h_qerfi_symmetry(c):
    f = c.fn(M_QERFI, 'qerfi')
    q = c.real('q', 0, 0.4999999)
    a, b = c.run(f, [q]), c.run(f, [1 - q])
    m = c.run(f, [0.5])
    if not (a.ok and b.ok and m.ok):
        return c.fail('deviate', (a.err or '') + (b.err or ''))
    # deviates are rounded to four decimals, so the symmetry holds to one unit of the last place
    c.le('deviates of q and 1-q cancel', a.value[0] + b.value[0], 1.0001e-4)
    c.le('deviates of q and 1-q cancel (other side)', -1.0001e-4, a.value[0] + b.value[0])
    c.le('levels below one half have positive deviates', -5e-4, a.value[0])
    c.eq('the median has no deviate', m.value[0], 0, atol=5e-4)


def h_qerf_range(c):
    f = c.fn(M_QERF, 'qerf')
    z = c.real('z', 0, 15, pts=(10,))
    o = c.run(f, z)
    if not o.ok:
        return c.fail('probability', o.err)
    c.le('not negative', 0, o.value)
    c.le('at most one half for z >= 0', o.value, 0.5 + 1e-6)


def normal(tier):
    return [Ob('qerf', h_qerf), Ob('qerfi', h_qerfi, {'n': 1}), Ob('qerfi/3 levels', h_qerfi, {'n': 3}), Ob('qerfi/5 levels', h_qerfi, {'n': 5}),
            Ob('qerf symmetry', h_qerf_symmetry), Ob('qerfi symmetry', h_qerfi_symmetry), Ob('qerf range', h_qerf_range)]


# ------------------------------------------------------------------ C19
def h_qtile(c, n, free=None, k=None):
    f = c.fn(M_QTILE, 'qtile')
    a = [float((37 * i) % 11 * 100 if n < 100 else (7919 * i) % 10007) for i in range(n)]
    # (in long lists the free values stay near the rank)
    near = sorted(a, reverse=True)[k] if n >= 100 else None
    for i in range(n) if free is None else free:
        a[i] = c.real('a%d' % i, *((-1000, 9000) if near is None else (near - 2.5 * 10007 / n, near + 2.5 * 10007 / n)))
    k = c.integer('k', 0, n - 1) if k is None else k
    b = list(a)
    o = c.run(f, b, k)
    if not o.ok:
        return c.fail('order statistic', o.err)
    v = o.value
    ge = gt = 0
    member = False
    for x in a:
        if x > v:
            gt += 1
        elif x == v:
            ge += 1
            member = True
    c.true('the result is one of the values', member)
    c.true('at most k values are larger', gt <= k)
    c.true('more than k values are at least as large', gt + ge > k)
    c.eq('data left in place', b, a)


def h_qtile_const(c, n):
    f = c.fn(M_QTILE, 'qtile')
    x = c.real('x', -1000, 9000)
    k = c.integer('k', 0, n - 1)
    o = c.run(f, [x] * n, k)
    if o.ok:
        c.eq('order statistic of a constant', o.value, x)
    else:
        c.fail('order statistic', o.err)


def order_statistics(tier):
    ns = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)
    return [Ob('n=%d' % n, h_qtile, {'n': n}) for n in ns] + [Ob('constant data', h_qtile_const, {'n': 35})] + \
        [Ob('n=%d, two values vary, k=%d' % (n, k), h_qtile, {'n': n, 'free': (n // 3, n - 2), 'k': k})
         for n, k in ((12, 0), (12, 4), (12, 11), (35, 3), (35, 31), (245, 24), (620, 61)) + (((245, 220), (1300, 1200)) if tier != 'quick' else ())]


# ------------------------------------------------------------------ C10
def free_curves(c):
    """The climate curves as arbitrary values of the right sign."""
    if not c.symbolic:
        return {}
    v = [c.real('vmd', -20, 20), c.real('sm', 0.1, 20), c.real('sp', 0.1, 20)]

    def curv(*a):
        for t in R.CLIMATE.values():
            for i in range(3):
                if tuple(a[:5]) == t[i]:
                    return v[i]
        return R.curv(*a)
    return {(M_CURV, 'curv'): curv}


# a path for each climate
PATHS = {5: {'dist': 50e3, 'he': [10.0, 20.0], 'dh': 90.0, 'wn': 10.0}, 2: {'dist': 120e3, 'he': [100.0, 5.0], 'dh': 20.0, 'wn': 2.0},
         1: {'dist': 8e3, 'he': [2.0, 1.5], 'dh': 0.0, 'wn': 0.5}, 3: {'dist': 300e3, 'he': [300.0, 30.0], 'dh': 300.0, 'wn': 40.0},
         4: {'dist': 1.2e6, 'he': [10.0, 1000.0], 'dh': 1000.0, 'wn': 200.0}, 6: {'dist': 25e3, 'he': [50.0, 2.0], 'dh': 5.0, 'wn': 20.0},
         7: {'dist': 80e3, 'he': [1.0, 1.0], 'dh': 50.0, 'wn': 1.0}}


def h_monotone(c, mode, which, klim, part, zc=None):
    """part: the side of the thresholds 0 and zd on which the deviate lies"""
    f = c.fn(M_AVAR, 'avar', free_curves(c))
    # attenuations high enough for the correction of negative values not to act (it has its own obligation)
    p = {**PATHS[klim], 'kwx': 0, 'aref': c.real('aref', 1000, 2000), 'klim': klim, 'mdvar': mode}
    zd = R.CLIMATE[klim][4]
    lim = {'below 0': (-3.1, -1e-9), 'to zd': (0, min(zd, 3.1)), 'beyond zd': (zd + 1e-9, 3.1)}[part]
    side = 'zc' if mode % 10 == 0 else 'zt'
    z = {}
    for k in ('zt', 'zl', 'zc'):
        z[k] = c.real(k, *(lim if k == side else (-3.1, 3.1))) if k in USED[mode % 10] else 0
    if zc is not None:
        z['zc'] = zc
    run = lambda z: c.run(f, z['zt'], z['zl'], z['zc'], dict(p, lvar=5, he=list(p['he'])))
    a = run(z)
    if not a.ok:
        return c.fail('quantile', a.err)

    def probe(x):
        if x > 3.1:
            return None
        o = run(dict(z, **{which: x}))
        return o.value[0] if o.ok else None
    c.falling('a less demanding quantile is not larger', a.value[0], which, probe)


def h_joints(c, mode, which, klim):
    """No upward step where the time deviate passes 0 or the break point of the climate."""
    f = c.fn(M_AVAR, 'avar', free_curves(c))
    p = {**PATHS[klim], 'kwx': 0, 'aref': c.real('aref', 1000, 2000), 'klim': klim, 'mdvar': mode}
    z = dict(zip(('zt', 'zl', 'zc'), deviates(c)))
    eps = c.real('eps', 1e-9, 1e-6)
    zd = R.CLIMATE[klim][4]
    for name, x in (('0', 0), ('zd', zd)):
        if x > 3.1:
            continue
        v = []
        for s in (-1, 1):
            y = dict(z, **{which: x + s * eps})
            o = c.run(f, y['zt'], y['zl'], y['zc'], dict(p, lvar=5, he=list(p['he'])))
            if not o.ok:
                return c.fail('quantile', o.err)
            v.append(c.at(o.value[0], 'eps', 0))
        c.le('no step up at ' + name, v[1], v[0] if c.symbolic else v[0] + 1e-3, tol=1e-7)


def h_correction(c, mode=3, z=(0.5, 0.5, 0.5), klim=5):
    """The correction of negative attenuations keeps their order and sign."""
    f = c.fn(M_AVAR, 'avar', free_curves(c))
    a1, a2 = c.real('aref', -20, 400), c.real('aref_2', -20, 400)
    c.assume(a1 <= a2)
    v = []
    for a in (a1, a2):
        o = c.run(f, z[0], z[1], z[2], {**PATHS[klim], 'kwx': 0, 'aref': a,
                                     'klim': klim, 'mdvar': mode, 'lvar': 5})
        if not o.ok:
            return c.fail('quantile', o.err)
        v.append(o.value[0])
    c.le('a larger reference attenuation gives no smaller quantile', v[0], v[1], tol=1e-7)


USED = {0: ('zc',), 1: ('zt', 'zc'), 2: ('zt', 'zc'), 3: ('zt', 'zl', 'zc')}


def monotone(tier):
    out = []
    for m in (0, 1, 2, 3):
        for w in USED[m]:
            for k in (1, 2, 3, 4, 5, 6, 7):
                for part in ('below 0', 'to zd', 'beyond zd'):
                    if part == 'beyond zd' and R.CLIMATE[k][4] > 3.1:
                        continue
                    if m == 2 and w == 'zt' and part == 'beyond zd':
                        for zc in (-3, -1.2815, 0, 1.2815):
                            # (two square roots with opposing signs: z3 gives up on some of these)
                            hard = not (k == 2 or zc >= 0)
                            if hard and tier == 'quick':
                                continue
                            out.append(Ob('mode 2, zt, climate %d, beyond zd, zc=%s' % (k, zc), h_monotone,
                                          {'mode': m, 'which': w, 'klim': k, 'part': part, 'zc': zc}, timeout_ms=30000, must=not hard))
                        continue
                    out.append(Ob('mode %d, %s, climate %d, %s' % (m, w, k, part), h_monotone,
                                  {'mode': m, 'which': w, 'klim': k, 'part': part}, timeout_ms=30000))
    for m in (0, 1, 2, 3):
        for w in ('zc',) if m == 0 else ('zt',):
            for k in (1, 2, 3, 4, 5, 6, 7):
                out.append(Ob('joints, mode %d, %s, climate %d' % (m, w, k), h_joints, {'mode': m, 'which': w, 'klim': k}))
    out.append(Ob('correction of negative attenuations', h_correction))
    for m, zz, k in ((0, (1.0, 0.3, -2.0), 1), (1, (-2.3, 1.0, 1.5), 2), (2, (0.7, -0.5, 1.2), 3), (3, (3.0, 2.5, 3.0), 4), (11, (-1.0, 0, 2.0), 6), (12, (2.2, 1.0, 0), 7),
                     (23, (0.4, 3.0, 1.0), 5), (30, (0, 0, 2.8), 5)):
        out.append(Ob('reference attenuation, mode %d, climate %d' % (m, k), h_correction, {'mode': m, 'z': zz, 'klim': k}))
    return out
