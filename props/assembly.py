"""lrprop: how the reference attenuation is put together."""
from .common import *
from .stubs import Leaves

IN = ('hg', 'he', 'dl', 'the', 'wn', 'gme', 'ens', 'dh', 'zgnd', 'kwx')


def path_inputs(c, beyond=''):
    """Path parameters after the preparatory routines, inside every limit that raises the warning
    marker, so that the marker's own branching (a separate property) does not multiply paths, except
    for the parameter named, which lies anywhere."""
    p = {}
    g = c.real('gme', 7.6e-8, 2.5e-7)
    p['gme'] = g
    p['wn'] = c.real('wn', 0.84, 209)
    p['hg'] = [c.real('hg0', 1, 1000), c.real('hg1', 1, 1000)]
    p['he'] = [c.real('he0', 1, 3000), c.real('he1', 1, 3000)]
    p['ens'] = c.real('ens', 250, 400)
    p['dh'] = c.real('dh', 0, 1000)
    t = [c.real('t0', 0.1001, 2.999), c.real('t1', 0.1001, 2.999)]
    p['the'] = [c.real('the0', -0.2, 0.2), c.real('the1', -0.2, 0.2)]
    zi = c.real('z_im', -0.9, 0.9)
    p['zgnd'] = mkc(c.real('z_re', 1, 60), zi)
    p['kwx'] = 0
    if beyond == 'wn':
        p['wn'] = c.real('wn_wide', 0.05, 2000, pts=(0.419, 0.838, 210, 420))
    elif beyond == 'hg':
        p['hg'] = [c.real('hg0_wide', 0.1, 10000, pts=(0.5, 1, 1000, 3000)), c.real('hg1', 1, 1000)]
    elif beyond == 'hg1':
        p['hg'] = [c.real('hg0', 1, 1000), c.real('hg1_wide', 0.1, 10000, pts=(0.5, 1, 1000, 3000))]
    elif beyond == 'he':
        p['he'] = [c.real('he0_wide', 0.1, 20000), c.real('he1_wide', 0.1, 20000)]
    elif beyond == 'dl':
        t = [c.real('t0_wide', 0.001, 20), c.real('t1', 0.1001, 2.999)]
    elif beyond == 'dl1':
        t = [c.real('t0', 0.1001, 2.999), c.real('t1_wide', 0.001, 20)]
    elif beyond == 'the':
        p['the'] = [c.real('the0_wide', -1.2, 1.2), c.real('the1', -0.2, 0.2)]
    elif beyond == 'the1':
        p['the'] = [c.real('the0', -0.2, 0.2), c.real('the1_wide', -1.2, 1.2)]
    elif beyond == 'ens':
        p['ens'] = c.real('ens_wide', 50, 800)
    elif beyond == 'gme':
        p['gme'] = g = c.real('gme_wide', 1e-8, 1e-6)
    elif beyond == 'dh':
        p['dh'] = c.real('dh_wide', 0, 10000)
    elif beyond == 'z':
        p['zgnd'] = mkc(c.real('zw_re', 0.05, 200), c.real('zw_im', -100, 100))
    elif beyond == 'kwx':
        p['kwx'] = c.integer('kwx', 1, 4)
    p['dl'] = [t[j] * gm.sqrt(2 * p['he'][j] / g) for j in (0, 1)]
    return p


def fresh(p, mdp=1):
    q = dict(p)
    for k in ('hg', 'he', 'dl', 'the'):
        q[k] = list(p[k])
    q['mdp'] = mdp
    return q


def model(c, L, p, d, mdp):
    """The model's path set-up; returns the set of coefficients."""
    s = dict(p)
    s['mdp'] = mdp
    s.update(R.geometry(p))
    s.update(L.setup(s))
    s.update(R.diffraction_line(s, lambda x: L.adiff(x, s)))
    return s


def model_scat(L, s):
    q = dict(s)
    q.update(R.scatter_constants(s))

    def f(d, h):
        q['h0s'] = h
        return L.ascat(d, q)
    return R.scatter_line(q, f)


def model_aref(c, L, s, d):
    keep = {}

    def los():
        keep['los'] = R.los_coefficients(s, lambda x: L.alos(x, s))
        return keep['los']

    def scat():
        keep['scat'] = model_scat(L, s)
        return keep['scat']
    return R.reference_attenuation(d, s, los, scat), keep


def split(c, p, case):
    """Case split of the domain (all cases together cover it)."""
    for x in case.split(','):
        if x == 'he0>=he1':
            c.assume(p['he'][0] >= p['he'][1])
        elif x == 'he0<he1':
            c.assume(p['he'][0] < p['he'][1])
        elif x == 'dl0>=dl1':
            c.assume(p['dl'][0] >= p['dl'][1])
        elif x == 'dl0<dl1':
            c.assume(p['dl'][0] < p['dl'][1])


def distance(c, p, region, name='d', calm=False, wide=False):
    d = _distance(c, p, region, name, wide)
    if calm:
        # no distance warning (the marker is a property of its own)
        c.assume(d <= 1e6)
        c.assume(d >= 5 * (p['he'][0] - p['he'][1]))
        c.assume(d >= 5 * (p['he'][1] - p['he'][0]))
    return d


def _distance(c, p, region, name, wide=False):
    dlsa = gm.sqrt(2 * p['he'][0] / p['gme']) + gm.sqrt(2 * p['he'][1] / p['gme'])
    lo, hi = (1, 2e7) if wide else (1e3, 2e6)
    if region == 'near':
        d = c.real(name, lo, 6e5)
        c.assume(d < dlsa)
    elif region == 'far':
        d = c.real(name, lo, hi)
        c.assume(d >= dlsa)
    else:
        d = c.real(name, lo, hi)
    return d


def call(c, f, d, q, mdp):
    """Area mode passes the distance; point-to-point mode carries it in the parameters."""
    if mdp < 0:
        q['dist'] = d
        return c.run(f, 0, q)
    return c.run(f, d, q)


def h_aref(c, mdp, region, case='', beyond=''):
    L = Leaves(c)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    p = path_inputs(c, beyond)
    split(c, p, case)
    d = distance(c, p, region, calm=beyond not in ('', 'd', 'he'), wide=beyond == 'd')
    q = fresh(p, mdp)
    o = call(c, f, d, q, mdp)

    def ref():
        s = model(c, L, p, d, mdp)
        a, keep = model_aref(c, L, s, d)
        return s, a, keep
    w = undefined_ok(c, 'reference attenuation', o, ref)
    if w is None:
        return
    s, a, keep = w
    out = o.value
    c.eq('reference attenuation', out['aref'], a)
    c.eq('distance', out['dist'], d)
    for k in ('dlsa', 'dla', 'tha', 'emd', 'aed'):
        if k in out:
            c.eq('path constant ' + k, out[k], s[k])
    for part in keep.values():
        for k in ('ael', 'ak1', 'ak2', 'ems', 'aes', 'dx'):
            if k in part and k in out:
                c.eq('coefficient ' + k, out[k], part[k])
    for k in IN:
        if k != 'kwx':
            c.eq('input %s unchanged' % k, out[k], p[k])


def assembly(tier):
    out = []
    for mdp in (1, -1):
        for region in ('near', 'far'):
            for case in ('he0>=he1', 'he0<he1'):
                out.append(Ob('aref/%s/%s/%s' % ('area' if mdp > 0 else 'point', region, case), h_aref,
                              {'mdp': mdp, 'region': region, 'case': case}))
    out += outside('aref', h_aref, tier)
    return out


BEYOND = ('d', 'wn', 'hg', 'hg1', 'he', 'dl', 'dl1', 'the', 'the1', 'ens', 'gme', 'dh', 'z', 'kwx')


def outside(name, h, tier):
    """One parameter beyond its limits"""
    out = []
    for i, b in enumerate(BEYOND):
        for region in ('near', 'far'):
            for mdp in (1, -1) if tier != 'quick' else (1 if i % 2 == (region == 'far') else -1,):
                for case in ('he0>=he1', 'he0<he1') if tier != 'quick' or b == 'he' else ('he0>=he1' if i % 3 else 'he0<he1',):
                    out.append(Ob('%s/%s/%s/%s/any %s' % (name, 'area' if mdp > 0 else 'point', region, case, b), h,
                                  {'mdp': mdp, 'region': region, 'case': case, 'beyond': b}))
    return out


# ------------------------------------------------------------------ C05
def h_shape(c, mdp, region, case='', beyond=''):
    """Not negative; the line-of-sight, diffraction and scatter pieces join without a step."""
    L = Leaves(c)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    p = path_inputs(c, beyond)
    split(c, p, case)
    d = distance(c, p, region, calm=beyond not in ('', 'd', 'he'), wide=beyond == 'd')
    o = call(c, f, d, fresh(p, mdp), mdp)
    if not o.ok:
        try:
            model_aref(c, L, model(c, L, p, d, mdp), d)
        except (ArithmeticError, ValueError):
            return
        return c.fail('reference attenuation', o.err)
    out = o.value
    c.le('not negative', 0, out['aref'])
    if not c.symbolic:
        # on the real program the joints are looked at from both sides
        joints = []
        g = model(c, L, p, d, mdp)
        joints.append(('line of sight / diffraction', g['dlsa']))
        if 'dx' in out and out['dx'] < 9e6:
            joints.append(('diffraction / scatter', out['dx']))
        for name, x in joints:
            if not x > 1:
                continue
            v = [call(c, f, x * (1 + s), fresh(p, mdp), mdp) for s in (-1e-9, 0, 1e-9)]
            if all(r.ok for r in v):
                a = [float(r.value['aref']) for r in v]
                c.goals.append(('no step: ' + name, max(a) - min(a) <= 1e-4 * (1 + max(a)), a, None))
        return
    # the pieces that were built in this call agree where they meet
    has = lambda *k: all(x in out for x in k)
    if region == 'near' and has('ael', 'ak1', 'ak2', 'aed', 'emd', 'dlsa'):
        c.eq('no step: line of sight / diffraction',
             out['ael'] + out['ak1'] * out['dlsa'] + out['ak2'] * gm.log(out['dlsa']), out['aed'] + out['emd'] * out['dlsa'], obs=False)
    if region == 'far' and has('aes', 'ems', 'dx', 'aed', 'emd'):
        c.eq('no step: diffraction / scatter', out['aes'] + out['ems'] * out['dx'], out['aed'] + out['emd'] * out['dx'], obs=False)
        c.le('scatter only beyond the smooth-earth horizons', out['dlsa'], out['dx'])


def shape(tier):
    out = []
    for mdp in (1, -1):
        for region in ('near', 'far'):
            for case in ('he0>=he1', 'he0<he1'):
                out.append(Ob('%s/%s/%s' % ('area' if mdp > 0 else 'point', region, case), h_shape,
                              {'mdp': mdp, 'region': region, 'case': case}))
    return out + outside('any', h_shape, tier)


# ------------------------------------------------------------------ C06
def h_sequence(c, regions, case='', beyond=''):
    """The last of a sequence of area distances gets what a fresh start gives it."""
    L = Leaves(c)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    p = path_inputs(c, beyond)
    split(c, p, case)
    q = fresh(p, 1)
    o = None
    for i, r in enumerate(regions):
        # (of the distances the last is the one that may lie beyond its limits)
        d = 0 if r == 'zero' else distance(c, p, r, 'd%d' % i, calm=beyond != 'd' or i < len(regions) - 1, wide=beyond == 'd')
        o = c.run(f, d, q)
        if not o.ok:
            break
        q = o.value
    o2 = c.run(f, d, fresh(p, 1))
    if not o2.ok:
        return
    if not o.ok:
        # an earlier distance of the sequence has no value of its own: nothing to compare
        return
    c.eq('attenuation does not depend on earlier distances', o.value['aref'], o2.value['aref'])
    c.eq('distance', o.value['dist'], d)


def h_restart(c, first, region, mdp, what, mdp1=1):
    """A path started anew in a used parameter set gets what a fresh parameter set gives it."""
    L = Leaves(c)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    p = path_inputs(c)
    p['he'][0] = p['he'][1] + c.real('dhe', 0, 1000)
    r = dict(p)
    if what == 'heights':
        r['he'] = [c.real('he0b', 1, 3000), c.real('he1b', 1, 3000)]
        r['dl'] = [gm.sqrt(2 * h / p['gme']) for h in r['he']]
        c.assume(r['he'][0] >= r['he'][1])
    elif what == 'terrain':
        r['dh'] = c.real('dhb', 0, 1000)
        r['the'] = [c.real('the0b', -0.2, 0.2), c.real('the1b', -0.2, 0.2)]
    elif what == 'frequency':
        r['wn'] = c.real('wnb', 0.84, 209)
        r['ens'] = c.real('ensb', 250, 400)
    elif what == 'ground':
        r['zgnd'] = mkc(c.real('zb_re', 1, 60), c.real('zb_im', -0.9, 0.9))
        r['hg'] = [c.real('hg0b', 1, 1000), c.real('hg1b', 1, 1000)]
    q = fresh(p, mdp1)
    d = 0 if first == 'zero' else distance(c, p, first, 'd0', calm=True)
    L.null = True            # the first path only has to leave its traces
    o = call(c, f, d, q, mdp1)
    L.null = False
    if not o.ok:
        return
    q = o.value
    q.update(fresh(r, mdp))
    d = distance(c, r, region, 'd1', calm=True)
    o = call(c, f, d, q, mdp)
    o2 = call(c, f, d, fresh(r, mdp), mdp)
    if not o2.ok:
        return
    if not o.ok:
        return c.fail('path started anew', o.err)
    c.eq('attenuation of a path started anew', o.value['aref'], o2.value['aref'])


def sequences(tier):
    out = []
    two = [('zero', 'near'), ('zero', 'far'), ('near', 'near'), ('near', 'far'), ('far', 'near'), ('far', 'far')]
    for case in ('he0>=he1', 'he0<he1'):
        for r in two:
            out.append(Ob('%s/%s' % (','.join(r), case), h_sequence, {'regions': r, 'case': case}))
    for w, first, reg in (('heights', 'near', 'near'), ('heights', 'far', 'far'), ('terrain', 'near', 'near'), ('terrain', 'far', 'far'),
                          ('frequency', 'zero', 'near'), ('ground', 'near', 'near')):
        out.append(Ob('restart, other %s, %s then %s' % (w, first, reg), h_restart, {'first': first, 'region': reg, 'mdp': 1, 'what': w}))
    out.append(Ob('restart as point-to-point', h_restart, {'first': 'near', 'region': 'near', 'mdp': -1, 'what': 'terrain'}))
    for first, reg, mdp, w in (('far', 'near', -1, 'terrain'), ('far', 'far', -1, 'heights'), ('far', 'far', 1, 'frequency')) + \
            ((('near', 'near', -1, 'terrain'), ('near', 'near', 1, 'ground')) if tier != 'quick' else ()):
        out.append(Ob('restart after point-to-point, other %s, %s then %s, %s' % (w, first, reg, 'area' if mdp > 0 else 'point'), h_restart,
                      {'first': first, 'region': reg, 'mdp': mdp, 'what': w, 'mdp1': -1}))
    pairs = two[2:]
    for i, b in enumerate(BEYOND):
        if b == 'he':
            continue
        for r in pairs if tier != 'quick' else (pairs[3 * (i % 2)],):
            out.append(Ob('%s/any %s' % (','.join(r), b), h_sequence, {'regions': r, 'case': 'he0>=he1', 'beyond': b}))
    # (all states of the two flags kept between the calls)
    three = [('near', 'far', 'near'), ('far', 'near', 'far'), ('near', 'near', 'near'), ('near', 'zero', 'near')]
    if tier != 'quick':
        three += [('zero', 'near', 'far'), ('zero', 'far', 'near'), ('far', 'zero', 'near'), ('far', 'far', 'near'), ('near', 'far', 'far'), ('far', 'near', 'near'),
                  ('far', 'far', 'far'), ('far', 'zero', 'far'), ('near', 'zero', 'far'), ('near', 'far', 'near', 'far'), ('zero', 'near', 'far', 'near')]
    for r in three:
        out.append(Ob('%s' % ','.join(r), h_sequence, {'regions': r, 'case': 'he0>=he1'}))
    if tier != 'quick':
        for w in ('heights', 'terrain', 'frequency', 'ground'):
            for first in ('zero', 'near', 'far'):
                for reg in ('near', 'far'):
                    out.append(Ob('restart %s %s %s' % (w, first, reg), h_restart, {'first': first, 'region': reg, 'mdp': 1, 'what': w}))
    return out


# ------------------------------------------------------------------ C07
IN_LIMITS = {'wn': 10.0, 'hg': [10.0, 20.0], 'he': [10.0, 20.0], 'the': [0.01, -0.02], 'ens': 301.0, 'gme': 1.2e-7,
             'z': complex(3.0, 0.5), 'd': 40e3, 'dh': 90.0}


def h_marker(c, free, mdp=1, prior=True):
    L = Leaves(c, null=True)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    b = dict(IN_LIMITS)
    p = {'wn': wn(c) if 'wn' in free else b['wn'], 'dh': b['dh'],
         'hg': hg(c) if 'hg' in free else list(b['hg']),
         'ens': ens(c) if 'ens' in free else b['ens'], 'gme': gme(c) if 'gme' in free else b['gme'],
         'the': the(c) if 'the' in free else list(b['the']),
         'zgnd': cx(c, 'z', 0.1, 20, -20, 20) if 'z' in free else b['z']}
    p['he'] = [c.real('he0', 0.5, 5000), c.real('he1', 0.5, 5000)] if 'he' in free else list(b['he'])
    dls = [gm.sqrt(2 * h / p['gme']) for h in p['he']]
    if 'dl' in free:
        p['dl'] = [c.real('dl0', 10, 8e4), c.real('dl1', 10, 8e4)]
    else:
        p['dl'] = [0.9 * x for x in dls]
    d = c.real('d', 10, 2.5e6, pts=(1e3, 1e6, 2e6)) if 'd' in free else b['d']
    k = c.integer('kwx', 0, 4) if prior else 0
    p['kwx'] = k
    q = fresh(p, mdp)
    o = call(c, f, d, q, mdp)

    def ref():
        w = R.warn_setup(p, dls)
        return R.warn_distance(w, d, gm.ab(p['he'][0] - p['he'][1]) / 0.2)
    if o.kind == 'undef':
        return                # whether the attenuation itself exists is not this property
    w = undefined_ok(c, 'warning marker', o, ref)
    if w is None:
        return
    c.eq('warning marker', o.value['kwx'], w)


def h_marker_sequence(c):
    """Along an area sequence the marker keeps the worst warning so far."""
    L = Leaves(c, null=True)
    f = c.fn(M_LRPROP, 'lrprop', L.stubs())
    b = dict(IN_LIMITS)
    p = {'wn': wn(c), 'dh': b['dh'], 'hg': list(b['hg']), 'ens': b['ens'], 'gme': b['gme'], 'the': list(b['the']), 'zgnd': b['z'],
         'he': [c.real('he0', 0.5, 5000), 20.0], 'kwx': 0}
    dls = [gm.sqrt(2 * h / p['gme']) for h in p['he']]
    p['dl'] = [0.9 * x for x in dls]
    q = fresh(p, 1)
    w = R.warn_setup(p, dls)
    for i in (0, 1):
        d = c.real('d%d' % i, 10, 2.5e6, pts=(1e3, 1e6, 2e6))
        o = c.run(f, d, q)
        if not o.ok:
            return c.fail('warning marker', o.err) if o.kind == 'exc' else None
        q = o.value
        w = R.warn_distance(w, d, gm.ab(p['he'][0] - p['he'][1]) / 0.2)
    c.eq('warning marker', o.value['kwx'], w)


def marker(tier):
    groups = [('wn',), ('hg',), ('ens', 'gme'), ('z',), ('the',), ('dl',), ('he', 'd'), ('d', 'wn')]
    out = [Ob('limits of ' + ', '.join(g), h_marker, {'free': g}) for g in groups]
    out.append(Ob('limits of dl, he', h_marker, {'free': ('dl', 'he'), 'prior': False}))
    out.append(Ob('limits of he, d, point-to-point', h_marker, {'free': ('he', 'd'), 'mdp': -1}))
    out.append(Ob('limits of wn, the, point-to-point', h_marker, {'free': ('wn', 'the'), 'mdp': -1}))
    out.append(Ob('limits of hg, the', h_marker, {'free': ('hg', 'the'), 'prior': False}))
    out.append(Ob('sequence', h_marker_sequence))
    from . import stats
    out.append(Ob('deviates', stats.h_avar, {'mdvars': (0, 1, 2, 3), 'zlim': 6}))
    out.append(Ob('climate and mode codes', stats.h_avar, {'klims': (-1, 0, 5, 8), 'mdvars': (-1, 3, 4, 34)}))
    if tier != 'quick':
        for i, g in enumerate(groups):
            for h in groups[i + 1:]:
                out.append(Ob('limits of %s and %s' % (', '.join(g), ', '.join(h)), h_marker, {'free': g + h, 'prior': False}))
    return out
