"""Abstractions of the attenuation routines for the checks of lrprop and of the runners: each
routine becomes an uninterpreted function of exactly the path parameters it reads (that it reads
no others and equals the model's formula is shown by the leaf obligations)."""
from .common import *

SETUP_IN = ('hg', 'he', 'mdp', 'dla', 'tha', 'gme', 'dlsa', 'dh', 'wn', 'zgnd', 'dl')
SETUP_OUT = ('wd1', 'xd1', 'afo', 'qk', 'aht', 'xht')
ADIFF_IN = ('dl', 'wn', 'gme', 'dh', 'tha', 'dla') + SETUP_OUT
ALOS_IN = ('he', 'wn', 'dh', 'zgnd', 'emd', 'aed', 'wis')
ASCAT_IN = ('the', 'he', 'wn', 'gme', 'ens', 'tha', 'ad', 'rr', 'etq', 'h0s')
PAIR = ('hg', 'he', 'dl', 'the')


def pack(keys, row):
    """Flat UF arguments back to a parameter dict."""
    p, i = {}, 0
    for k in keys:
        if k in PAIR:
            p[k] = [row[i], row[i + 1]]
            i += 2
        elif k == 'zgnd':
            p[k] = complex(row[i], row[i + 1])
            i += 2
        else:
            p[k] = row[i]
            i += 1
    return p


def args(keys, p):
    return [p[k] for k in keys]


def _nums():
    from symx import uf
    if 'Adiff' in uf.NUMERIC:
        return
    for k in SETUP_OUT:
        uf.register('Dset_' + k, lambda *r, k=k: R.adiff_setup(pack(SETUP_IN, r))[k])
    uf.register('Adiff', lambda d, *r: R.adiff(d, pack(ADIFF_IN, r)))
    uf.register('Alos', lambda d, *r: R.alos(d, pack(ALOS_IN, r)))
    uf.register('Ascat', lambda d, *r: R.ascat(d, pack(ASCAT_IN, r))[0])
    uf.register('Ascat_h0', lambda d, *r: R.ascat(d, pack(ASCAT_IN, r))[1])


def swapped(keys, p):
    q = dict(p)
    for k in PAIR:
        if k in q and k in keys:
            q[k] = [p[k][1], p[k][0]]
    return q


class Leaves:
    """The three routines, as the model's code (concrete) or as uninterpreted functions (symbolic)."""
    def __init__(self, c, null=False):
        self.c = c
        self.null = null
        if c.symbolic:
            _nums()

    # -- as the model uses them
    def setup(self, p):
        if self.null:
            return {k: 1 for k in SETUP_OUT}
        if not self.c.symbolic:
            return R.adiff_setup(p)
        from symx.uf import uf_call
        a = args(SETUP_IN, p)
        lo = {'wd1': 0, 'qk': 0, 'afo': 0}
        return {k: uf_call('Dset_' + k, a, lo.get(k, float('-inf'))) for k in SETUP_OUT}

    def adiff(self, d, p):
        if self.null:
            return d * 1e-4 + 1
        if not self.c.symbolic:
            return R.adiff(d, p)
        from symx.uf import uf_call
        return uf_call('Adiff', [d] + args(ADIFF_IN, p))

    def alos(self, d, p):
        if self.null:
            return 3
        if not self.c.symbolic:
            return R.alos(d, p)
        from symx.uf import uf_call
        return uf_call('Alos', [d] + args(ALOS_IN, p))

    def ascat(self, d, p):
        if self.null:
            return 2000, 0
        if not self.c.symbolic:
            return R.ascat(d, p)
        from symx.uf import uf_call
        a = [d] + args(ASCAT_IN, p)
        return uf_call('Ascat', a), uf_call('Ascat_h0', a)

    # -- as the code calls them
    def stubs(self):
        if not self.c.symbolic:
            return {}

        def adiff(d, prop):
            if d == 0:
                prop.update(self.setup(prop))
                return 0, prop
            return self.adiff(d, prop), prop

        def alos(d, prop):
            return self.alos(d, prop)

        def ascat(d, prop):
            prop['ascat1'], prop['h0s'] = self.ascat(d, prop)
            return prop
        return {(M_ADIFF, 'adiff'): adiff, (M_ALOS, 'alos'): alos, (M_ASCAT, 'ascat'): ascat}
