"""Shared pieces of the harnesses: input domains, obligations reused by several properties."""
from symx.runner import Ob
from symx.ctx import TrackDict
from symx import gm
from ref import itm as R

M_ADIFF = 'itmlogic.diffraction_attenuation.adiff'
M_AKNFE = 'itmlogic.diffraction_attenuation.aknfe'
M_FHT = 'itmlogic.diffraction_attenuation.fht'
M_ALOS = 'itmlogic.los_attenuation.alos'
M_ASCAT = 'itmlogic.scatter_attenuation.ascat'
M_H0F = 'itmlogic.scatter_attenuation.h0f'
M_AHD = 'itmlogic.scatter_attenuation.ahd'
M_LRPROP = 'itmlogic.lrprop'
M_AVAR = 'itmlogic.statistics.avar'
M_CURV = 'itmlogic.statistics.curv'
M_QLRPS = 'itmlogic.preparatory_subroutines.qlrps'
M_QLRA = 'itmlogic.preparatory_subroutines.qlra'
M_QLRPFL = 'itmlogic.preparatory_subroutines.qlrpfl'
M_HZNS = 'itmlogic.preparatory_subroutines.hzns'
M_DLTHX = 'itmlogic.preparatory_subroutines.dlthx'
M_ZLSQ1 = 'itmlogic.preparatory_subroutines.zlsq1'
M_QERF = 'itmlogic.misc.qerf'
M_QERFI = 'itmlogic.misc.qerfi'
M_QTILE = 'itmlogic.misc.qtile'


# ------------------------------------------------------------------ input domains
def wn(c):
    return c.real('wn', 0.05, 2000, pts=(0.419, 0.838, 210, 420))


def gme(c):
    return c.real('gme', 1e-8, 1e-6, pts=(75e-9, 157e-9, 250e-9))


def hg(c):
    return [c.real('hg0', 0.1, 1e4, pts=(0.5, 1, 1000, 3000)), c.real('hg1', 0.1, 1e4, pts=(0.5, 1, 1000, 3000))]


def he(c):
    return [c.real('he0', 0.1, 2e4), c.real('he1', 0.1, 2e4)]


def dl(c):
    return [c.real('dl0', 1, 2e6), c.real('dl1', 1, 2e6)]


def the(c):
    return [c.real('the0', -1.2, 1.2, pts=(-0.2, 0.2, 0)), c.real('the1', -1.2, 1.2, pts=(-0.2, 0.2, 0))]


def dh(c):
    return c.real('dh', 0, 1e4, pts=(0, 90))


def ens(c):
    return c.real('ens', 50, 800, pts=(250, 301, 400))


def cx(c, name, rlo=0.01, rhi=60, ilo=-60, ihi=60):
    re = c.real(name + '_re', rlo, rhi)
    im = c.real(name + '_im', ilo, ihi)
    return mkc(re, im)


def mkc(re, im):
    if gm._s(re) or gm._s(im):
        from symx.engine import SymComplex
        return SymComplex(re, im)
    return complex(re, im)


def undefined_ok(c, label, o, ref):
    """Compare outcomes when the code or the model leaves the real domain.  Returns both values when
    both are defined, else None.  The model being undefined leaves the code free."""
    try:
        w = ref()
        wok = True
    except ArithmeticError:
        wok = False
    except ValueError:
        wok = False
    if not wok:
        return None
    if not o.ok:
        c.fail(label, 'no result: %s' % o.err)
        return None
    return w


def isnum(x):
    return not isinstance(x, complex)
