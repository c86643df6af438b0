"""Reference model, written from "The ITS Irregular Terrain Model, version 1.2.2: The Algorithm"
(Hufford; references/itm_alg.pdf, equation numbers below), the ITM user's manual
(references/itm_man.txt) and, where those leave it open, the published ITM 1.2.2 program.
Works on floats and on symbolic reals alike.  Lengths in metres, angles in radians, dB."""
from symx.gm import exp, log, sqrt, sin, cos, rpow, csqrt, floor, trunc, rnd, mx, mn, ab

GMA = 157e-9


class Undefined(ArithmeticError):
    """The model does not define a value here."""


# ------------------------------------------------------------------ 4.2 diffraction
def knife_edge(v2):
    """Fn(v), (6.1); v2 is the square of v.  Non-positive arguments act as 1e-5."""
    if v2 <= 0:
        v2 = 1e-5
    if v2 < 5.76:
        return 6.02 + 9.11 * sqrt(v2) - 1.27 * v2
    return 12.953 + 4.343 * log(v2)


def height_gain(x, k):
    """F(x, K), (6.2)-(6.7)"""
    if x >= 2000:
        return 0.05751 * x - 4.343 * log(x)
    if x >= 200:
        w = 0.0134 * x * exp(-0.005 * x)
        return (1 - w) * (0.05751 * x - 4.343 * log(x)) + w * (17.372 * log(x) - 117)
    lk = -log(k)
    if k < 1e-5 or x * lk * lk * lk > 5495:
        if x > 1:
            return 17.372 * log(x) - 117
        return -117
    return 2.5e-5 * x * x / k - 8.686 * lk - 15


def roughness(d, dh):
    """delta-h(d), (3.9)"""
    return (1 - 0.8 * exp(-d / 50e3)) * dh


def sigma_h(q):
    """(3.10), from delta-h(d)"""
    return 0.78 * q * exp(-rpow(q / 16, 1, 4))


def adiff_setup(p):
    """Constants of the diffraction attenuation: what (4.11)-(4.20) need once per path."""
    hg, he, dl, wn = p['hg'], p['he'], p['dl'], p['wn']
    hh = hg[0] * hg[1]
    extra = he[0] * he[1] - hh
    if p['mdp'] < 0:
        den = hh + 10
    else:
        den = hh
    o = {}
    o['wd1'] = sqrt(1 + extra / den)
    o['xd1'] = p['dla'] + p['tha'] / p['gme']
    o['afo'] = mn(15, 2.171 * log(1 + 4.77e-4 * hg[0] * hg[1] * wn * sigma_h(roughness(p['dlsa'], p['dh']))))
    z = p['zgnd']
    o['qk'] = 1 / sqrt(z.real * z.real + z.imag * z.imag)
    o['aht'] = 20
    o['xht'] = 0
    for j in (0, 1):
        a = 0.5 * dl[j] * dl[j] / he[j]           # effective earth radius, (4.15)
        wa = rpow(a * wn, 1, 3)
        k = o['qk'] / wa
        x = (1.607 - k) * 151.0 * wa * dl[j] / a
        o['xht'] = o['xht'] + x
        o['aht'] = o['aht'] + height_gain(x, k)
    return o


def adiff(d, p):
    """A_diff(d), (4.9)-(4.20); p holds the path data and the set-up constants"""
    dl, wn = p['dl'], p['wn']
    th = p['tha'] + d * p['gme']
    ds = d - p['dla']
    q = 0.0795775 * wn * ds * th * th
    ak = knife_edge(q * dl[0] / (ds + dl[0])) + knife_edge(q * dl[1] / (ds + dl[1]))
    a = ds / th
    wa = rpow(a * wn, 1, 3)
    k = p['qk'] / wa
    x = (1.607 - k) * 151.0 * wa * th + p['xht']
    ar = 0.05751 * x - 4.343 * log(x) - p['aht']
    q = (p['wd1'] + p['xd1'] / d) * mn(roughness(d, p['dh']) * wn, 6283.2)
    w = 25.1 / (25.1 + sqrt(q))
    return w * ar + (1 - w) * ak + p['afo']


# ------------------------------------------------------------------ 4.3 line of sight
def alos(d, p):
    """A_los(d), (4.43)-(4.51); needs emd, aed and wis"""
    wn, he = p['wn'], p['he']
    s = sigma_h(roughness(d, p['dh']))
    h = he[0] + he[1]
    sps = h / sqrt(d * d + h * h)
    z = p['zgnd']
    damp = exp(-mn(10, wn * s * sps))
    # r = (sps - z)/(sps + z) * damp
    nr, ni = sps - z.real, -z.imag
    dr, di = sps + z.real, z.imag
    m = dr * dr + di * di
    rr = (nr * dr + ni * di) / m * damp
    ri = (ni * dr - nr * di) / m * damp
    q = rr * rr + ri * ri
    if q < 0.25 or q < sps:
        g = sqrt(sps / q)
        rr, ri = rr * g, ri * g
    ad = p['emd'] * d + p['aed']
    phi = wn * he[0] * he[1] * 2 / d
    if phi > 1.57:
        phi = 3.14 - 2.4649 / phi
    u, v = cos(phi) + rr, -sin(phi) + ri
    at = -4.343 * log(u * u + v * v)
    return (at - ad) * p['wis'] + ad


# ------------------------------------------------------------------ 4.4 scatter
def f0(d):
    """F0(D), (6.9)"""
    if d <= 10e3:
        return 133.4 + 0.332e-3 * d - 4.343 * log(d)
    if d <= 70e3:
        return 104.6 + 0.212e-3 * d - 1.086 * log(d)
    return 71.8 + 0.157e-3 * d + 2.171 * log(d)


H01_A = (25, 80, 177, 395, 705)
H01_B = (24, 45, 68, 80, 105)


def h01(r, j):
    x = (1 / r) * (1 / r)
    return 4.343 * log((H01_A[j - 1] * x + H01_B[j - 1]) * x + 1)


def h0f(r, et):
    """H01(r, eta), (6.13): linear interpolation between whole eta, constant outside 1..5"""
    if et < 1:
        return h01(r, 1)
    if et >= 5:
        return h01(r, 5)
    j = floor(et)
    f = et - j
    if f == 0:
        return h01(r, j)
    return (1 - f) * h01(r, j) + f * h01(r, j + 1)


def ascat(d, p, h0f=h0f, f0=f0):
    """A_scat(d), (4.60)-(4.67).  p: ad, rr, etq, h0s, ...  Returns (value, h0s afterwards)."""
    h0s = p['h0s']
    if h0s > 15:
        h0 = h0s
    else:
        th = p['the'][0] + p['the'][1] + d * p['gme']
        r1 = 2 * p['wn'] * th * p['he'][0]
        r2 = 2 * p['wn'] * th * p['he'][1]
        if r1 < 0.2 and r2 < 0.2:
            return 1001, h0s                  # inadmissible: the scatter mode is left undefined
        ad = p['ad']
        ss = (d - ad) / (d + ad)
        q = p['rr'] / ss
        ss = mx(0.1, ss)
        q = mn(mx(0.1, q), 10)
        z0 = (d - ad) * (d + ad) * th * 0.25 / d
        y = mn(1.7, z0 / 8e3)
        et = (p['etq'] * exp(-y**6) + 1) * z0 / 1.7556e3
        ett = mx(et, 1)
        h0 = (h0f(r1, ett) + h0f(r2, ett)) * 0.5
        h0 = h0 + mn(h0, (1.38 - log(ett)) * log(ss) * log(q) * 0.49)
        h0 = mx(h0, 0)
        if et < 1:
            t = (1 + 1.4142 / r1) * (1 + 1.4142 / r2)
            h0 = et * h0 + (1 - et) * 4.343 * log(t * t * (r1 + r2) / (r1 + r2 + 2.8284))
        if h0 > 15 and h0s >= 0:
            h0 = h0s
    th = p['tha'] + d * p['gme']
    val = (f0(th * d) + 4.343 * log(47.7 * p["wn"] * th**4)
           - 0.1 * (p['ens'] - 301) * exp(-th * d / 40e3) + h0)
    return val, h0


# ------------------------------------------------------------------ 4.1 reference attenuation
def geometry(p):
    """(3.5)-(3.8): smooth-earth horizons, totals"""
    o = {}
    o['dls'] = [sqrt(2 * p['he'][j] / p['gme']) for j in (0, 1)]
    o['dlsa'] = o['dls'][0] + o['dls'][1]
    o['dla'] = p['dl'][0] + p['dl'][1]
    o['tha'] = mx(p['the'][0] + p['the'][1], -o['dla'] * p['gme'])
    return o


def warn_setup(p, dls):
    """Marker raised by the path parameters themselves"""
    k = p['kwx']
    wn, hg, the, dl = p['wn'], p['hg'], p['the'], p['dl']
    lim = []
    z = p['zgnd']
    if (wn < 0.419 or wn > 420 or p['ens'] < 250 or p['ens'] > 400 or p['gme'] < 75e-9
            or p['gme'] > 250e-9 or z.real < ab(z.imag)
            or hg[0] < 0.5 or hg[0] > 3000 or hg[1] < 0.5 or hg[1] > 3000):
        return 4
    for j in (0, 1):
        if ab(the[j]) > 0.2 or dl[j] < 0.1 * dls[j] or dl[j] > 3 * dls[j]:
            return max(k, 3)
    if wn < 0.838 or wn > 210 or hg[0] < 1 or hg[0] > 1000 or hg[1] < 1 or hg[1] > 1000:
        return max(k, 1)
    return k


def warn_distance(k, d, dmin):
    if d > 0:
        if d < 1e3 or d > 2000e3:
            return 4
        if d < dmin:
            return max(k, 3)
        if d > 1000e3:
            return max(k, 1)
    return k


def diffraction_line(p, adiff):
    """(4.4)-(4.8): the straight line A = aed + emd * d"""
    o = {}
    o['xae'] = 1 / rpow(p['wn'] * p['gme'] * p['gme'], 1, 3)
    d3 = mx(p['dlsa'], p['dla'] + 1.3787 * o['xae'])
    d4 = d3 + 2.7574 * o['xae']
    a3, a4 = adiff(d3), adiff(d4)
    o['emd'] = (a4 - a3) / (d4 - d3)
    o['aed'] = a3 - o['emd'] * d3
    o['wis'] = 0.021 / (0.021 + p['wn'] * p['dh'] / mx(10e3, p['dlsa']))
    return o


def los_coefficients(p, alos):
    """(4.28)-(4.42)"""
    he, dla = p['he'], p['dla']
    d2 = p['dlsa']
    a2 = p['aed'] + d2 * p['emd']
    d0 = 1.908 * p['wn'] * he[0] * he[1]
    if p['aed'] >= 0:
        d0 = mn(d0, 0.5 * dla)
        d1 = d0 + 0.25 * (dla - d0)
    else:
        d1 = mx(-p['aed'] / p['emd'], 0.25 * dla)
    a1 = alos(d1)
    fit = False
    if d0 < d1:
        a0 = alos(d0)
        lq = log(d2 / d0)
        k2 = mx(0, ((d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0))
                / ((d2 - d0) * log(d1 / d0) - (d1 - d0) * lq))
        fit = bool(p['aed'] >= 0) or bool(k2 > 0)
        if fit:
            k1 = (a2 - a0 - k2 * lq) / (d2 - d0)
            if k1 < 0:
                k1 = 0
                k2 = mx(a2 - a0, 0) / lq
                if k2 == 0:
                    k1 = p['emd']
    if not fit:
        k1 = mx(a2 - a1, 0) / (d2 - d1)
        k2 = 0
        if k1 == 0:
            k1 = p['emd']
    return {'ak1': k1, 'ak2': k2, 'ael': a2 - k1 * d2 - k2 * log(d2)}


def scatter_constants(p):
    """ad, rr, etq: (4.53), (4.64) ff"""
    ad = p['dl'][0] - p['dl'][1]
    rr = p['he'][1] / p['he'][0]
    if ad < 0:
        ad, rr = -ad, 1 / rr
    return {'ad': ad, 'rr': rr, 'etq': (5.67e-6 * p['ens'] - 2.32e-3) * p['ens'] + 0.031}


def scatter_line(p, ascat):
    """(4.52)-(4.59); ascat(d, h0s) -> (value, h0s)"""
    d5 = p['dla'] + 200e3
    d6 = d5 + 200e3
    a6, h = ascat(d6, -15)
    a5, h = ascat(d5, h)
    if a5 < 1000:
        ems = (a6 - a5) / 200e3
        dx = mx(p['dlsa'], p['dla'] + 0.3 * p['xae'] * log(47.7 * p['wn']),
                (a5 - p['aed'] - ems * d5) / (p['emd'] - ems))
        return {'ems': ems, 'dx': dx, 'aes': (p['emd'] - ems) * dx + p['aed'], 'h0s': h}
    return {'ems': p['emd'], 'aes': p['aed'], 'dx': 10e6, 'h0s': h}


def reference_attenuation(d, p, los, scat):
    """(4.1) at a distance d > 0 (d = 0: the coefficients only; value at 0 of the far lines).
    los() and scat() give the coefficients when that region is entered."""
    if d > 0 and d < p['dlsa']:
        c = los()
        a = c['ael'] + c['ak1'] * d + c['ak2'] * log(d)
    else:
        c = scat()
        if d > c['dx']:
            a = c['aes'] + c['ems'] * d
        else:
            a = p['aed'] + p['emd'] * d
    return mx(a, 0)


# ------------------------------------------------------------------ section 5 variability
CLIMATE = {
    # klim: (cv1, cv2, yv1, yv2, yv3), (csm1, csm2, ysm1..3), (csp1, csp2, ysp1..3), csd1, zd, (cfm1..3), (cfp1..3)
    1: ((-9.67, 12.7, 144.9e3, 190.3e3, 133.8e3), (2.13, 159.5, 762.2e3, 123.6e3, 94.5e3),
        (2.11, 102.3, 636.9e3, 134.8e3, 95.6e3), 1.224, 1.282, (1., 0., 0.), (1., 0., 0.)),
    2: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.66, 7.67, 100.4e3, 172.5e3, 136.4e3),
        (6.87, 15.53, 138.7e3, 143.7e3, 98.6e3), 0.801, 2.161, (1., 0., 0.), (0.93, 0.31, 2.00)),
    3: ((1.26, 15.5, 262.6e3, 185.2e3, 99.8e3), (6.11, 6.65, 138.2e3, 242.2e3, 178.6e3),
        (10.08, 9.60, 165.3e3, 225.7e3, 129.7e3), 1.380, 1.282, (1., 0., 0.), (1., 0., 0.)),
    4: ((-9.21, 9.05, 84.1e3, 101.1e3, 98.6e3), (1.98, 13.11, 139.1e3, 132.7e3, 193.5e3),
        (3.68, 159.3, 464.4e3, 93.1e3, 94.2e3), 1.000, 20., (1., 0., 0.), (0.93, 0.19, 1.79)),
    5: ((-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (2.68, 7.16, 93.7e3, 186.8e3, 133.5e3),
        (4.75, 8.12, 93.2e3, 135.9e3, 113.4e3), 1.224, 1.282, (0.92, 0.25, 1.77), (0.93, 0.31, 2.00)),
    6: ((-0.39, 2.86, 141.7e3, 315.9e3, 167.4e3), (6.86, 10.38, 187.8e3, 169.6e3, 108.9e3),
        (8.58, 13.97, 216.0e3, 152.0e3, 122.7e3), 1.518, 1.282, (1., 0., 0.), (1., 0., 0.)),
    7: ((3.15, 857.9, 2222.e3, 164.8e3, 116.3e3), (8.51, 169.8, 609.8e3, 119.9e3, 106.6e3),
        (8.43, 8.19, 136.2e3, 188.5e3, 122.9e3), 1.518, 1.282, (1., 0., 0.), (1., 0., 0.)),
}


def curv(c1, c2, x1, x2, x3, de):
    """(5.5)"""
    t = (de - x2) / x3
    r = (de / x1) * (de / x1)
    return (c1 + c2 / (1 + t * t)) * r / (1 + r)


def avar_effective_distance(dist, he, wn):
    """(5.3), (5.4)"""
    dexa = sqrt(18e6 * he[0]) + sqrt(18e6 * he[1]) + rpow(575.7e12 / wn, 1, 3)
    if dist < dexa:
        de = 130e3 * dist / dexa
    else:
        de = 130e3 + dist - dexa
    return dexa, de


def avar_coefficients(klim, mdvar, dist, he, dh, wn, curv=curv):
    """Everything the quantiles need, from the present parameters; also the warning raised."""
    kwx = 0
    if klim <= 0 or klim > 7:
        klim = 5
        kwx = 2
    V, M, P, csd1, zd, FM, FP = CLIMATE[klim]
    kdv = mdvar
    ws = kdv >= 20
    if ws:
        kdv -= 20
    wl = kdv >= 10
    if wl:
        kdv -= 10
    if kdv < 0 or kdv > 3:
        kdv = 0
        kwx = 2
    q = log(0.133 * wn)
    gm = FM[0] + FM[1] / ((FM[2] * q) * (FM[2] * q) + 1)
    gp = FP[0] + FP[1] / ((FP[2] * q) * (FP[2] * q) + 1)
    dexa, de = avar_effective_distance(dist, he, wn)
    c = {'klim': klim, 'kdv': kdv, 'zd': zd, 'kwx': kwx}
    c['vmd'] = curv(*V, de)
    c['sgtm'] = curv(*M, de) * gm
    c['sgtp'] = curv(*P, de) * gp
    c['sgtd'] = c['sgtp'] * csd1
    c['tgtd'] = (c['sgtp'] - c['sgtd']) * zd
    if wl:
        c['sgl'] = 0
    else:
        q = roughness(dist, dh) * wn
        c['sgl'] = 10 * q / (q + 13)
    if ws:
        c['vs0'] = 0
    else:
        e = 5 + 3 * exp(-de / 100e3)
        c['vs0'] = e * e
    return c


def avar_quantile(zt, zl, zc, aref, c):
    """(5.1)-(5.2), (5.12)-(5.20): attenuation not exceeded, and the warning raised"""
    kdv = c['kdv']
    if kdv == 0:
        zt = zc
        zl = zc
    elif kdv == 1:
        zl = zc
    elif kdv == 2:
        zl = zt
    kwx = 1 if (ab(zt) > 3.10 or ab(zl) > 3.10 or ab(zc) > 3.10) else 0
    if zt < 0:
        sgt = c['sgtm']
    elif zt <= c['zd']:
        sgt = c['sgtp']
    else:
        sgt = c['sgtd'] + c['tgtd'] / zt
    sgl = c['sgl']
    vs = c['vs0'] + sgt * zt * sgt * zt / (7.8 + zc * zc) + sgl * zl * sgl * zl / (24 + zc * zc)
    if kdv == 0:
        yr, sgc = 0, sqrt(sgt * sgt + sgl * sgl + vs)
    elif kdv == 1:
        yr, sgc = sgt * zt, sqrt(sgl * sgl + vs)
    elif kdv == 2:
        yr, sgc = sqrt(sgt * sgt + sgl * sgl) * zt, sqrt(vs)
    else:
        yr, sgc = sgt * zt + sgl * zl, sqrt(vs)
    a = aref - c['vmd'] - yr - sgc * zc
    if a < 0:
        a = a * (29 - a) / (29 - 10 * a)
    return a, kwx


# ------------------------------------------------------------------ preparatory routines
def qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    """(1.1), (1.2), (1.3), (1.5)"""
    wn = fmhz / 47.7
    if zsys != 0:
        ens = en0 * exp(-zsys / 9460)
    else:
        ens = en0
    gme = GMA * (1 - 0.04665 * exp(ens / 179.3))
    im = 376.62 * sgm / wn
    zr, zi = csqrt(eps - 1, im)
    if ipol != 0:
        m = eps * eps + im * im
        zr, zi = (zr * eps + zi * im) / m, (zi * eps - zr * im) / m
    return wn, gme, ens, zr, zi


def area_terminal(kst, hg, dh, gme):
    """(3.1)-(3.4) for one terminal: he, dl, the"""
    if kst <= 0:
        he = hg
    else:
        q = 4 if kst == 1 else 9
        if hg < 5:
            q = q * sin(0.3141593 * hg)
        he = hg + (1 + q) * exp(-mn(20, 2 * hg / mx(1e-3, dh)))
    q = sqrt(2 * he / gme)
    dl = q * exp(-0.07 * sqrt(dh / mx(he, 5)))
    the = (0.65 * dh * (q / dl - 1) - 2 * he) / q
    return he, dl, the


def horizons(pfl, dist, hg, gme):
    """Horizon angles and distances of both terminals, seen from each end of the profile."""
    n, xi = pfl[0], pfl[1]
    z = pfl[2:n + 3]
    za, zb = z[0] + hg[0], z[n] + hg[1]
    the = [(zb - za) / dist - 0.5 * gme * dist, (za - zb) / dist - 0.5 * gme * dist]
    dl = [dist, dist]
    for i in range(1, n):
        sa, sb = i * xi, dist - i * xi
        ta = (z[i] - za) / sa - 0.5 * gme * sa
        tb = (z[i] - zb) / sb - 0.5 * gme * sb
        if ta > the[0]:
            the[0], dl[0] = ta, sa
        if tb > the[1]:
            the[1], dl[1] = tb, sb
    return the, dl


def fit_range(z, x1, x2):
    n = z[0]
    ja = trunc(mx(x1 / z[1], 0))
    jb = n - trunc(mx(n - x2 / z[1], 0))
    if jb <= ja:
        ja = max(ja - 1, 0)
        jb = n - max(n - jb - 1, 0)
    return ja, jb


def straight_fit(z, x1, x2):
    """Straight line fitted to the profile between x1 and x2, evaluated at both ends."""
    n = z[0]
    ja, jb = fit_range(z, x1, x2)
    m = jb - ja
    mid = 0.5 * (ja + jb)
    a = 0
    b = 0
    for j in range(ja, jb + 1):
        w = 0.5 if j in (ja, jb) else 1
        a = a + w * z[j + 2]
        b = b + w * z[j + 2] * (j - mid)
    a = a / m
    b = b * 12 / ((m * m + 2) * m)
    return a - b * mid, a + b * (n - mid)


def terrain_irregularity(pfl, x1, x2, kth=None, fit=None):
    """delta-h of the profile between x1 and x2"""
    n, xi = pfl[0], pfl[1]
    xa, xb = x1 / xi, x2 / xi
    if xb - xa < 2:
        return 0
    ka = trunc(0.1 * (xb - xa + 8))
    ka = min(max(4, ka), 25)
    m = 10 * ka - 5
    kb = m - ka + 1
    step = (xb - xa) / (m - 1)
    s = []
    for j in range(m):
        # linear interpolation at xa + j*step; the last interval is extended
        pos = xa + j * step
        k = trunc(pos)
        if pos > k:
            k = k + 1
        k = min(max(k, trunc(xa + 1)), n)
        s.append(pfl[k + 2] + (pfl[k + 2] - pfl[k + 1]) * (pos - k))
    a, b = (fit or straight_fit)([m - 1, 1] + s, 0, m - 1)
    slope = (b - a) / (m - 1)
    r = [v - (a + slope * j) for j, v in enumerate(s)]
    if kth is None:
        v = sorted(r, reverse=True)
        d = v[ka - 1] - v[kb - 1]
    else:
        d = kth(r, ka - 1) - kth(r, kb - 1)
    return d / (1 - 0.8 * exp(-(x2 - x1) / 50e3))


def p2p_dl(he, gme, dh):
    return sqrt(2 * he / gme) * exp(-0.07 * sqrt(dh / mx(he, 5)))


# set when, in doubles, rounding decides which samples a fit or a resampling takes (the claims are about reals: such a replay shows nothing)
UNCLEAR = []


def unclear(pfl, *ends):
    if all(type(v) in (int, float) for v in ends + (pfl[1],)):
        for x in ends:
            u = x / pfl[1]
            if 0 < u < pfl[0] and abs(u - round(u)) < 1e-9 * (1 + abs(u)):
                UNCLEAR.append(x)


def p2p_geometry(pfl, hg, gme, hzns, dlthx, fit):
    """Preparation of a point-to-point path: effective heights, horizons, delta-h."""
    n = pfl[0]
    dist = n * pfl[1]
    the, dl = hzns(pfl, dist, hg, gme)
    the, dl = [the[0], the[1]], [dl[0], dl[1]]
    x1 = mn(15 * hg[0], 0.1 * dl[0])
    x2 = dist - mn(15 * hg[1], 0.1 * dl[1])
    dh = dlthx(pfl, x1, x2)
    unclear([25, pfl[1]], 0.1 * (x2 - x1 + 8 * pfl[1]))
    if dl[0] + dl[1] >= 1.5 * dist:
        unclear(pfl, x1, x2)
        za, zb = fit(pfl, x1, x2)
        he = [hg[0] + mx(pfl[2] - za, 0), hg[1] + mx(pfl[n + 2] - zb, 0)]
        dl = [p2p_dl(h, gme, dh) for h in he]
        q = dl[0] + dl[1]
        if q <= dist:
            q = (dist / q) * (dist / q)
            he = [h * q for h in he]
            dl = [p2p_dl(h, gme, dh) for h in he]
        for j in (0, 1):
            q = sqrt(2 * he[j] / gme)
            the[j] = (0.65 * dh * (q / dl[j] - 1) - 2 * he[j]) / q
    else:
        unclear(pfl, x1, x2, 0.9 * dl[0], dist - 0.9 * dl[1])
        za, _ = fit(pfl, x1, 0.9 * dl[0])
        _, zb = fit(pfl, dist - 0.9 * dl[1], x2)
        he = [hg[0] + mx(pfl[2] - za, 0), hg[1] + mx(pfl[n + 2] - zb, 0)]
    return {'dist': dist, 'the': the, 'dl': dl, 'dh': dh, 'he': he}


# ------------------------------------------------------------------ miscellaneous
def qerf(z):
    t = ab(z)
    if t >= 10:
        v = 0
    else:
        u = 4.317008 / (t + 4.317008)
        v = (exp(-0.5 * z * z) * 0.398942280
             * ((((1.330274429 * u - 1.821255987) * u + 1.781477937) * u - 0.356563782) * u + 0.319381530) * u)
    if z < 0:
        return 1 - v
    return v


def qerfi1(q):
    """unrounded"""
    x = 0.5 - q
    t = mx(0.5 - ab(x), 0.000001)
    t = sqrt(-2 * log(t))
    v = t - ((0.010328 * t + 0.802853) * t + 2.515516698) / (((0.001308 * t + 0.189269) * t + 1.432788) * t + 1)
    if x < 0:
        v = -v
    return v
