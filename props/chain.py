"""The whole reference model, on numbers (used where a replay runs the whole program)."""
from ref import itm as R


def setup(p):
    s = dict(p)
    s.update(R.geometry(s))
    s.update(R.adiff_setup(s))
    s.update(R.diffraction_line(s, lambda x: R.adiff(x, s)))
    return s


def aref(s, d):
    def scat():
        q = dict(s)
        q.update(R.scatter_constants(s))

        def f(x, h):
            q['h0s'] = h
            return R.ascat(x, q)
        return R.scatter_line(q, f)
    return R.reference_attenuation(d, s, lambda: R.los_coefficients(s, lambda x: R.alos(x, s)), scat)


def p2p_aref(p):
    return aref(setup(dict(p, mdp=-1)), p['dist'])


def p2p(pfl, hg, gme):
    return R.p2p_geometry(pfl, hg, gme, R.horizons, R.terrain_irregularity, R.straight_fit)
