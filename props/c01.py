from . import leaf
BOUNDS = 'all reals in wn .4-450, gme 7e-8-2.6e-7, hg .3-3500 m, he .3-5000 m, dl 50 m-400 km, dh 0-3000 m; both modes'
ASSUMPTIONS = []


def obligations(tier):
    return leaf.diffraction(tier)
