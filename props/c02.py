from . import leaf
BOUNDS = 'd 10 m-1000 km, heights and impedance as C01, complex impedance in the right half plane'


def obligations(tier):
    return leaf.los(tier)
