from . import prep
BOUNDS = '20-20000 MHz, elevation to 9 km, each polarisation'


def obligations(tier):
    return prep.qlrps(tier)
