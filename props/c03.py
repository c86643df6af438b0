from . import leaf
BOUNDS = 'angular distances 200 m-1300 km, any earlier frequency gain'


def obligations(tier):
    return leaf.scatter(tier)
