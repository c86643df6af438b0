from . import writers
BOUNDS = '2 (thorough: 4) elevations of -400 to 4000 m; plane terrain under the path'


def obligations(tier):
    return writers.programs(tier)
