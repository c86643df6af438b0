from . import stats
BOUNDS = 'modes 0 to 3 with their flags, climates 1 to 7, deviates up to 3.1'


def obligations(tier):
    return stats.monotone(tier)
