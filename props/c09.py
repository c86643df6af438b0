from . import stats
BOUNDS = 'climates -1 to 12, modes -1 to 45, all reals otherwise'


def obligations(tier):
    return stats.variability(tier)
