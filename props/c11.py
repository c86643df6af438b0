from . import stats
BOUNDS = 'refresh levels 0 to 5, two parameter sets'


def obligations(tier):
    return stats.refresh(tier)
