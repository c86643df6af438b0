from . import stats
BOUNDS = 'deviates within 15, levels in [0, 1], lists of up to 3'


def obligations(tier):
    return stats.normal(tier)
