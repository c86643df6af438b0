from . import stats
BOUNDS = 'lists of up to 4 (thorough: 5) free values and every rank; lists of up to 620 (thorough: 1300) with two values free'


def obligations(tier):
    return stats.order_statistics(tier)
