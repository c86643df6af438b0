from . import scripts
BOUNDS = 'all rows of each runner; profiles up to 620 (thorough: 1300) intervals, PIMTER up to 130; callees uninterpreted'


def obligations(tier):
    return scripts.runners(tier)
