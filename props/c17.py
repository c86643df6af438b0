from . import prep
BOUNDS = 'profiles of 1, 2, 3, 12, 63, 623 (thorough: 1300) intervals, every flag; callees uninterpreted'


def obligations(tier):
    return prep.qlrpfl(tier)
