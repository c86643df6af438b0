from . import isolation
BOUNDS = 'two calls whose arguments differ in one group'


def obligations(tier):
    return isolation.isolation(tier)
