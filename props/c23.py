from . import isolation
BOUNDS = 'documented ranges of every argument'


def obligations(tier):
    return isolation.total(tier)
