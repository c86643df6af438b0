from . import writers
BOUNDS = 'up to 3 (thorough: 20) rows or features'


def obligations(tier):
    return writers.writers(tier)
