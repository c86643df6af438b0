from . import scripts
BOUNDS = 'profiles of 1 to 156 (thorough: 620) intervals'


def obligations(tier):
    return scripts.reports(tier)
