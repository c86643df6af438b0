from . import assembly
BOUNDS = 'groups of up to 4 limits free at a time (thorough: pairs of groups)'


def obligations(tier):
    return assembly.marker(tier)
