from . import assembly
BOUNDS = 'as C04'


def obligations(tier):
    return assembly.shape(tier)
