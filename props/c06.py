from . import assembly
BOUNDS = 'sequences of 2 and some of 3 (thorough: all of 3, some of 4) distances; two paths sharing a parameter set, area or point-to-point; as C04 otherwise'


def obligations(tier):
    return assembly.sequences(tier)
