from . import recip
BOUNDS = 'horizons: 3 (thorough: 4) intervals all free, 40 and 300 with two heights free; fits to 640, irregularity to 300, preparation to 323 intervals; ties of horizon points excluded'


def obligations(tier):
    return recip.reciprocity(tier)
